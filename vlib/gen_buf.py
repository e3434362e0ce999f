"""Random uses of the body buffers (C10, C11)."""


def scenario(r, sid, faults, big=False):
    if big:
        mem = r.choice([512, 1000, 4096])
        lim = mem * 2
        sizes = [0, 1, 100, 511, 512, 513, 700, 1024]
    else:
        mem = r.choice([0, 1, 2, 3, 5, 8, 13, 30])
        lim = r.choice([0, 1, 4, 8, 16, 16, 40, 40])
        sizes = [0, 1, 1, 2, 2, 3, 4, 5, 7, 8, 9, 13]
    s = {"sid": sid, "memlim": mem, "reqlim": lim, "reslim": r.choice([0, 3, 10, 30]),
         "dir": r.choice(["ok"] * 4 + ["missing", "nested"] + (["blocked"] if faults else [])), "ops": []}
    x = r.random()
    s["unit"] = 1 if big or x < .8 else r.choice([512, 4096, 32768, 65536, 70001]) if x < .98 else 1 << 20
    who = r.choices([["req"], ["req", "res"], ["req", "req2"], ["req", "res", "req2", "res2"]], [5, 3, 3, 2])[0]
    s["other"] = r.random() < .5
    off, full, nwritten = False, False, 0
    closed = set()
    k = 1 if len(who) == 1 else 1.5
    nw = int(k * r.randint(0, 7))
    n = nw + int(k * r.randint(0, 9))
    if r.random() < .03:  # very many of them
        nw = int(k * r.choice([16, 17, 33, 40, 65]))
        n = nw + int(k * r.choice([3, 9, 20, 40]))
        sizes = [0, 1, 1, 1]
        lim = lim + 60
        s["reqlim"] = lim
        s["memlim"] = mem = r.choice([mem, mem + 30])
    alpha = r.randint(0, 255)
    for i in range(n):
        b = r.choice(who) if r.random() < 0.97 else "res"
        o = {"o": "", "b": b, "p": [], "n": 0, "off": 0, "wh": 0}
        s["ops"].append(o)
        if faults and r.random() < 0.25 and s["dir"] != "blocked":
            if r.random() < 0.5 and s["dir"] == "ok":
                o.update(o="dir", n=1 if off else 0)
                off = not off
            else:
                full = not full
                o.update(o="full", n=r.choice([0, 1, 2, 3, 5, 8, 12, 20]) if full else -1)
                if big and full:
                    o["n"] = r.choice([1, 600, 1024, 1500])
            continue
        if i < nw or r.random() < 0.1:
            k = r.choice(sizes)
            if r.random() < 0.15 and not big:  # aim at a limit exactly
                k = max(0, r.choice([mem, lim]) - nwritten + r.choice([-1, 0, 1]))
            k = min(k, 2500)
            nwritten += k
            o.update(o=r.choice(["write", "write", "append"]), p=[(alpha + nwritten + j * 7) % 256 for j in range(k)])
            continue
        x = r.random()
        if x < 0.4:
            o.update(o="read", n=r.choice([0, 1, 1, 2, 3, 5, 20]) if not big else r.choice([1, 100, 600, 5000]))
        elif x < 0.6:
            wh = r.choice([0, 0, 1, 1, 2, 2, 2, 5, -1])
            o.update(o="seek", wh=wh, off=r.choice([0, 0, 1, 2, -1, -2, -5, 3, 12, 40]))
        elif x < 0.75:
            o.update(o="copy")
        else:
            o.update(o=r.choice(["string", "bytes"]))
    # a close ends the use of a buffer; the other one goes on
    if r.random() < 0.6 and not off and not full:
        for b in r.sample(["req", "res", "req2", "res2"], r.choice([1, 2, 4])):
            s["ops"].append({"o": "close", "b": b, "p": [], "n": 0, "off": 0, "wh": 0})
    return s


def batch(r, n, faults, big=0):
    return [scenario(r, i + 1, faults, big=i < big) for i in range(n)]
