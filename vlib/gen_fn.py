"""Random inputs for the transformations and operators (C16-C19)."""
import re

C16 = ["none", "lowercase", "removeWhitespace", "compressWhitespace", "removeNulls", "replaceNulls"]
WS = [9, 10, 11, 12, 13, 32]
# characters without case beyond ASCII, valid and not
CASELESS = [[0xe4, 0xb8, 0xad], [0xe2, 0x82, 0xac], [0xf0, 0x9f, 0x98, 0x80], [0xef, 0xbf, 0xbd], [0xef, 0xbb, 0xbf], [0xc2, 0xb5 - 0x10], [0xe3, 0x80, 0x80],
            [0xc2, 0x85], [0xc2, 0xa0], [0xe2, 0x80, 0xa8]]
INVALID = [[0x80], [0xff], [0xfe], [0xc0, 0x80], [0xc3], [0xe4, 0xb8], [0xf0, 0x9f, 0x98], [0xed, 0xa0, 0x80], [0xf5, 0x80], [0xbf], [0xe2, 0x41], [0xc3, 0x28]]


def piece(r):
    x = r.random()
    if x < .25:
        return [r.choice(WS)] * r.choice([1, 1, 2, 3])
    if x < .4:
        return [0] * r.choice([1, 1, 2])
    if x < .6:
        return [r.choice([65, 90, 64, 91, 96, 97, 122, 123] + list(range(65, 91)))]
    if x < .7:
        return [r.randint(0, 127)]
    if x < .85:
        return r.choice(CASELESS)
    return r.choice(INVALID)


def cased(bs):
    """Does the text contain a character beyond ASCII that has case? (then what lowercase does is left open)"""
    s = bytes(bs).decode("utf-8", "ignore")
    return any(ord(c) > 127 and (c.lower() != c or c.upper() != c) for c in s)


def text16(r):
    while True:
        s = []
        for _ in range(r.randint(0, 12)):
            s += piece(r)
        if r.random() < .05:
            s = s * r.randint(5, 20)
        if not cased(s):
            return s[:400]


HEX = [ord(c) for c in "0123456789abcdefABCDEF"]


def url_piece(r):
    def h():
        return r.choice(HEX)
    x = r.random()
    if x < .2:
        return [37, h(), h()]
    if x < .4:
        return [37, r.choice([117, 117, 85])] + [h() for _ in range(4)]
    if x < .5:
        return [37, 117] + r.choice([list(b"FF01"), list(b"ff5e"), list(b"ff00"), list(b"FF5f"), list(b"ffff"), list(b"d800"), list(b"DFFF"), list(b"0000"),
                                     list(b"007f"), list(b"0080"), list(b"07ff"), list(b"0800"), list(b"fffd"), list(b"FF21"), list(b"fe41")])
    if x < .65:  # broken escapes
        p = [37] + r.choice([[117], []]) + [h() for _ in range(4)]
        p = p[:r.randint(1, len(p))]
        if r.random() < .4:
            p[r.randrange(len(p))] = r.choice([37, 103, 71, 117, 43, 0x2f, 0x3a, 0x40, 0x60])
        return p
    if x < .75:
        return [43]
    if x < .8:
        return [37] * r.randint(1, 3)
    if x < .85:
        return list(b"%25") + [r.choice(HEX) for _ in range(r.randint(0, 3))]
    return [r.randint(0, 255)]


def url_text(r):
    s = []
    for _ in range(r.randint(0, 9)):
        s += url_piece(r)
    if r.random() < .3 and s:
        s = s[:r.randint(0, len(s))]
    return s


SIZES = [1000, 4090, 8192, 32766, 65534, 65535, 65536, 100000]


def pumped(r, s, c):
    """Runs of c that the harness makes long (see MCPump)."""
    s = list(s)
    for _ in range(r.choice([1, 1, 2])):
        i = r.randint(0, len(s))
        s[i:i] = [c] * r.choice([2, 2, 3])
    return s, {"c": c, "n": r.choice(SIZES) if r.random() < .97 else 1200000}


def trans_batch(r, n, fns):
    res = []
    for i in range(n):
        fn = r.choice(fns)
        s = url_text(r) if fn.startswith("url") else text16(r)
        if fn.startswith("url") and r.random() < .1:
            s = text16(r)
        res.append({"sid": i + 1, "t": "trans", "fn": fn, "in": s, "arg": [], "via": r.choice(["", "", "seclang"])})
        if r.random() < .02:
            res[-1]["in"], res[-1]["pump"] = pumped(r, s, r.choice([37, 43, 32, 122, 126, 0, 81] if fn.startswith("url") else [32, 9, 0, 97, 65, 81, 126]))
        elif r.random() < .01:  # as it is
            u = s or [65]
            res[-1]["in"] = (u * 2000)[:r.choice([255, 256, 257, 511, 1023, 1024, 1500])]
            if cased(res[-1]["in"]):
                res[-1]["in"] = s
    return res


def digits(r):
    x = r.random()
    if x < .3:
        return str(r.randint(0, 12))
    if x < .5:
        return str(r.choice([2**31, 2**32, 2**53, 2**63, 2**64, 10**18, 10**19, 10**20]) + r.randint(-2, 2))
    if x > .99:
        return str(r.randint(1, 9)) * r.choice([19, 39, 78, 309, 310, 400, 1500])
    if x < .6:
        return "0" * r.choice([1, 2, 3, 3, 18, 20, 100]) + str(r.randint(0, 100))
    if x < .7:
        return str(r.randint(0, 10**r.randint(1, 40)))
    return str(r.randint(0, 300))


def number(r):
    s = r.choice(["", "", "", "-", "-", "+"]) + digits(r)
    ws = ["", "", "", " ", "\t", "  ", "\n", "\r\n", "\v", "\f"]
    return r.choice(ws) + s + r.choice(ws)


def mangled(r):
    s = number(r)
    x = r.random()
    junk = r.choice(["a", "x", " ", "_", ".", "-", "+", "e", "0x", "\x00", ",", "\xe9", "%", "1e3"])
    if x < .2:
        return r.choice(["", " ", "-", "+", "abc", "--1", "+-1", "- 1", "1 2", "0x10", "1.5", "1_0", "1e3", "\t", "0b1", "0o7", "\u0663"])
    if r.random() < .6:
        s = s.strip()
    for _ in range(r.choice([1, 1, 1, 2])):
        i = r.randint(0, len(s))
        s = s[:i] + junk + s[i:]
    return s


def taken(r, s):
    """A number that s, which is none, might be taken for."""
    d = [x for x in (re.sub(r"[^0-9]", "", s), *re.findall(r"[0-9]+", s)) if x]
    return (r.choice(["", "", "-"]) if "-" in s else "") + r.choice(d) if d else r.choice(["0", "1", "-1"])


def b8(s):
    return list(s.encode("utf-8"))


def num_batch(r, n):
    res = []
    for i in range(n):
        arg, val = number(r), (number(r) if r.random() < .75 else mangled(r))
        if r.random() < .2:
            val = arg
        if r.random() < .3:  # next to each other
            v = int(arg) + r.randint(-1, 1)
            val = str(v)
        if r.random() < .06:
            arg = mangled(r)
        if r.random() < .12:
            val = mangled(r)
            n = int(taken(r, val))
            arg = str(r.choice([n, n, n + 1, n - 1, n // 2]))
        via = r.choice(["", "", "seclang"])
        if via and (any(c in arg for c in "\"\\\n\r\x00") or arg != arg.strip() or not arg):
            via = ""
        res.append({"sid": i + 1, "t": "num", "fn": r.choice(["eq", "ge", "gt", "le", "lt"]), "arg": b8(arg), "in": b8(val), "via": via})
    return res


# ---- regular expressions

ALPHA = [97, 98, 99, 65, 48, 49, 95, 32, 45, 46]


def ch(r):
    x = r.random()
    if x < .75:
        return r.choice(ALPHA[:6])
    if x < .95:
        return r.choice(ALPHA + [36, 40, 41, 42, 43, 63, 91, 92, 93, 94, 123, 124, 125, 10, 47, 34])
    return r.choice([0xe9, 0x4e2d, 0x1f600, 107, 115, 75, 83, 0xe5, 0xdf, 0xff, 0xb5, 0xc9, 0xd7, 0xf7, 0x212a, 0x17f])


def atom(r):
    y = r.random()
    if y < .53:
        return {"k": "lit", "c": ch(r)}
    if y < .56:
        return {"k": "hex", "c": ch(r)}
    if y < .65:
        return {"k": "any"}
    if y < .75:
        return {"k": "cls", "n": r.choice("dwsDWS")}
    if y < .9:
        items = []
        for _ in range(r.randint(1, 3)):
            a = ch(r)
            b = a if r.random() < .5 or 0xfb <= a < 0x4e00 else a + r.randint(1, 4)
            items.append([a, b])
        cl = {"cl": [r.choice("dwsDWS")]} if r.random() < .15 else {}
        return {"k": "set", "neg": r.random() < .3, "items": items, **cl}
    return {"k": r.choice(["bol", "eol", "bol", "eol", "wb", "nwb", "bot", "eot"])}


def flags(r, x, bare):
    fs = r.sample("iismU", r.choice([1, 1, 2]))
    on = sorted(set(fs)) if r.random() < .85 else []
    off = [c for c in r.sample("ism", 1) if c not in on] if r.random() < .25 or not on else []
    return {"k": "fl", "on": on or (["i"] if off != ["i"] else ["s"]), "off": off, "bare": bare, "x": x}


def unit(y):
    """as the operand of a repetition"""
    return {"k": "grp", "x": y} if y["k"] in ("cat", "rep", "bol", "eol", "bot", "eot", "wb", "nwb") or (y["k"] == "fl" and y["bare"]) else y


def tree(r, d, top=True):
    x = r.random()
    if top and d > 0 and r.random() < .12:
        return flags(r, tree(r, d, False), True)
    if d == 0 or x < .3:
        return atom(r)
    if x < .6:
        return {"k": "cat", "l": [tree(r, d - 1, False) for _ in range(r.randint(1, 4))]}
    if x < .75:
        return {"k": "alt", "l": [tree(r, d - 1, False) for _ in range(r.randint(1, 3))]}
    if x < .83:
        y = tree(r, d - 1, False)
        return {"k": "grp", "x": flags(r, y, True) if r.random() < .15 else y}
    if x < .84:
        return {"k": "named", "x": tree(r, d - 1, False)}
    if x < .87:
        return flags(r, tree(r, d - 1, False), False)
    a, b = r.choice([(0, -1), (1, -1), (0, 1), (2, 2), (1, 3), (0, 2), (2, -1), (3, 3)])
    return {"k": "rep", "x": unit(tree(r, d - 1, False)), "min": a, "max": b, "lazy": r.random() < .2}


def idiom(r):
    """The shapes rules are written in, and that an implementation may be tempted to treat by themselves."""
    def lits(n):
        return [{"k": "lit", "c": ch(r)} for _ in range(n)]
    x = lits(r.choice([1, 1, 2, 3]))
    if r.random() < .2:
        x = [{"k": "alt", "l": [{"k": "cat", "l": lits(r.choice([1, 2]))} for _ in range(r.choice([2, 3]))]}]
    elif r.random() < .2:
        x = [{"k": "grp", "x": {"k": "cat", "l": x}}]
    dots = lambda: {"k": "rep", "x": r.choice([{"k": "any"}, {"k": "any"}, {"k": "cls", "n": r.choice("sSwD")}, {"k": "set", "neg": True, "items": [[97, 97]]}]),
                    "min": r.choice([0, 0, 1]), "max": -1, "lazy": r.random() < .3}
    l = r.choice([[], [], [{"k": r.choice(["bol", "bot"])}]]) + ([dots()] if r.random() < .6 else []) + x
    if r.random() < .3:
        l += [dots()] + lits(1)
    l += ([dots()] if r.random() < .4 else []) + r.choice([[], [], [{"k": r.choice(["eol", "eot"])}]])
    t = {"k": "cat", "l": l}
    if r.random() < .15:
        t = {"k": "alt", "l": [t, {"k": "cat", "l": lits(2)}]}
    return flags(r, t, True) if r.random() < .25 else t


def idiom_text(r, a):
    """Around something that may match: what tells first, last and everywhere apart, over several lines."""
    s = member(r, a)
    for _ in range(r.randint(1, 3)):
        e = r.choice([[10], [10], [13, 10], enc(ch(r)), enc(ch(r)) + [10], [10] + enc(ch(r)), member(r, a)])
        i = r.choice([0, len(s), r.randint(0, len(s))])
        s = s[:i] + e + s[i:]
    return s[:40]


META = set(b"$()*+.?[\\]^{|}")


def enc(c):
    return list(chr(c).encode("utf-8"))


def render(a):
    k = a["k"]
    if k == "lit":
        return [92, a["c"]] if a["c"] in META else enc(a["c"])
    if k == "any":
        return [46]
    if k == "cls":
        return [92, ord(a["n"])]
    if k == "set":
        def sc(c):
            return [92, c] if c in (91, 92, 93, 94, 45) else enc(c)
        s = [91] + ([94] if a["neg"] else [])
        for lo, hi in a["items"]:
            s += sc(lo) + ([45] + sc(hi) if hi != lo else [])
        for n in a.get("cl", []):
            s += [92, ord(n)]
        return s + [93]
    if k == "hex":
        return list(b"\\x{%x}" % a["c"])
    if k == "named":
        return list(b"(?P<n>") + render(a["x"]) + [41]
    if k == "fl":
        s = list(("(?" + "".join(a["on"]) + ("-" + "".join(a["off"]) if a["off"] else "")).encode())
        return s + ([41] + render(a["x"]) if a["bare"] else [58] + render(a["x"]) + [41])
    if k == "cat":
        return sum((render(x) for x in a["l"]), [])
    if k == "alt":
        s = list(b"(?:")
        for i, x in enumerate(a["l"]):
            s += ([124] if i else []) + render(x)
        return s + [41]
    if k == "grp":
        return [40] + render(a["x"]) + [41]
    if k == "rep":
        m, n = a["min"], a["max"]
        q = {(0, -1): "*", (1, -1): "+", (0, 1): "?"}.get((m, n)) or ("{%d,}" % m if n < 0 else "{%d}" % m if m == n else "{%d,%d}" % (m, n))
        return render(a["x"]) + list(q.encode()) + ([63] if a["lazy"] else [])
    return {"bol": [94], "eol": [36], "wb": [92, 98], "nwb": [92, 66], "bot": [92, 65], "eot": [92, 122]}[k]


def member(r, a, d=0):
    """Some text that the tree probably matches, so that hits are not rare."""
    k = a["k"]
    if k in ("lit", "hex"):
        return enc(a["c"])
    if k == "any":
        return enc(ch(r))
    if k == "fl":
        s = member(r, a["x"])
        if "i" in a["on"]:
            s = other_case(r, s)
        return s
    if k == "cls":
        return [r.choice({"d": [48, 57], "w": [97, 95, 48], "s": [32, 9], "D": [97, 32], "W": [32, 45], "S": [97, 48]}[a["n"]])]
    if k == "set":
        lo, hi = r.choice(a["items"])
        return enc(r.randint(lo, hi)) if not a["neg"] else enc(ch(r))
    if k == "cat":
        return sum((member(r, x) for x in a["l"]), [])
    if k == "alt":
        return member(r, r.choice(a["l"]))
    if k in ("grp", "named"):
        return member(r, a["x"])
    if k == "rep":
        n = a["min"] + r.randint(0, 2) if a["max"] < 0 else r.randint(a["min"], a["max"])
        return sum((member(r, a["x"]) for _ in range(n)), [])
    return []


FOLDS = {107: [75, 0x212a], 115: [83, 0x17f], 75: [107, 0x212a], 83: [115, 0x17f], 0xe9: [0xc9], 0xc9: [0xe9], 0xe5: [0xc5, 0x212b], 0xdf: [0x1e9e],
         0xff: [0x178], 0xb5: [0x3bc, 0x39c]}


def other_case(r, s):
    res = []
    for c in bytes(s).decode("utf-8", "ignore"):
        o = ord(c)
        if r.random() < .5:
            o = r.choice(FOLDS[o]) if o in FOLDS else o ^ 32 if c.isascii() and c.isalpha() else o
        res += enc(o)
    return res


def rx_text(r, a):
    s = member(r, a)
    x = r.random()
    if x < .5:
        s = r.choice([[], enc(ch(r)), enc(ch(r)) * 2]) + s + r.choice([[], enc(ch(r)), [10]])
    if x > .6 and s:
        i = r.randrange(len(s))
        s = s[:i] + r.choice([[], enc(ch(r)), [s[i] ^ 32], [255]]) + s[i + 1:]
    if x > .9:
        s = sum((enc(ch(r)) for _ in range(r.randint(0, 5))), [])
    return s[:40]


BADRX = ["(", ")", "[a", "a**", "*a", "a{2,1}", "\\", "(?P<n", "[z-a]", "a(?!b)", "(a", "a)", "x{1001}", "(?<=a)b", "\\1", "[[:foo:]]", "+", "?", "(?z)"]


def inert(a, z, f=frozenset()):
    k = a["k"]
    if k in ("cat", "alt"):
        return all(inert(x, z, f) for x in a["l"])
    if k in ("grp", "rep", "named"):
        return inert(a["x"], z, f)
    if k == "fl":
        return inert(a["x"], z, (f - set(a["off"])) | set(a["on"]))
    same = {z, z ^ 32} if "i" in f and z < 128 and chr(z).isalpha() else {z}

    def cls(n):
        hit = any({"d": w.isdigit(), "w": w.isalnum() or w == "_", "s": w in " \t\n\r\f"}[n.lower()] for w in map(chr, same))
        return hit != n.isupper()
    if k in ("lit", "hex"):
        return a["c"] not in same | ({0x212a} if 107 in same and "i" in f else set()) | ({0x17f} if 115 in same and "i" in f else set())
    if k == "any":
        return z == 10 and "s" not in f
    if k == "cls":
        return not cls(a["n"])
    if k == "set":
        hit = any(lo <= w <= hi for lo, hi in a["items"] for w in same) or any(cls(n) for n in a.get("cl", []))
        if "i" in f and same & {107, 115}:
            return False
        return hit == a["neg"]
    return True


def rx_batch(r, n):
    res = []
    while len(res) < n:
        if r.random() < .04:
            s = r.choice(BADRX)
            res.append({"t": "badrx", "fn": "rx", "arg": b8(s), "in": b8("a"), "via": r.choice(["", "seclang"])})
        else:
            plain = r.random() < .75
            a = tree(r, 3) if plain else idiom(r)
            if a["k"] == "lit" and r.random() < .8:
                continue
            arg = render(a)
            if len(arg) > 60:
                continue
            for _ in range(3):
                res.append({"t": "rx", "fn": "rx", "re": a, "arg": arg, "in": rx_text(r, a) if plain or r.random() < .3 else idiom_text(r, a), "via": r.choice(["", "", "seclang"])})
            zs = [z for z in (126, 10, 81, 90, 35) if inert(a, z)]
            if zs and r.random() < .04:
                res[-1]["in"], res[-1]["pump"] = pumped(r, res[-1]["in"], r.choice(zs))
        s = res[-1]
    for i, s in enumerate(res):
        s["sid"] = i + 1
        bs = bytes(s["arg"])
        if s["via"] and (bs != bs.strip() or not bs or b"\n" in bs or b"\r" in bs or bs[:1] in b"@!"):
            s["via"] = ""
    return res
