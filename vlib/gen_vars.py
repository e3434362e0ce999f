"""Random transactions whose variables are read at random moments (C12-C15)."""
from . import gen_fn

COLL = ["ARGS_GET", "ARGS_GET_NAMES", "ARGS_POST", "ARGS_POST_NAMES", "ARGS", "ARGS_NAMES", "REQUEST_HEADERS", "REQUEST_HEADERS_NAMES",
        "REQUEST_COOKIES", "REQUEST_COOKIES_NAMES", "RESPONSE_HEADERS", "RESPONSE_HEADERS_NAMES"]
BODY = ["ARGS", "ARGS_NAMES", "ARGS_POST", "ARGS_POST_NAMES", "REQUEST_BODY"]
SCALAR = ["REMOTE_ADDR", "REQUEST_METHOD", "REQUEST_PROTOCOL", "REQUEST_URI", "REQUEST_FILENAME", "REQUEST_BASENAME", "QUERY_STRING", "REQUEST_BODY",
          "RESPONSE_BODY", "RESPONSE_STATUS", "RESPONSE_PROTOCOL", "RESPONSE_CONTENT_LENGTH", "RESPONSE_CONTENT_TYPE"]
EDGES = ["\n", "\r\n", " ", "\t", "\r", "\n\n", "\x00", "\xef\xbb\xbf", "?", "&&", "\r\n\r\n"]
NAMES = ["a", "b", "ab", "A", "aa", "id", "a.b", "a[]", "", "user", "x[1]", "a b", "ba", "q"]


def b(s):
    return list(s.encode("latin-1"))


def pct(r, s):
    """Writes some bytes of s as escapes."""
    res = []
    for c in s:
        if c in b("%&=;+#? ") or c > 126 or c < 33 or r.random() < .08:
            if c == 32 and r.random() < .6:
                res.append(43)
            else:
                res += b("%%%02x" % c if r.random() < .5 else "%%%02X" % c)
        else:
            res.append(c)
    return res


def value(r):
    x = r.random()
    if x < .15:
        return []
    if x < .6:
        return b(r.choice(["1", "2", "foo", "bar", "x y", "a=b", "a&b", "100%", "<s>", "\xe9", "../etc", "1", "A"]))
    return [r.randint(0, 255) for _ in range(r.randint(1, 6))]


def form(r, n=None, bad=.25):
    """An urlencoded text, sometimes with pieces that are no pairs."""
    ps = []
    for _ in range(r.randint(0, 6) if n is None else n):
        x = r.random()
        if x < bad:
            ps.append(r.choice([b(""), b("%zz=1"), b("a=%4"), b("a;b=1"), b("%"), b("a=1;b=2"), b("b=%g1"), b("%61%=2")]))
        elif x < bad + .1:
            ps.append(r.choice([b("a"), b("="), b("=1"), b("a="), b("a==1"), b("a=b=c"), b("+=+"), b("%00=%00"), b("%26=%3d")]))
        else:
            ps.append(pct(r, b(r.choice(NAMES))) + [61] + pct(r, value(r)))
    s = []
    for i, p in enumerate(ps):
        s += ([38] if i else []) + p
    if r.random() < .1:
        s += [38]
    # what is easily taken for surroundings of the text belongs to its first name or last value
    if r.random() < .08:
        s = b(r.choice(EDGES)) + s
    if r.random() < .12:
        s += b(r.choice(EDGES))
    return s


def sel(r, names):
    if r.random() < .65:
        s = r.choice(names)
        if len(s) > 1 and s[0] == 47 and s[-1] == 47:
            s = b("a")
        return {"re": False, "s": s, "tree": {"k": "any"}}
    while True:
        x = r.random()
        if x < .5:
            n = [c for c in r.choice(names) if c < 128][:3]
            t = {"k": "cat", "l": ([{"k": "bol"}] if r.random() < .6 else []) + [{"k": "lit", "c": c} for c in n] + ([{"k": "eol"}] if r.random() < .5 else [])}
        else:
            t = gen_fn.tree(r, 2)
        s = gen_fn.render(t)
        if len(s) < 40:
            return {"re": True, "s": [47] + s + [47], "tree": t}


def var(r, vs, names, sels=.5, count=.2):
    v = r.choice(vs)
    w = {"v": v, "count": v in COLL and r.random() < count, "inc": [], "exc": []}
    if v in COLL and r.random() < sels:
        w["inc"] = [sel(r, names) for _ in range(r.choice([0, 1, 1, 2, 3]))]
        w["exc"] = [sel(r, names) for _ in range(r.choice([0, 0, 1, 1, 2]))]
    return w


PATHCH = "abAZ09-_.~!$&'()*+,;=:@"


def url(r, method=None, post=.5):
    segs = []
    for _ in range(r.randint(0, 4)):
        seg = ""
        for _ in range(r.choice([0, 1, 2, 3, 5])):
            seg += r.choice(PATHCH) if r.random() < .85 else r.choice(["%20", "%2f", "%2F", "%c3%a9", "%41", "%5c", "%25", "%3f", "%00"])
        segs.append(seg)
    path = "/" + "/".join(segs)
    if r.random() < .15:
        path += r.choice(["/", "//", "///", "%5c", "/%5c", "%2f/"])
    pre = r.choice(["", "", "", "http://h.example", "https://u:p@h.example:8443", "HTTP://[::1]:80"])
    while not pre and path.startswith("//"):
        path = path[1:]
    if pre and r.random() < .1:
        path = ""
    if not pre and r.random() < .05:  # as OPTIONS * has it, or relative
        if r.random() < .3:
            pre, path = r.choice(["mailto:a", "http:a", "x:a:b", "h.example:443"]), ""
        else:
            path = r.choice(["*", "a", "ab", "a/b", "abc.php", "a/", "%5cx", "x%5c", "%2f", "a//"])
    hasf = r.random() < .15
    return {"pre": b(pre), "path": b(path), "hasq": r.random() < .75, "query": [c for c in form(r) if 32 < c < 127 and c != 35],
            "hasf": hasf, "frag": b(r.choice(["f", "top/1", "a%20b"])), "proto": b(r.choice(["HTTP/1.0", "HTTP/1.1", "1.1", ""])),
            "method": b(method or (r.choice(["POST", "PUT", "PATCH"]) if r.random() < post else r.choice(["GET", "HEAD", "DELETE", "post", "OPTIONS"])))}


MEANING = [(k, v) for k, vs in {
    "X-Forwarded-For": ["8.8.8.8", "127.0.0.1, 9.9.9.9", "unknown"], "X-Real-Ip": ["8.8.8.8"], "Forwarded": ["for=8.8.8.8"], "Client-Ip": ["8.8.8.8"], "True-Client-Ip": ["::2"],
    "X-Forwarded-Proto": ["https"], "X-Forwarded-Host": ["other.example"], "X-Forwarded-Prefix": ["/pre"], "X-Original-Url": ["/other?o=1"], "X-Rewrite-Url": ["/other?o=1"],
    "X-Http-Method-Override": ["PUT", "DELETE", "GET"], "X-Method-Override": ["PUT"], "X-Http-Method": ["PATCH"],
    "Content-Encoding": ["gzip", "identity", "deflate", "br"], "Transfer-Encoding": ["chunked", "identity", "gzip, chunked"], "Content-Transfer-Encoding": ["base64", "quoted-printable"],
    "Expect": ["100-continue"], "Range": ["bytes=0-1"], "Content-Range": ["bytes 0-1/5"], "Authorization": ["Basic YTpi", "Bearer x"], "Connection": ["close", "upgrade", "Keep-Alive"],
    "Upgrade": ["h2c", "websocket"], "Te": ["trailers"], "Trailer": ["X-A"], "Referer": ["http://h.example/?a=1"], "Origin": ["null"], "Accept-Encoding": ["gzip"], "Accept-Language": ["de"],
    "Content-Location": ["/l"], "Location": ["/l?a=1"], "Set-Cookie": ["a=1; Path=/", "sid=x"], "Cookie2": ["$Version=1"], "Content-Disposition": ["attachment; filename=a"],
    "Content-Language": ["en"], "Content-Md5": ["x"], "Status": ["404 Not Found"], "Server": ["x/1"], "X-Requested-With": ["XMLHttpRequest"], "Via": ["1.1 p"], "X-Content-Type": ["text/html"],
    "Content-Type-Override": ["text/html"], "X-Bypass": ["1"], "X-Scanner": ["1"], "Sec-Fetch-Site": ["none"], "Dnt": ["1"], "X-Waf": ["off"], "X-Debug": ["1"]}.items() for v in vs]


def header(r, ct=None, resp=False, size=0):
    h = {}
    for _ in range(r.randint(0, 4)):
        n = r.choice(["Host", "User-Agent", "X-A", "X-B", "X-Ab", "Accept", "x-a", "X_1"])
        if r.random() < .25:  # what other software acts upon: here it is text
            n, v = r.choice(MEANING)
            h[n] = [b(v)]
            continue
        h[n] = [b(r.choice(["", "1", "v", "a b", "x,y", "\xff", "curl/7", "zz"])) for _ in range(r.choice([1, 1, 2, 3]))]
    if resp and r.random() < .5:
        h["Content-Length"] = [b(r.choice(["0", "12", "99999", "", "x"]))] + ([b("3")] if r.random() < .2 else [])
    if not resp and r.random() < .15:
        h["Content-Length"] = [b(str(max(0, r.choice([0, 1, 3, size // 2, size - 1, size, size + 1, 10 * size + 7]))))]
    if not resp and r.random() < .6:
        h["Cookie"] = [b(r.choice(["", ";", " ", "a=1", "a=1; b=2", "a=1;a=2", " a=1 ;b ; c=", "a=b=c; ;d", "=x", "x y=1 2", "A=1; a=3", "ab=%20;", "a= 1 ; b"]))
                       for _ in range(r.choice([1, 1, 2, 3]))]
    if ct is not None and ct != "":
        h["Content-Type"] = [b(ct)] + ([b("text/x")] if r.random() < .1 else [])
    k = list(h)
    r.shuffle(k)
    return [{"n": b(n), "vs": h[n]} for n in k]


URLENC = ["application/x-www-form-urlencoded"] * 5 + ["application/x-www-form-urlencoded; charset=utf-8", "Application/X-WWW-Form-Urlencoded", "application/x-www-form-urlencoded; charset=iso-8859-1", "application/x-www-form-urlencoded; charset=UTF-16", "application/x-www-form-urlencoded;charset=windows-1252", "application/x-www-form-urlencoded; charset=ISO-8859-1", "application/x-www-form-urlencoded; charset=utf-8; x=1",
          " application/x-www-form-urlencoded ", "application/x-www-form-urlencoded ;charset=x",
          "application/x-www-form-urlencoded; charset", "application/x-www-form-urlencoded;", "application/x-www-form-urlencoded; a=1; a=2", "application/x-www-form-urlencoded; ;",
          "application/x-www-form-urlencoded; charset=\"utf-8", "application/x-www-form-urlencoded;boundary=x", "application/x-www-form-urlencoded; =", "APPLICATION/X-WWW-FORM-URLENCODED;x=\x00"]
OTHER = ["", "text/plain", "application/json", "application/octet-stream", "text/html; charset=utf-8", "application/xml", "application/x-www-form", "x", "text/", "form-urlencoded; application/x-www-form-urlencoded",
         "text/plain; a=application/x-www-form-urlencoded", "text/plain;multipart/form-data", "application/x-www-form-urlencode", "pplication/x-www-form-urlencoded",
         "application/x-www-form_urlencoded", "multipart", "multipart; boundary=b", "x-multipart/form-data; boundary=b", "application/multipart/form-data", "application; /x-www-form-urlencoded"]


def multipart(r, big=False):
    bd = r.choice(["xYz", "b", "----WebKitFormBoundary7", "a-b-c", "0"])
    parts = []
    for _ in range(r.randint(0, 5)):
        k = r.randint(0, 60 if big and r.random() < .5 else 12)
        v = bytes(r.choice([13, 10, 45, 97, 98, 0, 255, 61, 38, 37, 32]) if r.random() < .5 else r.randint(0, 255) for _ in range(k))
        while b"--" + bd.encode() in v or (len(bd) == 1 and b"--" in v):
            v = v.replace(b"-", b"+")
        parts.append({"n": b(r.choice([n for n in NAMES if n])), "f": r.random() < .25, "v": list(v)})
    pre = r.choice(["", "", "", "preamble\r\n", "\r\n", "This is\r\nignored\r\n"])
    return {"pre": b(pre), "parts": parts, "bd": b(bd), "epi": b(r.choice(["", "", "epilogue", "\r\nx\r\n"]))}


def mtext(m):
    s = list(m["pre"])
    for p in m["parts"]:
        s += b("--") + m["bd"] + b('\r\nContent-Disposition: form-data; name="') + p["n"] + b('"')
        if p["f"]:
            s += b('; filename="up.bin"\r\nContent-Type: application/x-thing')
        s += b("\r\n\r\n") + p["v"] + b("\r\n")
    return s + b("--") + m["bd"] + b("--\r\n") + m["epi"]


def chunks(r, s):
    if r.random() < .4:
        return [s]
    k = r.randint(1, 4)
    cuts = sorted(r.randint(0, len(s)) for _ in range(k))
    if r.random() < (.1 if len(s) < 30 else .03):
        cuts = list(range(len(s)))
    res, p = [], 0
    for c in cuts + [len(s)]:
        res.append(s[p:c])
        p = c
    return res


NOMP = {"pre": [], "parts": [], "bd": b("none"), "epi": []}


QQ = [81, 81]


def put(r, s):
    """A run that the harness makes long (gen_fn.pumped), somewhere in s but not inside an escape."""
    at = [i for i in range(len(s) + 1) if 37 not in s[max(0, i - 2):i] and 81 not in s]
    if at:
        i = r.choice(at)
        s[i:i] = QQ * r.choice([1, 1, 2])


def long_parts(r, s, ops):
    """Makes some parts of the scenario long; what the specification cannot tell for long texts is taken out."""
    for w in s["vars"]:
        w["inc"] = [x for x in w["inc"] if not x["re"]]
        w["exc"] = [x for x in w["exc"] if not x["re"]]
        for x in w["inc"] + w["exc"]:
            if r.random() < .2:
                x["s"] = x["s"] + QQ
    for o in ops:
        x = o.get("x", {})
        for h in x.get("h", []):
            if h["n"] != b("Content-Type") and r.random() < .5:
                put(r, r.choice(h["vs"]))
        for k in ("path", "query", "proto"):
            if k in x and o["o"] == "url" and r.random() < .5 and (k != "path" or x[k]):
                if k == "path":
                    x[k] += QQ
                else:
                    put(r, x[k])
    s["pump"] = {"c": 81, "n": r.choice(gen_fn.SIZES) if r.random() < .95 else 1200000, "lim": False}


def scenario(r, sid, prof):
    long = r.random() < .03
    s = {"sid": sid, "reqacc": r.random() < .9, "resacc": r.random() < .8, "memlim": 100000, "reqlim": 200000, "reslim": 1000, "mp": NOMP, "wf": False}
    kind = r.choice({"C12": ["form"] * 4 + ["other", "empty", "multi"], "C13": ["form"] * 3 + ["multi"] * 4, "C14": ["form", "form", "multi", "empty"],
                     "C15": ["form", "multi", "other", "empty", "empty"]}[prof])
    body, ct = [], r.choice(OTHER)
    if kind == "form":
        body, ct = form(r), r.choice(URLENC)
        if long:
            if prof == "C12":
                body = QQ + body
            else:
                put(r, body)
    elif kind == "multi":
        m = multipart(r, big=prof == "C13")
        for p in m["parts"] if long else []:
            if r.random() < .4:
                p["v"] = p["v"] + QQ
            if r.random() < .2:
                p["n"] = p["n"] + QQ
        body = mtext(m)
        bds = bytes(m["bd"]).decode()
        ct = r.choice(["multipart/form-data; boundary=" + bds, 'multipart/form-data; boundary="%s"' % bds, "Multipart/Form-Data; charset=utf-8; boundary=" + bds])
        s["mp"], s["wf"] = m, True
        x = r.random()
        if x < .35:  # malformed
            s["wf"] = False
            if x < .05:  # of another type
                ct = r.choice(["multipart; boundary=", "x-multipart/form-data; boundary=", "text/plain; boundary=", "application/multipart/form-data; boundary=", "multipar/form-data; boundary="]) + bds
            elif x < .2:
                body = body[:r.randint(0, len(body))]
            elif x < .3 and body:
                i = r.randrange(len(body))
                body = body[:i] + [r.randint(0, 255)] + body[i + 1:]
            else:
                ct = "multipart/form-data"
                s["mp"] = NOMP
        if body == mtext(m) and s["mp"] is m:
            s["wf"] = True
    elif kind == "other":
        body = form(r)
    if prof == "C12":
        n = len(body)
        s["memlim"] = max(0, r.choice([0, 1, n - 1, n, n + 1, n // 2, 1000]))
        s["reqlim"] = max(0, r.choice([n - 1, n, n + 1, 2000, 2000, 2000, s["memlim"]]))
        s["reslim"] = r.choice([0, 3, 5, 100])
        s["wf"] = False
        s["reqacc"] = r.random() < .8
    elif prof == "C13" and r.random() < .3:
        s["memlim"] = r.choice([0, 1, max(0, len(body) - 1), 10])  # multipart is read from disk as well
    names = [b(n) for n in NAMES]
    if prof in ("C14", "C15"):
        names += [b(n) for n in ["Host", "X-A", "X-B", "Content-Type", "x-a", "Cookie", ""]]
    vs = {"C12": BODY + ["RESPONSE_BODY"], "C13": BODY, "C14": COLL, "C15": SCALAR + COLL}[prof]
    s["vars"] = [var(r, vs, names, .8 if prof == "C14" else .2 if prof == "C13" else .1) for _ in range(r.randint(2, 7))]
    method = None
    u = url(r, post=.9 if prof in ("C12", "C13") else .7)
    ops = []

    def x(o, **k):
        k["o"] = o
        ops.append(k)

    x("conn", x={"ip": b(r.choice(["127.0.0.1", "10.1.2.3", "::1", "2001:db8::1"]))})
    x("url", x=u)
    x("reqh", x={"h": header(r, ct, size=len(body))})
    if long and prof == "C12" and kind != "form":
        long = False
    cs = chunks(r, body)
    if long and prof == "C12":  # the first write takes the long run as a whole
        cs = [c for c in cs if c]
        while len(cs) > 1 and len(cs[0]) < 3:
            cs[:2] = [cs[0] + cs[1]]
    for c in cs:
        x("append", p=c)
    nreq = len(ops)
    h = header(r, r.choice(["", "text/html", "text/html; charset=utf-8", "Image/PNG", "application/json;a=b", "Text/Html; charset", "text/css; a=1; a=2", "x; ;"]), True)
    x("resh", x={"code": r.choice([200, 404, 500, 0, 100, 302]), "proto": b(r.choice(["HTTP/1.1", "HTTP/2"])), "h": h})
    for c in chunks(r, b(r.choice(["", "ok", "hello world", "abcdef"]))) if r.random() < .7 else []:
        x("rappend", p=c)
    if prof == "C15":
        x2 = r.random()
        if x2 < .3:
            r.shuffle(ops)
        ops = [o for o in ops if r.random() < .9]
        if r.random() < .2:
            ops.insert(r.randint(0, len(ops)), {"o": r.choice(["reqh"]), "x": {"h": []}, "nil": True})
        if r.random() < .2:
            ops.insert(r.randint(0, len(ops)), {"o": "url", "x": url(r)})
        if r.random() < .2:
            ops.insert(r.randint(0, len(ops)), {"o": "resh", "x": {"code": r.choice([201, 403]), "proto": b("X"), "h": header(r, "text/css", True)}})
        s["wf"] = False
    if long:
        if prof == "C12":
            for w in s["vars"]:
                w["inc"] = [y for y in w["inc"] if not y["re"]]
                w["exc"] = [y for y in w["exc"] if not y["re"]]
            s["reqlim"] = max(s["reqlim"], len(cs[0]))  # the write with the long run is taken
            s["pump"] = {"c": 81, "n": r.choice(gen_fn.SIZES), "lim": True}
        else:
            s["memlim"], s["reqlim"], s["reslim"] = 100000, 200000, 1000
            long_parts(r, s, ops)
    # reads
    n = r.randint(2, 9)
    late = nreq if prof in ("C13", "C14") and r.random() < .85 else 0
    for _ in range(n):
        ops.insert(r.randint(min(late, len(ops)), len(ops)), {"o": "fetch", "i": r.randint(1, len(s["vars"]))})
    if not long and r.random() < (.5 if prof == "C13" else .15):
        for _ in range(r.randint(1, 3)):
            at = r.randint(max([i + 1 for i, o in enumerate(ops) if o["o"] == "append"], default=0), len(ops))
            if r.random() < .5:
                ops.insert(at, {"o": "rawread", "n": r.choice([0, 1, 3, 10, 1000])})
            else:
                ops.insert(at, {"o": "rawseek", "off": r.choice([0, 1, 2, -1, 5]), "wh": r.choice([0, 1, 2])})
    if r.random() < .12:  # body access is switched on the way
        for _ in range(r.randint(1, 3)):
            ops.insert(r.randint(0, len(ops)), {"o": "acc", "a": {"req": r.random() < .6, "res": r.random() < .6}})
    if late == 0:
        s["wf"] = False  # a body variable may have been read before all of the body was there
    s["ops"] = ops
    return s


def batch(r, n, prof):
    return [scenario(r, i + 1, prof) for i in range(n)]


def many(r, n):
    """One piece of a query, body or header, many times."""
    res = []
    for i in range(n):
        s = {"sid": i + 1, "where": "multi" if i < 3 else r.choice(["get", "post", "get", "post", "multi", "cookie", "cookies", "reqh", "resh"]),
             "piece": [], "parts": [], "h": [], "times": r.choice([1, 5, 100, 1000, 3333, 9999, 10000, 10001, 30000]), "chunk": r.choice([1000, 1 << 20]), "num": False, "v": "", "end": [],
             "ge": sorted(r.sample([1, 2, 3, 10, 64, 100, 128, 255, 256, 257, 512, 999, 1000, 1001, 1024, 2000, 4096, 5000, 9999, 10000, 10001, 16384, 20000, 30000, 32768, 60000, 65536, 100000], 10))}
        if s["where"] in ("get", "post"):
            while not s["piece"] or 59 in s["piece"]:
                s["piece"] = form(r, r.randint(1, 3), .1)
            s["piece"] = [c for c in s["piece"] if 32 < c < 127 and c != 35] + [38]
            s["num"] = r.random() < .4
            s["v"] = r.choice(["", {"get": "ARGS_GET", "post": "ARGS_POST"}[s["where"]]])
        elif s["where"] == "multi":
            while not s["parts"]:
                s["parts"] = [p for p in multipart(r)["parts"] if b("--b") not in [p["v"][k:k + 3] for k in range(len(p["v"]))]][:3]
            s["piece"] = mtext({"pre": [], "parts": s["parts"], "bd": b("b"), "epi": []})[:-7]
            s["v"] = r.choice(["", "ARGS_POST"])
            s["times"] = r.choice([1, 5, 100, 330, 500, 999, 1000, 1001, 3000]) // len(s["parts"]) or 1
            if i < 3:
                s["times"] = (1000 + [0, len(s["parts"]), 2000][i]) // len(s["parts"])
        elif s["where"] in ("cookie", "cookies"):
            s["piece"] = b(r.choice(["a=1; b=2;", "a=1;a=2;", " a=1 ;b ; c=;", "a=b=c; ;d;", "=x;", "x y=1 2;", "A=1; a=3;", "ab=%20;"]))
        else:
            h = header(r, resp=s["where"] == "resh")
            s["h"] = [{"n": b("X-Q"), "vs": [b("v"), b("w")][:r.randint(1, 2)]}] + [x for x in h if x["n"] != b("Content-Type")]
        if r.random() < .6:
            s["end"] = {"get": b("zzlast=zzfinal"), "post": b("zzlast=zzfinal"), "cookie": b(" zzlast=zzfinal"),
                        "multi": b('--b\r\nContent-Disposition: form-data; name="zzlast"\r\n\r\nzzfinal\r\n')}.get(s["where"], [])
        if s["where"] != "multi" and r.random() < .5:  # right at what it has
            s["ge"] = sorted(set(s["ge"] + [s["times"], s["times"] + 1, 2 * s["times"], 2 * s["times"] + 1]))
        res.append(s)
    return res
