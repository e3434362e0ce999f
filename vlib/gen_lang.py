"""Random SecLang texts: well-formed rules in every layout, and slips of every kind (C20-C22)."""
from . import gen_fn, gen_vars
from .gen_vars import b

VARS = gen_vars.COLL + gen_vars.SCALAR
COLL = gen_vars.COLL
NAMES = ["a", "ab", "b", "user", "X-A", "x.y", "Host", "zz", "A", "a b", "/", "//", "a:b", "Content-Type"]
TRANS = ["lowercase", "urlDecode", "urlDecodeUni", "none", "compressWhitespace", "removeWhitespace", "replaceNulls", "removeNulls"]


def hs(d):
    return [{"n": b(n), "vs": [b(v) for v in vs]} for n, vs in d]


PROBE = {
    "ip": b("10.1.2.3"),
    "url": {"pre": [], "path": b("/dir/pa%20ge.php"), "hasq": True, "query": b("a=g1&ab=g2&a=g3&b=g4&user=g5&x.y=g6&%2f=g7"), "hasf": False, "frag": [],
            "method": b("POST"), "proto": b("HTTP/1.1")},
    "reqh": hs([("Host", ["h1"]), ("User-Agent", ["curl"]), ("X-A", ["v1", "v2"]), ("A", ["v3"]), ("a", ["v4"]), ("a:b", ["v5"]),
                ("Cookie", ["a=c1; ab=c2; b=c3; user=c4", "a=c5; A=c6; a b=c7; x.y=c8; zz=c9; zz=c10; zz=c11"]), ("Content-Type", ["application/x-www-form-urlencoded"]),
                ("b", ["v6"]), ("ab", ["v7"])]),
    "body": b("a=p1&b=p2&user=p3&zz=p4&a=p5"),
    "resh": {"code": 404, "proto": b("HTTP/2"), "h": hs([("Content-Type", ["text/html"]), ("Content-Length", ["17"]), ("X-A", ["r1"]), ("X-B", ["r2", "r3"]), ("a", ["r4"])])},
    "resbody": b("hello"),
}
# what transformations and operators are tried on
PROBES = [b(""), b("A%41+ \x00\x00 \t%u0042b"), b("1"), b("-7"), b("12 "), b("abc"), b("ABC xyz\n")]


class Rxs:
    """The expressions of a scenario, so that the specification knows what they mean."""
    def __init__(self, r):
        self.r, self.d = r, {}

    def get(self, bad=.03, forbid=b""):
        r = self.r
        if r.random() < bad:
            s = b(r.choice(gen_fn.BADRX))
            self.d[bytes(s)] = {"s": s, "ok": False, "tree": {"k": "any"}}
            return s
        x = r.random()
        if x < .3:
            return b(r.choice(["abc", "a", "b", "xyz", "c", "1", "cmd", "A B"]))
        while True:
            if x < .6:
                t = {"k": "cat", "l": ([{"k": "bol"}] if r.random() < .6 else []) + [{"k": "lit", "c": c} for c in b(r.choice(["a", "ab", "b", "us", "X-", "c"]))]
                     + ([{"k": "eol"}] if r.random() < .4 else [])}
            else:
                t = gen_fn.tree(r, 2)
            s = gen_fn.render(t)
            if len(s) < 40 and not any(c in s for c in forbid):
                self.d[bytes(s)] = {"s": s, "ok": True, "tree": t}
                return s

    def list(self):
        return list(self.d.values())


def quoted(r, s, q):
    res = [q]
    for c in s:
        if c == q or c == 92:
            res += [92, c]
        elif c == 10:
            res += r.choice([b("\\n"), b("\\\n"), b("\\\r\n"), b("\\\r")])
        elif c == 13:
            res += b("\\r")
        elif c == 9 and r.random() < .5:
            res += b("\\t")
        elif r.random() < .02 and c not in b("abfnrtv"):
            res += [92, c]
        else:
            res.append(c)
    return res + [q]


def bare(r, s):
    res = []
    for i, c in enumerate(s):
        if c == 92 or c in b(" \t\v\f") or (i == 0 and c in b("\"'")):
            res += [92, c]
        elif c in (10, 13):
            res += b("\\n" if c == 10 else "\\r")
        else:
            res.append(c)
    return res


def arg(r, s):
    x = r.random()
    if x < .2 and s:
        return bare(r, s), False
    return quoted(r, s, 34 if x < .7 else 39), True


def gap(r, must=True):
    res = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        res += b(r.choice([" ", " ", " ", "\t", "\v", "\f", "\\\n", "\\\r\n", " \\\n   ", "\\\r", "\\\n\r", "\\\n\\\n"]))
    return res if must or r.random() < .9 else []


def word(r, w):
    x = r.random()
    return b(w) if x < .7 else b(w.lower()) if x < .85 else [c ^ 32 if r.random() < .5 else c for c in b(w)]


def render(r, doc, safe=.9):
    """doc: list of (directive, args). Every layout that means the same."""
    t = b(r.choice(["", "", "\n", " ", "\r\n\t", "\x00"]))
    for i, (d, args) in enumerate(doc):
        t += word(r, d)
        closed = False
        for a in args:
            g = gap(r, not closed)
            if not closed and g[0] == 92 and r.random() < safe:
                g = [32] + g  # a backslash directly behind an unquoted argument belongs to it
            t += g
            s, closed = arg(r, a)
            t += s
        if i + 1 < len(doc):
            t += b(r.choice(["\n", "\n", "\n\n", "\r\n", "\r", " \n ", "\n    ", " ", "\t", "\n\x00\n"])) if not closed or r.random() < .95 else []
        else:
            t += b(r.choice(["", "\n", " ", "\r\n", "\x00\n" if closed or r.random() > safe else ""]))
    return t


def dirty(r, t):
    """A slip somewhere in the text."""
    t = list(t)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        x, i = r.random(), r.randint(0, max(0, len(t) - 1))
        if not t:
            return t
        if r.random() < .04:
            t = b("\xef\xbb\xbf") + t
            continue
        if r.random() < .12:  # what other readers take for a comment, or for nothing
            k = r.choice([k + 1 for k, c in enumerate(t) if c in (10, 13)] or [0, len(t)])
            t[k:k] = b(r.choice(["\r", "\n", "", "", "\n ", "\r\r", "\n\r"]) + r.choice(["#", "# a\n", "#", ";", "//", "--", "/*", "\xef\xbb\xbf", "\x85", "\xa0", "\v", "\x1a", "\x00", "<", "#!", "\\"]))
            continue
        if x < .25:
            del t[i]
        elif x < .5:
            t.insert(i, r.choice(b("\"'\\ \n\r\t,|:!&@#\x00a.0;/%") + [0x80, 0xff]))
        elif x < .6:
            t[i] = r.choice(b("\"'\\ \n\r,|:!&@x"))
        elif x < .75:
            t = t[:i]
        elif x < .85:
            j = r.randint(i, min(len(t), i + 10))
            del t[i:j]
        else:
            ks = [k for k, c in enumerate(t) if c in b("\"'\\\n\r,")]
            if ks:
                k = r.choice(ks)
                if r.random() < .6:
                    del t[k]
                else:
                    t.insert(k, t[k])
    return t


# ---- rules

def varpart(r, rx, slip):
    v = r.choice(VARS) if r.random() < .4 else r.choice(COLL)
    s = b(v)
    if r.random() < slip * .5:
        return b(r.choice(["", "", "&"]) + r.choice(NOVARS) + r.choice(["", "", ":a"]))
    if r.random() < slip:
        return r.choice([b("XML"), b("XML:/*"), b(v.lower()), b(v + "S"), b(""), b(" " + v), b(v + " "), b("!" + v), b("&!" + v + ":a"), b("!&" + v + ":a"), b(v + ":"), b(v + "."),
                         b("&" + v + ":"), b(":a"), b(".ARGS"), b("&"), b("!"), b("REMOTE_ADDR:a"), b("!REQUEST_URI:a"), b("ARGS:/(/"), b("!ARGS:/(/"), b("&ARGS:/[/"), b("!REQUEST_HEADERS:/a(/"), b("TX:a"), b("&&ARGS"), b("!!ARGS:a"),
                         b("ARGS::"), b("!ARGS:")])
    pre = ""
    if v in COLL and r.random() < .6:
        x = r.random()
        sel = r.choice(b(":::.")) if True else 0
        name = [47] + rx.get(slip * .5, b(",|")) + [47] if x < .4 else b(r.choice(NAMES))
        s = s + [sel] + name
        pre = r.choice(["", "", "&", "!", "!"])
    else:
        pre = r.choice(["", "", "", "&"])
    return b(pre) + s


def variables(r, rx, slip):
    n = r.choice([1, 1, 2, 2, 3, 4]) if r.random() < .98 else r.choice([9, 17, 30])
    ps = [varpart(r, rx, slip) for _ in range(n)]
    if n > 1 and r.random() < .4:  # several parts for one collection
        v = b(r.choice(COLL))
        ps = []
        for _ in range(n):
            pre, name = r.choice(["", "", "!", "&"]), b(r.choice(NAMES[:6])) if r.random() < .6 else [47] + rx.get(0, b(",|")) + [47]
            ps.append(b(pre) + v + (([58] + name) if pre == "!" or r.random() < .8 else []))
    s = ps[0]
    for p in ps[1:]:
        s = s + b(r.choice("||,")) + p
    return s


def operator(r, rx, slip):
    if r.random() < slip * .5:
        return b(r.choice(["", "!"]) + "@" + r.choice(NOOPS) + r.choice(["", " ", " a", " 1"]))
    if r.random() < slip:
        return b(r.choice(["@", "!", "!@", "@foo a", "@RX a", "@eq", "@eq a", "@gt 1.5", "@lt 0x1", "@ge  ", "@pm a b", "@rx(", "@eq\t1", "@ eq 1", "@le 1 2", "@rx\ta", "!@foo", "@eq 1_0"]))
    x = r.random()
    s = b(r.choice(["", "", "", "!"]))
    if x < .3:
        return s + rx.get(slip)
    if x < .6:
        return s + b("@rx ") + rx.get(slip)
    if x < .65:
        return s + r.choice([b("@rx"), b("@rx "), b("@rx  a"), b(" @rx a"), b(" a"), b("! @rx")])
    return s + b("@" + r.choice(["eq", "ge", "gt", "le", "lt"]) + " " + r.choice(["", "", " "]) + gen_fn.number(r).strip())


TXT = ["", "a", "x y", "it's", 'say "x"', "a,b", "a:b,c", "deny", "',", "','", "1.1", "OWASP_CRS/1", "a, id:9", "%{x}", "\\", "a\nb", "\xe9"]


def action(r, slip):
    if r.random() < slip * .5:
        return b(r.choice(NOACTS) if r.random() < .5 else "t:" + r.choice(NOTRANS))
    if r.random() < slip:
        return b(r.choice(["", "foo", "deny:x", "pass:1", "log:a", "chain:1", "block:x", "id:", "id:x", "id:1.5", "id:99999999999999999999", "phase:0", "phase:6", "phase:x", "phase:",
                           "phase:REQUEST", "t:", "t:foo", "t:LOWERCASE", "t:none:x", "severity:CRITICAL", "severity:9", "severity:", "logdata:x", "setvar:tx.a=1", "capture", "status:", "status:x",
                           "status:1e3", "skip:-1", "skip:x", "skip:70000", "skip:''", "skip:1.5", "allow:x", "allow:Phase", "DENY", "ID:1", "msg:'a", "msg:'a'b", "tag:\"a", "nolog", "redirect:x",
                           "id:'1", "id:12'", "id:123\"", "phase:22'", "phase:x2'", "t:xlowercase'", "t:xnone\"", "skip:13'", "status:4031\"", "allow:xphase'", "deny:''", "phase:'9'", "id:' 1'", "status:'4 03'"]))
    k = r.choice(["id", "id", "phase", "phase", "t", "t", "t", "msg", "tag", "tag", "rev", "ver", "deny", "log", "pass", "block", "status", "skip", "allow", "chain0"])
    ws = lambda: r.choice(["", "", "", "", "", " ", "\t", "\n"]) if r.random() < .9 else "".join(r.choice(" \t\n\v\f\r") for _ in range(r.choice([1, 1, 2, 3])))
    q = lambda s: r.choice([s, s, "'" + s + "'", '"' + s + '"'])
    if k in ("deny", "log", "pass", "block"):
        s = k + r.choice(["", "", "", ":", ": "])
    elif k == "chain0":
        return b("log")
    elif k == "id":
        s = "id" + ws() + ":" + ws() + q(r.choice(["1", "2", "0", "-5", "+7", "007", "900120", "9223372036854775807", "-9223372036854775808", "99999999999"]))
    elif k == "phase":
        s = "phase:" + ws() + q(r.choice(["1", "2", "3", "4", "5", "request", "response", "logging", "02", "+3"]))
    elif k == "t":
        s = "t:" + ws() + q(r.choice(TRANS))
    elif k in ("msg", "tag", "rev", "ver"):
        x = r.choice(TXT)
        if r.random() < .4 and not (set(x) & set(",\"'")) and x == x.strip():
            s = k + ":" + ws() + x
        else:
            c = r.choice("'\"")
            s = k + ws() + ":" + ws() + c + x + c
        if r.random() < .05:
            s = k
    elif k == "status":
        s = "status:" + ws() + q(r.choice(["403", "200", "404", "500", "99", "600", "0", "-1", "+302", "0403", "99999999999"]))
    elif k == "skip":
        s = r.choice(["skip", "skip:", "skip:" + ws() + q(r.choice(["0", "1", "2", "3", "65535", "007"]))])
    elif k == "allow":
        s = r.choice(["allow", "allow:", "allow:" + ws() + q(r.choice(["phase", "request", ""]))])
    return b(ws() + s + ws())


def actions(r, slip, chain=False, n=None):
    acts = [action(r, slip) for _ in range(n or (r.choice([1, 2, 3, 3, 4, 5, 7]) if r.random() < .98 else r.choice([15, 30, 60])))]
    if chain:
        acts.insert(r.randint(0, len(acts)), b(r.choice(["chain", " chain", "chain "])))
    s = acts[0]
    for a in acts[1:]:
        s = s + [44] + a
    return s


def secrule(r, rx, slip, chain=False):
    return ("SecRule", [variables(r, rx, slip), operator(r, rx, slip), actions(r, slip, chain)])


def setting(r, slip):
    d = r.choice(["SecRuleEngine", "SecRuleEngine", "SecRequestBodyAccess", "SecResponseBodyAccess"])
    v = r.choice(["On", "Off", "on", "OFF", "oN"] + (["DetectionOnly", "detectiononly"] if d == "SecRuleEngine" else []))
    if r.random() < slip:
        v = r.choice(["", "Onn", " On", "On ", "True", "DetectionOnly", "1", "O", "xOff", "Detection", "On\n"])
    return (d, [b(v)])


def doc(r, rx, n, slip, prof):
    ds = []
    while len(ds) < n:
        x = r.random()
        if x < (.1 if prof == "C21" else .3):
            ds.append(setting(r, slip))
        elif x < (.2 if prof == "C21" else .5):
            m = r.choice([1, 1, 2, 3])
            for i in range(m):
                ds.append(secrule(r, rx, slip, True))
                if r.random() < .15:
                    ds.append(setting(r, slip))
            ds.append(secrule(r, rx, slip))
        else:
            ds.append(secrule(r, rx, slip))
        if ds and r.random() < .06:  # once more
            ds.append(r.choice([d for d in ds if not chained(d)] or [setting(r, 0)]))
        if r.random() < slip * .3:
            ds.append((r.choice(["SecFoo", "SecRules", "Include", "SecRuleEngines", "Sec", "#"]), [b("x")]))
    if r.random() < .06:  # a chain that the end of the text ends
        ds += [secrule(r, rx, slip, True) for _ in range(r.choice([1, 1, 2]))]
    return ds


def chained(d):
    return d[0].lower() == "secrule" and len(d[1]) == 3 and b("chain") in [d[1][2][i:i + 5] for i in range(len(d[1][2]))]


def pumped(r, s):
    """Long runs of blanks, newlines, or of letters in a text (gen_fn.pumped)."""
    c = r.choice([32, 10, 81, 81, 81])
    for o in s["ops"]:
        t = o.get("t")
        if not t:
            continue
        for _ in range(r.choice([1, 1, 2])):
            quotes = [i + 1 for i, x in enumerate(t) if x in (34, 39, 58)]
            i = r.choice(quotes) if quotes and r.random() < .5 else r.randint(0, len(t))
            t = t[:i] + [c, c] + t[i:]
        o["t"] = t
    s["pump"] = {"c": c, "n": r.choice(gen_fn.SIZES[:-1] + [70000])}


def edged(r, s, end=False):
    """One text made so long that something in it comes to lie where a reader's buffer may end."""
    o = r.choice([o for o in s["ops"] if o.get("t")] or [None])
    if o is None:
        return
    t, c = o["t"], r.choice([10, 10, 32, 81])
    at = 0 if c != 81 else r.choice([i + 1 for i, x in enumerate(t) if x in (34, 39, 58)] or [0])
    t = t[:at] + [c, c] + t[at:]
    if end or r.random() < .4:  # all of it, and then an escape
        while r.random() < .8 and t[-1] in b("\n\r \0"):
            t = t[:-1]
        if r.random() < .3 and t[-1] not in b("abfnrtv"):
            t = t[:-1] + [92, t[-1]]
        else:
            t = t + b(r.choice(["\\\n", "\\\n", "\\\r", "\\\r\n", "\\x", "\\ ", " \\\n", "\\"]))
    elif r.random() < .4:  # ends in, or right behind, an escape
        k = r.choice([k for k, x in enumerate(t) if x == 92 and k > at] or [len(t) - 1])
        t = t[:k + r.choice([1, 2, 2, 2, 3])]
    ps = [i for i in range(at + 2, len(t)) if t[i] in b("\\\"'\n\r\t ,:|")] or [len(t)]
    p = r.choice([len(t), len(t) - 1, len(t) - 1, len(t) - 1, len(t) - 2] + [r.choice(ps)] * (not end))
    runs, i = 0, 0
    while i < p:
        k = i
        while k < len(t) and t[k] == t[i]:
            k += 1
        runs += t[i] == c and k - i >= 2
        i = k
    ns = runs and [(z + d - p) // runs for z in (256, 512, 1024, 2048, 4096, 8192, 16384, 65536) for d in (0, 0, 0, -1, 1, -2, 2) if (z + d - p) % runs == 0 and (z + d - p) // runs >= 100]
    if ns:
        o["t"], s["pump"] = t, {"c": c, "n": r.choice(ns)}


# what the reference engine knows and this one does not (or not by that name): a rule with it is not loaded
NOVARS = """ARGS_COMBINED_SIZE AUTH_TYPE DURATION ENV FILES FILES_NAMES FILES_SIZES FULL_REQUEST GEO HIGHEST_SEVERITY INBOUND_DATA_ERROR IP GLOBAL MATCHED_VAR MATCHED_VARS
 MULTIPART_STRICT_ERROR PATH_INFO REMOTE_HOST REMOTE_PORT REMOTE_USER REQBODY_ERROR REQBODY_PROCESSOR REQUEST_BODY_LENGTH REQUEST_LINE REQUEST_URI_RAW RESOURCE RULE SERVER_ADDR
 SERVER_NAME SERVER_PORT SESSION SESSIONID STATUS_LINE TIME TIME_DAY TX UNIQUE_ID URLENCODED_ERROR USER USERID WEBAPPID XML ARG COOKIES HEADERS URI METHOD BODY args ARGS_post""".split()
NOOPS = """beginsWith contains containsWord detectSQLi detectXSS endsWith fuzzyHash geoLookup inspectFile ipMatch ipMatchF ipMatchFromFile noMatch pm pmf pmFromFile rbl rsub rxGlobal streq
 strmatch unconditionalMatch validateByteRange validateUrlEncoding validateUtf8Encoding verifyCC within ne Rx EQ regex r""".split()
NOTRANS = """base64Decode base64DecodeExt base64Encode cmdLine cssDecode escapeSeqDecode hexDecode hexEncode htmlEntityDecode jsDecode length md5 normalisePath normalizePath normalisePathWin
 normalizePathWin parityEven7bit parityOdd7bit parityZero7bit removeComments removeCommentsChar replaceComments sha1 sqlHexDecode trim trimLeft trimRight uppercase urlEncode utf8toUnicode
 lower Lowercase urldecode UrlDecode urlDecodeuni compressWhiteSpace removewhitespace None nulls""".split()
NOACTS = """accuracy:1 append:x auditlog noauditlog capture ctl:ruleEngine=Off deprecatevar:x drop exec:x expirevar:x initcol:ip=x log: logdata:x maturity:3 multiMatch nolog pause:5 prepend:x
 proxy:x redirect:x sanitiseArg:a setenv:a=1 setrsc:x setsid:x setuid:x setvar:tx.a severity:2 severity:CRITICAL skipAfter:X xmlns:x skipafter denied blocks statuses ids phases msgs Deny Pass
 LOG Chain chained transform""".split()

FRAGS = {"v": ["ARGS", "REQUEST_URI|ARGS:a", "&ARGS"], "o": ["@rx a", "!@eq 1", "a"], "a": ["deny", "id:1,log", "phase:2"]}


def torn(r, rx):
    """A directive from pieces: arguments with or without their quotes, too many of them or too few, on one line or several."""
    rx.d[bytes(b("a"))] = {"s": b("a"), "ok": True, "tree": {"k": "lit", "c": 97}}
    rx.d[b""] = {"s": [], "ok": True, "tree": {"k": "cat", "l": []}}
    t = "SecRule" if r.random() < .85 else r.choice(["SecRuleEngine", "SecRequestBodyAccess", "SecRuleX", ""])
    for k in r.choice(["voa", "voa", "voa", "voaa", "vvoa", "vooa", "voavoa", "vo", "va", "v", "oa", ""]):
        f = r.choice(FRAGS[k]) if r.random() < .9 else ""
        q = r.choice(["", "'", '"', '"'])
        t += r.choice([" ", " ", " ", " ", "\n", " \n", "\n ", "\r\n", "", "\\\n", " \\\n"])
        t += (q if r.random() < .85 else "") + f + r.choice(["", "", "", "", "", "", "\n", " ", "\\"]) + (q if r.random() < .85 else "")
    return b(t + r.choice(["", "\n", "\nSecRuleEngine On\n", "\nSecRule ARGS a deny"]))


def scenario(r, sid, prof):
    rx = Rxs(r)
    s = {"sid": sid, "nsets": 1, "nengs": 1, "probe": PROBE, "probes": PROBES}
    add = lambda t, i=1: {"o": "add", "set": i, "t": t, "how": r.choice(["", "new"]) if i == 1 else "", "eng": 1}
    if prof == "C20":
        slip = r.choice([0, 0, .02])
        t = render(r, doc(r, rx, r.choice([1, 1, 2, 3]) if r.random() < .985 else r.choice([12, 25, 60]), slip, prof))
        if r.random() < .12:
            t = torn(r, rx)
        elif r.random() < .1:  # what other readers take for a comment, or for nothing, and no other slip
            k = r.choice([k + 1 for k, c in enumerate(t) if c in (10, 13)] or [0, len(t)])
            t[k:k] = b(r.choice(["\r", "\n", "", " "]) + r.choice(["#", "#", "# a\n", ";", "//", "\v", "\x00", "\x85", "\xef\xbb\xbf", "\\"]))
        elif r.random() < .5:
            t = dirty(r, t)
        s["ops"] = [add(t), {"o": "exec", "set": 1, "eng": 1}, {"o": "dump", "eng": 1}]
    elif prof == "C21":
        slip = r.choice([0, 0, .04, .1])
        s["ops"] = [add(render(r, doc(r, rx, r.choice([1, 1, 1, 2]), slip, prof))), {"o": "exec", "set": 1, "eng": 1}, {"o": "dump", "eng": 1}]
    else:
        s["nsets"], s["nengs"] = r.choice([1, 2]), r.choice([1, 2])
        ops, first = [], set()
        for _ in range(r.randint(2, 6)):
            x = r.random()
            if x < .6:
                i = r.randint(1, s["nsets"])
                o = add(render(r, doc(r, rx, r.choice([0, 1, 2, 3, 4, 6]) if r.random() < .985 else r.choice([20, 40, 70, 130]), r.choice([0, 0, .04]), prof)), i)
                o["how"] = "" if i in first else o["how"]
                first.add(i)
                ops.append(o)
            elif x < .9:
                ops.append({"o": "exec", "set": r.randint(1, s["nsets"]), "eng": r.randint(1, s["nengs"])})
            else:
                ops.append({"o": "dump", "eng": r.randint(1, s["nengs"])})
        for i in range(1, s["nsets"] + 1):
            ops.append({"o": "exec", "set": i, "eng": r.randint(1, s["nengs"])})
        s["ops"] = ops + [{"o": "dump", "eng": e + 1} for e in range(s["nengs"])]
    for o in s["ops"]:
        for k, d in (("set", 1), ("eng", 1), ("t", []), ("how", "")):
            o.setdefault(k, d)
    s["rxs"] = rx.list()
    x = r.random()
    if x < .03:
        pumped(r, s)
    elif x < (.18 if prof == "C20" else .03):
        edged(r, s)
    if prof == "C22":
        s["probes"] = PROBES[:2]
    return s


def names(r):
    """A rule with each name that means nothing here."""
    for v in NOVARS:
        yield b(r.choice(["", "", "&"]) + v + r.choice(["", "", ":a"])), b("@rx a"), b("id:1,log")
    for o in NOOPS:
        for a in ("", " 1"):
            yield b("ARGS"), b(r.choice(["", "", "!"]) + "@" + o + a), b("id:1,log")
    for t in NOTRANS:
        yield b("ARGS"), b("a"), b("t:" + t)
    for a in NOACTS:
        yield b("ARGS"), b("@eq 1"), b(a + r.choice(["", "", ",log"]))


def batch(r, n, prof):
    res = []
    if prof == "C21":
        for d in names(r):
            s = scenario(r, len(res) + 1, "C20")
            rx = Rxs(r)
            rx.d[bytes(b("a"))] = {"s": b("a"), "ok": True, "tree": {"k": "lit", "c": 97}}
            s.pop("pump", None)
            s["rxs"] = rx.list()
            s["ops"][0]["t"] = render(r, [("SecRule", list(d))], 1)
            res.append(s)
    while prof == "C20" and len(res) < n // 10:
        s = scenario(r, len(res) + 1, "C20")
        s.pop("pump", None)
        rx = Rxs(r)
        s["ops"][0]["t"] = render(r, doc(r, rx, 1, 0, prof), 1)
        s["rxs"] = rx.list()
        edged(r, s, True)
        res.append(s)
    return res + [scenario(r, i + 1, prof) for i in range(len(res), n)]
