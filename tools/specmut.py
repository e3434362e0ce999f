#!/usr/bin/env python3
"""Vacuity control of the specifications: breaks a specification on purpose and shows which stated property notices.
usage: specmut.py [-o table.md] [filter]   (a filter is part of 'file:number', as in Buffer or Txn:3)"""
import os, re, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core
# file -> list of (what is broken, old text, new text, [module:config, ...])
MUT = {
"Txn.tla": [
 ("a phase may run twice", "IF phase > p \\/ started >= p", "IF phase > p", ["MCTxn:calls"]),
 ("allow may lead back", "LET q == IF started > PBegin /\\ p <= started THEN started + 1 ELSE p", "LET q == p", ["MCTxn:calls"]),
 ("the last rule of a phase is not run", "THEN End ELSE nxt + 1", "THEN End ELSE nxt + 2", ["MCTxn:skip"]),
 ("skip goes one too far", "(IF a.k = \"skip\" THEN a.n ELSE 1)", "(IF a.k = \"skip\" THEN a.n ELSE 2)", ["MCTxn:skip"]),
 ("the last member of a chain is not evaluated", "THEN member' = 0 /\\ pc' = AfterRule /\\ UNCHANGED todo\n           ELSE IF member <", "THEN member' = 0 /\\ pc' = AfterRule /\\ UNCHANGED todo\n           ELSE IF member + 1 <", ["MCTxn:chain"]),
 ("a failing member does not stop the chain", "IF ~res.m\n           THEN member' = 0", "IF ~res.m /\\ member = 1\n           THEN member' = 0", ["MCTxn:chain"]),
 ("actions of the members before those of the head", "ChainActions(r) == Concat([i \\in DOMAIN Chain(r) |-> Ordered(Chain(r)[i].rid, Chain(r)[i].acts)])", "ChainActions(r) == Concat(Reverse([i \\in DOMAIN Chain(r) |-> Ordered(Chain(r)[i].rid, Chain(r)[i].acts)]))", ["MCTxn:act"]),
 ("groups in another order", "IN grp(0) \\o grp(1) \\o grp(2)", "IN grp(1) \\o grp(0) \\o grp(2)", ["MCTxn:act"]),
 ("detection only leaves nothing out", "LeftOut(a) == mode = Detect /\\", "LeftOut(a) == FALSE /\\ mode = Detect /\\", ["MCTxn:mode"]),
 ("detection only leaves logging out too", "Group(a) = Disruptive\nSkipAction", "Group(a) \\in {2, Disruptive}\nSkipAction", ["MCTxn:mode"]),
 ("a pending verdict does not stop the next phase", "IF mode = Off \\/ abort \\/ iv.dis THEN \"end\"", "IF mode = Off \\/ abort THEN \"end\"", ["MCTxn:iv"]),
 ("rules run in a phase while the engine is off", "IF mode = Off \\/ abort \\/ iv.dis THEN \"end\"", "IF abort \\/ iv.dis THEN \"end\"", ["MCTxn:mode"]),
 ("an engine switched off goes on in the phase", "\\/ nxt = End \\/ mode = Off", "\\/ nxt = End", ["MCTxn:mode"]),
 ("an abort is forgotten with the result", "iv' = IF abort THEN iv ELSE CleanIv", "iv' = CleanIv", ["MCTxn:abort"]),
 ("log entries are handed out twice", "iv' = IF abort THEN iv ELSE CleanIv", "iv' = IF abort THEN iv ELSE [CleanIv EXCEPT !.log = iv.log]", ["MCTxn:iv"]),
 ("pass discards log entries", "IF abort THEN iv ELSE [CleanIv EXCEPT !.log = iv.log]", "IF abort THEN iv ELSE CleanIv", ["MCTxn:iv"]),
 ("pass takes an abort back", "IF abort THEN iv ELSE [CleanIv EXCEPT !.log = iv.log]", "[CleanIv EXCEPT !.log = iv.log]", ["MCTxn:abort"]),
 ("a denied phase goes on", "pc' = IF iv.dis THEN \"end\" ELSE \"next\"", "pc' = \"next\"", ["MCTxn:iv"]),
 ("an abort within a rule does not end the phase", "AfterRule == IF iv'.dis THEN \"end\" ELSE \"next\"", "AfterRule == \"next\"", ["MCTxn:abort"]),
 ("allow does not leave the phase", "IF phase # run \\/ nxt = End", "IF nxt = End", ["MCTxn:flow"]),
 ("allow:phase jumps one phase too far", "s = \"phase\" -> phase + 1", "s = \"phase\" -> phase + 2", ["MCTxn:flow"]),
 ("deny without a log entry", "!.dis = TRUE, !.log = Append(@, Prefix(phase) \\o DenyMsg(DenyStatus))]", "!.dis = TRUE]", ["MCTxn:iv"]),
 ("deny with the status 200", "ELSE 403\n\n(* where", "ELSE 200\n\n(* where", ["MCTxn:iv"]),
 ("a transaction that is aborted evaluates on", "IF mode = Off \\/ abort \\/ iv.dis THEN \"end\"", "IF mode = Off \\/ (iv.dis /\\ ~abort) THEN \"end\"", ["MCTxn:abort"]),
 ("a call that never returns", "EndCall ==\n  /\\ pc = \"end\"", "EndCall ==\n  /\\ pc = \"end\" /\\ started < 4", ["MCTxn:calls"]),
],
"Buffer.tla": [
 ("a spill loses what was in memory", "![b].file = buf[b].mem \\o p, ![b].spilled = TRUE,\n                        ![b].mem = @ \\o Take(p, buf[b].memlim - Length(buf[b]))]\n  /\\ out' = Ret(Len(p), \"\", <<>>) /\\ UNCHANGED <<dirok, full>>\n\nWriteFile", "![b].file = p, ![b].spilled = TRUE]\n  /\\ out' = Ret(Len(p), \"\", <<>>) /\\ UNCHANGED <<dirok, full>>\n\nWriteFile", ["MCBuffer:nofault"]),
 ("the limit is off by one", "> buf[b].lim\n", ">= buf[b].lim\n", ["MCBuffer:nofault"]),
 ("the memory limit is off by one", "Len(p) > buf[b].memlim", "Len(p) >= buf[b].memlim", ["MCBuffer:nofault"]),
 ("writing after reading", "WriteMem(b, p) ==\n  /\\ ~buf[b].readed", "WriteMem(b, p) ==\n  /\\ TRUE", ["MCBuffer:nofault"]),
 ("a read starts one byte late", "SubSeq(Content(x), x.pos + 1, x.pos + k))", "SubSeq(Content(x), x.pos + 2, x.pos + k + 1))", ["MCBuffer:nofault"]),
 ("a view from the position", "Ret(Length(buf[b]), \"\", buf[b].mem)", "Ret(Length(buf[b]), \"\", From(buf[b].mem, buf[b].pos))", ["MCBuffer:nofault"]),
 ("a view of the memory part of a spilled body", "IF buf[b].spilled THEN Ret(0, \"mem\", <<>>) ELSE", "IF FALSE THEN Ret(0, \"mem\", <<>>) ELSE", ["MCBuffer:nofault"]),
 ("copying out from the start", "ELSE From(Content(x), x.pos)\n  IN", "ELSE Content(x)\n  IN", ["MCBuffer:nofault"]),
 ("a short write does not count", "/\\ buf' = [buf EXCEPT ![b].file = @ \\o Take(p, k)]", "/\\ UNCHANGED buf", ["MCBuffer:fault"]),
 ("a write that fails is kept whole", "![b].file = @ \\o Take(p, k)]", "![b].file = @ \\o p]", ["MCBuffer:fault"]),
 ("a refused write moves the position", "Refused(b, p, why) == /\\ out' = Ret(0, why, <<>>) /\\ UNCHANGED <<buf, dirok, full>>", "Refused(b, p, why) == /\\ out' = Ret(0, why, <<>>) /\\ buf' = [buf EXCEPT ![b].pos = @ + 1] /\\ UNCHANGED <<dirok, full>>", ["MCBuffer:nofault"]),
],
"Vars.tla": [
 ("a body that does not fit is inspected in part", "BodyAbort == IF ReqForm /\\ buf[\"req\"].spilled THEN 413 ELSE 0", "BodyAbort == 0", ["MCVars:"]),
 ("an abort without a reason", "BodyAbort == IF ReqForm /\\ buf[\"req\"].spilled THEN 413 ELSE 0", "BodyAbort == IF ReqForm THEN 413 ELSE 0", ["MCVars:"]),
 ("an abort is forgotten", "IF AbortOf(w.v) # 0 THEN AbortOf(w.v) ELSE vabort", "AbortOf(w.v)", ["MCVars:"]),
 ("the access switch is not asked", "ReqOpen == CarriesBody /\\ set.reqacc /\\", "ReqOpen == CarriesBody /\\", ["MCVars:"]),
 ("the first of two arguments of one name", "IN [i \\in DOMAIN ns |-> [name |-> ns[i], vals |-> Values2(ps, ns[i])]]", "IN [i \\in DOMAIN ns |-> [name |-> ns[i], vals |-> <<Values2(ps, ns[i])[1]>>]]", ["GenVars:query"]),
 ("counts leave empty values out", "IF w.count THEN vals = <<Dec(SumLen(vs))>>", "IF w.count THEN vals = <<Dec(Len(gs))>>", ["MCVars:"]),
 ("an excluded name is delivered", "/\\ ~ \\E i \\in DOMAIN w.exc : Selects(w.exc[i], n)", "/\\ TRUE", ["MCVars:"]),
 ("exclusions alone select nothing", "w.inc = <<>> \\/ \\E i", "\\E i", ["MCVars:"]),
 ("names without the body's", "AsNames(GetGroups) \\o AsNames(BodyGroups)", "AsNames(GetGroups)", ["MCVars:"]),
 ("reading a body moves its position", "THEN [buf[b] EXCEPT !.readed = TRUE] ELSE buf[b]]\n  /\\ vabort' = IF AbortOf(w.v)", "THEN [buf[b] EXCEPT !.readed = TRUE, !.pos = @ + 1] ELSE buf[b]]\n  /\\ vabort' = IF AbortOf(w.v)", ["MCVars:"]),
 ("an undocumented value for a missing part", "ELSE {<<>>, <<<<>>>>}\n    [] v = \"REQUEST_PROTOCOL\"", "ELSE {<<>>, <<<<48>>>>}\n    [] v = \"REQUEST_PROTOCOL\"", ["MCVars:"]),
],
"SecLang.tla": [
 ("a continuation inside an argument is dropped", "Append(acc, Unescape(t[i + 1]))", "Append(acc, t[i + 1])", ["MCLang:scan"]),
 ("a quoted argument ends at either quote", "ArgText(t, i + 1, {t[i]}, <<>>)", "ArgText(t, i + 1, Quote, <<>>)", ["MCLang:scan"]),
 ("CRLF counts as two newlines", "THEN i + 2 ELSE i + 1", "THEN i + 1 ELSE i + 1", ["MCLang:text", "MCLang:scan"]),
 ("a text with an unknown word is cut short", "w \\notin DOMAIN DirectiveOf THEN NoScan", "w \\notin DOMAIN DirectiveOf THEN [ok |-> TRUE, ds |-> ds]", ["MCLang:text"]),
 ("a broken argument ends the text quietly", "Append(ds, [d |-> DirectiveOf[w], args |-> <<a1.s>>])) ELSE NoScan", "Append(ds, [d |-> DirectiveOf[w], args |-> <<a1.s>>])) ELSE [ok |-> TRUE, ds |-> ds]", ["MCLang:text"]),
 ("of two selectors for a collection the last counts", "IN [j \\in DOMAIN q |-> Selector(q[j].s)],\n        exc", "IN IF q = <<>> THEN <<>> ELSE <<Selector(q[Len(q)].s)>>,\n        exc", ["MCLang:vars"]),
 ("the counting form is lost", "LET keys == Names([i \\in DOMAIN ps |-> <<<<ps[i].v, ps[i].count>>, i>>])", "LET keys == Names([i \\in DOMAIN ps |-> <<<<ps[i].v, FALSE>>, i>>])", ["MCLang:vars"]),
 ("a chain takes in one rule only", "IF d.chain THEN open ELSE 0)", "0)", ["MCLang:load"]),
 ("a setting ends a chain", "THEN Chained(Tail(ds), Append(res, d), open)", "THEN Chained(Tail(ds), Append(res, d), 0)", ["MCLang:load"]),
 ("rules in reverse", "e EXCEPT !.rules = Append(@, d)", "e EXCEPT !.rules = <<d>> \\o @", ["MCLang:load"]),
 ("the first mode wins", "[e EXCEPT !.mode = d.v]", "[e EXCEPT !.mode = IF e.mode = 0 THEN d.v ELSE e.mode]", ["MCLang:load"]),
 ("a rejected text leaves its first directive", "THEN [dsets EXCEPT ![i] = @ \\o m.ds] ELSE dsets", "THEN [dsets EXCEPT ![i] = @ \\o m.ds] ELSE [dsets EXCEPT ![i] = @ \\o SubSeq(m.ds, 1, 1) \\o <<t>>]", ["MCLang:load"]),
 ("a text with an error gives the rules before it", "ds |-> IF st = \"err\" THEN <<>> ELSE", "ds |-> IF st = \"err\" THEN SubSeq(ds, 1, 1) ELSE", ["MCLang:load"]),
],
"E2E.tla": [
 ("the first value decides", "Some(r, vs) == \\E i \\in DOMAIN vs : Fits(r, vs[i])", "Some(r, vs) == vs # <<>> /\\ Fits(r, vs[1])", ["MCE2E:triplesq"]),
 ("an aborting variable does not abort", "IF Aborts(r) # {} THEN EvalWith([m |-> FALSE, ab |->", "IF FALSE THEN EvalWith([m |-> FALSE, ab |->", ["MCE2E:triplesq"]),
 ("another rule's text is executed on the shared engine by a call", "[] OTHER -> Feed(o) /\\ UNCHANGED lvars", "[] OTHER -> Feed(o) /\\ engs' = [engs EXCEPT ![1].mode = 1] /\\ UNCHANGED <<rxs, dsets>>", ["MCE2E:triplesq"]),
],
"Sched.tla": [
 ("the phase of the last transaction is kept", "/\\ started' = o[12]", "/\\ started' = started", ["MCSched:head"]),
 ("the buffer of the last transaction is kept", "Become(o) == /\\ buf' = o[1]", "Become(o) == /\\ buf' = buf", ["MCSched:body"]),
 ("the input of the last transaction is kept", "/\\ inp' = o[6]", "/\\ inp' = inp", ["MCSched:head"]),
 ("what was run is not kept", "{[bank EXCEPT ![who] = Own]}", "{IF i = who THEN [bank EXCEPT ![who] = Own] ELSE bank}", ["MCSched:conn"]),
 ("another transaction is touched", "/\\ UNCHANGED <<bank, who>>\n(*", "/\\ bank' = [j \\in DOMAIN bank |-> IF j = who THEN bank[j] ELSE [bank[j] EXCEPT ![10] = 1]] /\\ UNCHANGED who\n(*", ["MCSched:conn"]),
],
"Steps.tla": [
 ("a step is taken twice", "Takes(c) == StepOf(c) > step", "Takes(c) == StepOf(c) >= step", ["MCSteps:"]),
 ("responses in another order", "\"resh\", \"resb\", \"log\"", "\"resb\", \"resh\", \"log\"", ["MCSteps:"]),
],
"Fn.tla": [
 ("an escape is decoded twice", "THEN <<HexVal(s[2]) * 16 + HexVal(s[3])>> \\o UrlDecode(Drop(s, 3), uni)", "THEN UrlDecode(<<HexVal(s[2]) * 16 + HexVal(s[3])>> \\o Drop(s, 3), uni)", ["GenFn:url"]),
 ("a plus is kept", "<<IF s[1] = 43 THEN 32 ELSE s[1]>> \\o UrlDecode", "<<s[1]>> \\o UrlDecode", ["GenFn:url"]),
 ("runs of blanks become two", "THEN <<32>> \\o CompressWs(TrimLeft(s))", "THEN <<32, 32>> \\o CompressWs(TrimLeft(s))", ["GenFn:case"]),
 ("lowercase removes a byte", "[] fn = \"lowercase\" -> LowerS(s)", "[] fn = \"lowercase\" -> LowerS(Tail(s))", ["GenFn:case"]),
 ("numbers are compared as texts", "IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)\n                   ELSE IF a = <<>>", "IF a = <<>> \\/ b = <<>>", ["GenFn:num"]),
 ("negative numbers by their size", "IF a.neg THEN CmpDigits(b.d, a.d)", "IF a.neg THEN CmpDigits(a.d, b.d)", ["GenFn:num"]),
 ("what depends on the length", "RemoveWs(s) == SelectSeq", "RemoveWs(s) == IF Len(s) > 3 THEN s ELSE SelectSeq", ["MCPump:functions"]),
],
"Rx.tla": [
 ("a sequence matches with a gap", "EndsCat(Tail(l), s, EndsF(Head(l), s, ps, f), f)", "EndsCat(Tail(l), s, EndsF(Head(l), s, ps, f) \\cup ps, f)", ["GenRx:"]),
 ("only the first alternative", "UNION {EndsF(a.l[i], s, ps, f) : i \\in DOMAIN a.l}", "EndsF(a.l[1], s, ps, f)", ["GenRx:"]),
 ("a long text matches differently", "Search(a, s) == LET t == Runes(s)", "Search(a, s) == LET t == IF Len(s) > 6 THEN <<>> ELSE Runes(s)", ["MCPump:searches"]),
],
}
args = sys.argv[1:]
out = args.pop(args.index("-o") + 1) if "-o" in args else None
if "-o" in args: args.remove("-o")
flt = args[0] if args else ""
rows = []
for f, ms in MUT.items():
    for i, (what, old, new, cfgs) in enumerate(ms):
        if not cfgs or flt not in "%s:%d" % (f.replace(".tla", ""), i):
            continue
        d = tempfile.mkdtemp(prefix="specmut-")
        for x in os.listdir(core.SPEC):
            shutil.copy(os.path.join(core.SPEC, x), d)
        s = open(os.path.join(d, f)).read()
        found = []
        if s.count(old) < 1:
            found = ["TEXT NOT FOUND"]
        else:
            open(os.path.join(d, f), "w").write(s.replace(old, new, 1))
            for c in cfgs:
                mod, cf = c.split(":")
                cfg = mod + ("_" + cf if cf else "") + ".cfg"
                if cf == "triplesq":
                    t = open(os.path.join(d, "MCE2E_pairs.cfg")).read().replace("Traffics = {1,2,3,4}", "Traffics = {2,3,4}").replace("DetectionNeverDenies Emit", "DetectionNeverDenies")
                    open(os.path.join(d, cfg), "w").write(t)
                if not os.path.exists(os.path.join(d, cfg)):
                    found.append("no " + cfg); continue
                t0 = __import__("time").time()
                r = subprocess.run(["timeout", "600"] + core.JAVA + ["-Djava.io.tmpdir=" + d, "tlc2.TLC", "-workers", "6", "-metadir", os.path.join(d, "m"), "-noGenerateSpecTE", "-config", cfg, mod],
                                   cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                lines = [l for l in r.stdout.splitlines() if "GEN " not in l]
                m = re.search(r"Invariant (\w+)|[Aa]ction property (\w+)|(Temporal properties were)|([Ee]rror: .*)", "\n".join(lines))
                hit = next((g for g in m.groups() if g), None) if m and r.returncode else None
                hit = {"Temporal properties were": "Returns (liveness)"}.get(hit, hit)
                found.append(hit or ("TIMEOUT" if r.returncode == 124 else "NOT NOTICED"))
        rows.append((f, what, cfgs, found))
        print("%s:%d %s -> %s" % (f.replace(".tla", ""), i, what, found), flush=True)
        shutil.rmtree(d)
if out:
    with open(out, "w") as h:
        h.write("| Module | What was broken | Model | Noticed by |\n|---|---|---|---|\n")
        for f, w, c, n in rows:
            h.write("| %s | %s | %s | %s |\n" % (f, w, ", ".join(x.rstrip(":") for x in c), ", ".join(n)))
