#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
M = "modsecurity/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
      "quantifier": {"over": over, "text": " ".join(text.split())},
      "why_tests_cant": " ".join(why.split()),
      "anchors": {"files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Each phase runs at most once, in phase order, for any sequence of calls",
 """For every sequence of the calls that feed a transaction (connection, URL, request headers, request body,
 response headers, response body, logging; in any order, repeated or left out), the rules of a phase are evaluated
 at most once, only inside the call that belongs to that phase, and never once a later phase has been started or skipped to.
 Every such call returns, whatever the loaded rules do.""",
 ["histories", "configurations"],
 "all call sequences of a transaction (any order, repetition, omission) x all rule sets, including rules that allow or skip in any phase",
 "The tests call each step once, in the natural order, with one or two rules; repeated, late or missing calls and allow in late phases are never exercised.",
 [M+"transaction.go", M+"actions/allow.go"],
 [("ProcessPhase / processPhase", M+"transaction.go"), ("JumpToPhase clamps to phases not started", M+"transaction.go")],
 [("currentPhase", "the phase that runs or will run next", M+"transaction.go"), ("startedPhase", "last phase that was run", M+"transaction.go")],
 ["rule variables being fetched (custom Variable)", "CurrentPhase() inside actions"])

prop("C02", "A phase evaluates every one of its rules once, in the order they were added",
 """Unless a skip, an allow or a disruptive action intervenes, a phase evaluates each of its rules exactly once, in the order
 in which they were added to the engine; whether an earlier rule matched or not does not change whether a later one is evaluated.
 Rules of other phases, and rules whose phase does not exist, are never evaluated in it.""",
 ["configurations", "histories"],
 "all rule sets (any number of rules per phase, any mix of phases, any match outcomes)",
 "Tests use at most a couple of rules in a phase and check only the final intervention, so a dropped, repeated or reordered rule would go unseen.",
 [M+"transaction.go", M+"sec_rule.go", M+"engine.go"],
 [("Next", M+"transaction.go"), ("SecRuleSet.AddRules / Process", M+"sec_rule.go")],
 [("nextRule", "index of the rule to evaluate next in the phase", M+"transaction.go")],
 ["custom Variable.Fetch", "custom Action.Do"])

prop("C03", "skip passes over exactly N rules and allow resumes at the phase it names",
 """When a matching rule carries skip:N, exactly the N following rules of the same phase are passed over (a bare skip passes over one) and evaluation goes on after
 them; when it carries allow, no later rule of the phase is evaluated and evaluation resumes with the complete next phase (allow:phase),
 the response-headers phase (allow:request) or the logging phase (plain allow), none of which is itself passed over. Rules that do not match never change the flow.""",
 ["configurations", "histories"],
 "all rule sets with skips and allows in any phase and position (first, last, chained, consecutive) x all call sequences",
 "The action tests call the action on a fresh transaction outside any processing; no test runs rules after a skip or an allow.",
 [M+"transaction.go", M+"actions/skip.go", M+"actions/allow.go", "seclang/actions.go"],
 [("JumpTo", M+"transaction.go"), ("JumpToPhase / NextPhase", M+"transaction.go"), ("ActionSkip.Do, ActionAllow.Do", M+"actions/")],
 [("currentPhase, nextRule", "where evaluation resumes", M+"transaction.go")],
 ["which rules' variables are fetched after the flow action"])

prop("C04", "A chain acts only when every one of its rules matches",
 """The actions of a chain (those of its first rule and of all the rules chained to it) run if and only if the first rule and every
 chained rule match; they run once, the first rule's actions before those of the chained rules in chain order. As soon as one rule of
 the chain does not match, the remaining rules of that chain are not evaluated and none of the chain's actions has any effect.""",
 ["configurations", "inputs"],
 "all chains of any length x all combinations of match outcomes, in any phase and position in the rule set",
 "One test has a chain of two matching rules; no test has a chain in which a later rule fails or checks that nothing leaked.",
 [M+"sec_rule.go", "seclang/rule_set.go"],
 [("SecRule.Do", M+"sec_rule.go")], [],
 ["custom actions in each chain member", "intervention after the phase"])

prop("C05", "A rule matches iff some transformed value satisfies its operator",
 """A rule matches exactly when at least one value of at least one of its variables, after all of the rule's transformations applied
 left to right, satisfies the operator, or, for a negated operator, does not satisfy it. A rule whose variables yield no value
 does not match, negated or not.""",
 ["inputs", "configurations"],
 "all lists of variables and values (none, one, many, empty strings), all transformation chains, all operators, negated or not",
 "Tests use one variable with one or two values and at most one transformation; order of transformations, negation over several values and empty collections are not covered.",
 [M+"sec_rule.go"],
 [("SecRule.Match", M+"sec_rule.go"), ("TransformString / FetchAllTransformedVariables", M+"sec_rule.go")], [],
 ["whether the rule's actions run"])

prop("C06", "The actions of a matching rule run once each, in group order",
 """When a rule matches, each of its actions runs exactly once, grouped as metadata, data, non-disruptive, disruptive and flow actions
 in that order and, within a group, in the order written; so a status set anywhere in the rule is in force when the rule's deny runs and a log
 action runs before the rule's disruptive action. Actions of a rule that does not match never run, and block runs the engine's default actions under the same rules.""",
 ["configurations"],
 "all multisets and orders of actions in a rule, in chained rules and in the default actions",
 "The tests run one or two actions directly; an order bug needs particular mixes (status written after deny, block with defaults).",
 [M+"sec_rule.go", M+"actions/block.go", M+"actions/status.go"],
 [("ActionsExecute", M+"sec_rule.go"), ("ExecuteDefaultActions", M+"sec_rule.go")], [],
 ["custom and wrapped actions that record when they run"])

prop("C07", "A disruptive verdict is reported with its status and log, and never lost",
 """After a rule denies, no further rule of the transaction is evaluated until the embedder has collected the result; the result
 is disruptive, carries the status of the rule's status action (403 if none in 100..599 was set; an earlier pending status is kept) and the log
 entries written so far, each naming client address, port and phase. Collecting the result returns everything accumulated since the
 previous collection and then clears it, and a result once returned never changes.""",
 ["histories", "configurations"],
 "all sequences of phases, result collections and rules that log, deny, block or pass",
 "Tests collect one result right after one denying rule; pending verdicts across calls, repeated collection and several log entries are not covered.",
 [M+"transaction.go", M+"actions/deny.go", M+"actions/pass.go", M+"actions/log.go"],
 [("Result / Intervention.Copy / Reset", M+"transaction.go"), ("ActionDeny.Do", M+"actions/deny.go"), ("Logf", M+"transaction.go")],
 [("intervention", "pending verdict of the transaction", M+"transaction.go")],
 ["Result()", "Intervention()"])

prop("C08", "An aborted transaction stays aborted",
 """Once a transaction is aborted (by the embedder or by a variable or action that fails while a rule is being evaluated), no rule evaluated afterwards matches, no rule of any
 later phase is evaluated, and every result collected from then on is disruptive with the abort status; neither collecting the result nor a pass lifts it.""",
 ["histories", "fault_sequences"],
 "all points at which an abort can happen (between calls, in a variable, in an operator, in an action, in a chained rule) x all later histories",
 "No test continues with a transaction after an abort.",
 [M+"transaction.go", M+"sec_rule.go", M+"actions/pass.go"],
 [("Abort flag tested in Match and processPhase", M+"sec_rule.go, transaction.go"), ("Result keeps the intervention of an aborted transaction", M+"transaction.go")],
 [("Abort", "the transaction must not be inspected further", M+"transaction.go")],
 ["Result() after every call"])

prop("C09", "Engine off evaluates no rule; detection only never disrupts",
 """While the engine is switched off no rule is evaluated and no result is disruptive; in detection-only mode every rule is evaluated and
 its non-disruptive actions (log, status, skip) take effect as when the engine is on, but no rule action disrupts the transaction or
 lets it jump over rules as a disruptive action. Switching the mode, directly or by SecRuleEngine, takes effect for the rules evaluated afterwards.""",
 ["configurations", "histories"],
 "all rule sets and histories under each engine mode, including mode switches between calls of a transaction",
 "Tests check only that the two mode flags are stored.",
 [M+"engine.go", M+"transaction.go", M+"sec_rule.go", "seclang/rules.go"],
 [("Engine.Enable", M+"engine.go"), ("mode tests in processPhase and ActionsExecute", M+"transaction.go, sec_rule.go")],
 [("Enabled, DetectionOnly", "engine mode", M+"engine.go")],
 ["Result()", "custom actions"])

prop("C10", "A body buffer returns exactly the bytes it accepted",
 """For every sequence of writes the body buffer holds the concatenation of exactly the bytes whose write was reported as accepted, in order, wherever the
 spill from memory to file falls; its length is that number of bytes. Reading, seeking and copying out deliver that content
 by position as one continuous stream, identical for in-memory and spilled bodies, and a write after the first read is refused without changing anything.""",
 ["histories", "inputs"],
 "all sequences of writes of any sizes (also empty ones), around every memory limit, followed by any sequence of reads, seeks, copies and string views",
 "The buffer tests write fixed strings and read once; chunk boundaries around the limit, partial reads and seeks are not explored.",
 [M+"buffer.go"],
 [("buffer.Write spill", M+"buffer.go"), ("buffer.Read / Seek / WriteTo", M+"buffer.go")],
 [("memBuf, fileBuf, length", "content", M+"buffer.go"), ("readed", "no more writes", M+"buffer.go")],
 ["Read, Seek, WriteTo, String, Bytes, Len of the request and response body"])

prop("C11", "Body limits are exact and a refused or failed write changes nothing",
 """A write is refused with an error exactly when it would take the body beyond its limit, and then no byte of it is kept; a write that fails because the spill
 file cannot be created or filled reports an error and leaves content, length and later behaviour consistent with the bytes reported as written. Bodies up to the memory limit never touch the
 disk, larger ones use one private file in the configured directory, and closing the buffer removes it; asking a spilled body for its in-memory view always reports an error.""",
 ["histories", "fault_sequences", "configurations"],
 "all limits (also memory limit above, at or below the total limit, and zero) x all write sequences x a missing or full spill directory at any write",
 "One test each exceeds a limit; none injects a failing directory or checks the state after a refused write.",
 [M+"buffer.go", M+"engine.go"],
 [("limit tests and error paths of buffer.Write", M+"buffer.go"), ("buffer.Close", M+"buffer.go"), ("makeBufferDir", M+"buffer.go")],
 [("memLimit, fileLimit", "limits", M+"buffer.go")],
 ["errors of AppendRequestBody / AppendResponseBody", "files in the temporary directory"])

prop("C12", "A body too large to inspect aborts the transaction instead of being half-read",
 """When a rule looks at an urlencoded request body that does not fit the in-memory limit (413), or at a response body in the same situation (500), the transaction is
 aborted with that status and the rule never sees a truncated body as if it were whole; a multipart body is parsed completely also when it lies on disk. When body access is off, the body is empty, or
 (for request bodies) the method carries no body or the content type is not one of a form, body variables are empty and never abort.""",
 ["inputs", "histories", "configurations"],
 "all body sizes around the limits, all chunkings, methods, content types and access settings, rules on any body variable in either body phase",
 "The tests use small bodies of one chunk with default limits.",
 [M+"variables/request_body.go", M+"variables/request_body_parser.go", M+"variables/response_body.go", M+"buffer.go"],
 [("AbortWithError in the body variables", M+"variables/"), ("requestBodyParse gates", M+"variables/request_body_parser.go")],
 [("VariableCache", "parsed body", M+"transaction.go")],
 ["Result()", "values of the body variables"])

prop("C13", "Body arguments are extracted completely, whatever the chunking or read order",
 """The arguments of an inspected urlencoded or multipart body are exactly its well-formed name/value pairs (in body order per name, decoded for urlencoded bodies; file parts of a multipart body are not arguments), independent of
 how the body was split into writes and of which variables were read before or how often. A malformed body never crashes, yields the same arguments
 at every read, and leaves the body itself and the temporary directory untouched.""",
 ["inputs", "histories"],
 "all urlencoded and multipart bodies (also malformed or truncated) x all chunkings x all orders of reading the body variables and the raw body",
 "Tests parse a handful of well-formed bodies written at once and read one variable once.",
 [M+"variables/request_body_parser.go", M+"variables/args_posts.go", M+"variables/args_post_names.go", M+"variables/args.go", M+"variables/args_names.go"],
 [("parsers and cache in requestBodyParse", M+"variables/request_body_parser.go")],
 [("VariableCache", "parsed body", M+"transaction.go")],
 ["values of ARGS_POST, ARGS, ARGS_NAMES, ARGS_POST_NAMES", "body position after fetching", "files left in the temporary directory"])

prop("C14", "Collection selectors select exactly the named entries, and & counts them",
 """For every collection variable, the entries delivered are those selected by at least one inclusion (an exact name or a /regex/; all entries
 when there is no inclusion) and by no exclusion, each with all its values in order, under the same rules for the values and the names variants.
 The counting form delivers the decimal number of the values the plain form would deliver, and zero when there is none.""",
 ["inputs", "configurations"],
 "all collections (repeated names, empty names and values) x all sets of exact and regex inclusions and exclusions x every collection variable",
 "Tests combine at most one inclusion with one exclusion on fixed names.",
 [M+"variables/filter.go", M+"variables/merge.go", M+"variables/count.go", "seclang/variable.go"],
 [("filter.FetchWithNames", M+"variables/filter.go"), ("merger", M+"variables/merge.go"), ("CountVariable", M+"variables/count.go")], [],
 ["Variable.Fetch"])

prop("C15", "Request and response variables deliver what the embedder supplied",
 """Each variable delivers, at any moment, exactly the part of the transaction it is named after (address, method, protocol, URI, path, basename, query string and arguments,
 headers, cookies, status, content type and length, and the names variants) as supplied so far by the embedder, unaltered apart from the documented decoding and with nothing from other parts.
 Before the part was supplied the variable delivers nothing or its documented empty value, and never fails.""",
 ["inputs", "histories"],
 "all requests and responses x every variable x every point of the transaction at which it may be read",
 "Each variable has one test with one fixed request.",
 [M+"variables/", M+"transaction.go"],
 [("Fetch of each variable", M+"variables/"), ("Process* setters", M+"transaction.go")], [],
 ["Variable.Fetch"])

prop("C16", "Case, whitespace and null transformations are exact on every byte string",
 """For every byte string, lowercase changes exactly the upper-case letters, removeWhitespace drops and compressWhitespace collapses to one space exactly the runs of
 ASCII whitespace, removeNulls drops and replaceNulls turns into spaces exactly the zero bytes, and none changes nothing. Every other byte, including bytes that are not valid UTF-8, is kept in its place,
 and applying removeWhitespace, compressWhitespace, removeNulls, replaceNulls or lowercase twice equals applying it once.""",
 ["inputs"],
 "all byte strings",
 "Tests use three or fewer short ASCII strings per transformation.",
 [M+"transforms/"],
 [("mapRunes", M+"transforms/map_rune.go"), ("TransCompressWhitespace", M+"transforms/compress_whitespace.go")], [],
 ["Trans.Trans", "rules with t:"])

prop("C17", "URL decoding decodes each escape once and keeps malformed ones",
 """For every byte string, urlDecode turns each %HH into its byte and + into a space in a single left-to-right pass, keeping every other byte, an incomplete or malformed escape literally and
 the output of an escape undecoded; urlDecodeUni in addition turns %uHHHH into the UTF-8 encoding of that code point, full-width ASCII (FF01-FF5E) becoming plain ASCII.
 Both are total: no input, truncated at any point, makes them fail.""",
 ["inputs"],
 "all byte strings, in particular escapes truncated or broken at every position and adjacent to each other",
 "One string per decoder is tested.",
 ["utils/urlencode.go", M+"transforms/urldecode.go", M+"transforms/urldecode_uni.go"],
 [("urldecode", "utils/urlencode.go")], [],
 ["Trans.Trans", "rules with t:urlDecode"])

prop("C18", "Numeric operators compare as integers of any size",
 """eq, ge, gt, le and lt hold between value and argument exactly as on the integers they denote in decimal, with an optional sign and surrounding blanks ignored, also for values too long for a machine
 word; a value that is not an integer counts as 0. For every value exactly one of lt, eq, gt holds, ge is the negation of lt and le the negation of gt.""",
 ["inputs"],
 "all values and arguments, including signs, leading zeros, surrounding blanks, non-numbers and numbers around the 64-bit limits",
 "Tests use a dozen small numbers.",
 [M+"operators/compare.go"],
 [("OperatorCompare.Match", M+"operators/compare.go")], [],
 ["Operator.Match", "rules with @eq ... @lt"])

prop("C19", "rx holds exactly when some part of the value belongs to the expression",
 """The rx operator holds exactly when some substring of the value is in the language of the regular expression, with ^ and $ binding to the ends of the value, case-sensitive, and
 the same expression gives the same answer every time it is asked; a pattern that does not compile is rejected when the rule is loaded, not ignored.""",
 ["inputs", "histories"],
 "all expressions (literals, classes, repetition, alternation, groups, anchors) x all values, repeated evaluation",
 "Tests evaluate a few fixed patterns.",
 [M+"operators/rx.go", "seclang/operators.go"],
 [("OperatorRx.Match", M+"operators/rx.go")], [],
 ["Operator.Match", "rules with @rx or a bare pattern"])

prop("C20", "SecLang text is split into directives and arguments exactly, or rejected",
 """For every text, scanning terminates with either the list of directives it contains or an error: words, single- and double-quoted arguments, backslash escapes inside arguments, and
 backslash line continuations (LF or CRLF) are recognised the same in every argument position and on every line layout. A text with an unknown directive, a missing or unterminated argument
 or an invalid value is rejected, never silently cut short.""",
 ["inputs"],
 "all texts: any layout (quotes, escapes, continuations, blank lines, CRLF), and any truncation or corruption of it",
 "Tests scan some twenty well-formed lines.",
 ["seclang/parser/scanner.go", "seclang/parser/utils.go", "seclang/parser/seclang_token.go"],
 [("Scanner.ReadDirective / ReadString / SkipBlank", "seclang/parser/scanner.go"), ("ReadVariables / ReadOperator / ReadActions", "seclang/parser/scanner.go")],
 [("current, buffer", "scanner position", "seclang/parser/scanner.go")],
 ["AllDirective result"])

prop("C21", "A SecRule means what it says",
 """A rule loaded from SecLang has exactly the id, phase (2 if none is written), metadata, transformations in order, operator with its argument and negation, actions, and
 variables with their inclusions, exclusions and counts that its text states; the variables written for one collection act as one selection, separately for the plain and the counting form.
 A rule that uses something unknown, unsupported or malformed is rejected with an error instead of being loaded with that part left out.""",
 ["programs"],
 "all SecRule directives over the supported variables, operators, transformations and actions, and all with one unsupported or malformed part",
 "Tests compile single fixed rules and look at one field each.",
 ["seclang/sec_rule.go", "seclang/variable.go", "seclang/operators.go", "seclang/trans.go", "seclang/actions.go", "seclang/parser/scanner.go"],
 [("apply* of DireRule and the factory tables", "seclang/")], [],
 ["the loaded SecRule", "its behaviour on requests"])

prop("C22", "A rule text loads all of its rules and chains in order, or nothing",
 """Loading a SecLang text adds its rules in text order, a rule marked chain together with the rules after it up to and including the first one not marked chain (or up to the end of the text, where no such rule follows) forming one chain that
 runs in the phase of its first rule, and its SecRuleEngine and body-access settings, the last one written winning; loading several texts (none of them ending inside a chain) is the same as loading their concatenation, and
 executing a text on several engines the same as doing so on each separately. A text with any error adds none of its directives.""",
 ["programs", "histories"],
 "all sequences of rules, chains of any length and settings, in one or several texts, with an error at any position",
 "Tests load one rule or one chain of two from one text.",
 ["seclang/rule_set.go", "seclang/rules.go", "seclang/sec_rule.go", M+"sec_rule.go"],
 [("DireSet.AddSecLangString / Execute", "seclang/rule_set.go")],
 [("chainParent", "open chain while loading", "seclang/rule_set.go")],
 ["rule set of the engine after Execute"])

prop("C23", "Transactions of one engine do not influence each other",
 """What a transaction reports depends only on the engine's rules and settings and on its own calls: any interleaving with other transactions of
 the same engine, earlier, later or on other goroutines at the same time, gives every transaction the results it has alone, and running transactions changes no rule. No two concurrent transactions
 access shared memory in a conflicting way.""",
 ["schedules", "histories"],
 "all interleavings of the steps (down to rule evaluation) of several transactions sharing an engine and its rules",
 "The tests run one transaction per engine and never concurrently.",
 [M+"transaction.go", M+"sec_rule.go", M+"variables/", M+"operators/", M+"transforms/"],
 [("all mutable state lives in the Transaction", M+"transaction.go")],
 [("RuleSet", "shared, read only while transactions run", M+"engine.go")],
 ["Result() of each transaction", "race detector"])

prop("C24", "The verdict on a request is the one its rules prescribe",
 """For every SecLang rule text and every request and response fed to a transaction, the outcome of every step (disruptive or not, status, log entries) is
 the one obtained by evaluating the text rule by rule on that traffic according to the language: variables selected, transformed, compared, chained, skipped and acted upon as written.""",
 ["programs", "inputs", "histories"],
 "all rule texts over the supported language x all requests and responses, fed in any chunking",
 "Two end-to-end examples are tested; combinations of features never are.",
 ["seclang/", M],
 [("the whole pipeline from DireSet.Execute to Transaction.Result", "seclang/, modsecurity/")], [],
 ["Result() after every step"])

prop("C25", "A SecLang rule runs in the processing step its phase names",
 """A rule written with phase 1 to 5 (or request, response, logging) is evaluated in the step of that name of the rule language: request headers, request body,
 response headers, response body, logging; in particular a phase 1 rule sees the request headers, a phase 2 rule the request body and a phase 5 rule is evaluated last.""",
 ["configurations", "histories"],
 "all phases and phase names x all histories",
 "The tests pin the present numbering of phase 2 only through a single call; no test feeds a body to a phase 2 rule.",
 ["seclang/actions.go", "seclang/parser/seclang_token.go", M+"sec_rule.go"],
 [("phase numbers taken over from the text to the engine", "seclang/actions.go")], [],
 ["the call during which the rule's variables are fetched"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
