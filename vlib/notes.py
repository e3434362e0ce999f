"""Texts for MANIFEST.json (tools/mkmanifest.py)."""
BUF = ("Buffer.tla is checked exhaustively by TLC for all operation sequences of the bound; all enumerated sequences (sampled by seed in the "
       "quick tier) and random ones are executed on the real request and response buffers and every return value, length and file count is "
       "validated by TLC against the specification. Bound: 5 (7) operations exhaustively, about 16 at random, bodies up to 8 KB. ")
NOTE = {
 "C10": BUF,
 "C11": BUF + "Faults are injected by renaming the spill directory away and by RLIMIT_FSIZE; nothing is claimed about a buffer after Close.",
}
FN = ("Fn.tla defines the function over byte sequences; TLC enumerates all inputs up to a length over a small alphabet with the result it "
      "predicts and every one is run on the real code, directly and through a rule compiled from SecLang text; random inputs are run and "
      "their results validated by TLC against Fn.tla. Beyond the enumeration only sampled. ")
NOTE.update({
 "C16": FN + "Cased letters outside ASCII are not generated (the code lowers them, the reference engine does not).",
 "C17": FN,
 "C18": FN + "Arguments are integers; numbers of up to 40 digits are generated.",
 "C19": "Rx.tla gives the text of a regular expression tree and its language; TLC enumerates trees and values with the predicted answer, "
        "random larger trees are validated. Flags, backreference-like extensions and named classes are outside the specified syntax.",
})
VARS = ("Vars.tla (which extends Buffer.tla) says what every variable may deliver at every moment. TLC checks its invariants over all short "
        "histories; enumerated and random transactions are executed on the real engine and every fetch, abort verdict and file count is validated "
        "by TLC against Vars.tla. ")
NOTE.update({
 "C12": VARS + "The 500 for response bodies cannot be reached through the public API (memory and total limit are the same) and is only specified.",
 "C13": VARS + "Malformed multipart bodies: only that every read gives the same, no crash, no file left, position kept.",
 "C14": VARS + "Selectors are case-sensitive exact names, as in the code.",
 "C15": VARS + "Paths, cookies and content types are generated in well-formed shape only.",
})
LANG = ("SecLang.tla specifies scanning, compiling and loading of rule texts. TLC checks on it, for all small arguments, layouts and texts, that "
        "writing and reading agree and that nothing is dropped; enumerated and random texts are loaded by the real compiler and every outcome "
        "(error or not, and what each rule then is: variables, operator, transformations, actions, observed by what they do) is validated by TLC against it. ")
NOTE.update({
 "C20": LANG + "Texts are at most a few hundred bytes; a backslash escape inside an argument is consumed, as in the code.",
 "C21": LANG + "Regular expressions are compared by behaviour on probe strings; actions the engine does not have are only required to be rejected.",
 "C22": LANG + "A dangling chain starter at the end of a text stands alone, as in the code.",
})
NOTE["C24"] = ("E2E.tla composes all the other specifications: texts are loaded, traffic is fed, every rule is evaluated on what its variables deliver and acts. TLC "
  "checks for all texts and traffics of MCE2E's pools that the step-by-step semantics equals a direct formulation of what a text prescribes, these behaviours are replayed on the "
  "real code, and random texts with random traffic in any chunking and call order are validated by TLC event by event. Phases are the engine's (see C25). Where Vars.tla leaves something open "
  "(malformed multipart, parts not supplied) any of the allowed outcomes is accepted.")
NOTE["C23"] = ("Sched.tla composes several transactions (E2E.tla each) on one engine with a scheduler; TLC checks for all interleavings of 3 (thorough: 4 and 5) transactions "
  "of the pools that every one shows what it shows alone and that the rules stay; interleavings TLC enumerates are replayed on the real engine with one goroutine per transaction, held at "
  "every rule; random schedules that also hold inside rules, free-running goroutines under the race detector and serial repetitions are run and each transaction is validated by TLC "
  "against E2E.tla as if it were alone. Data races are only found on the executions that were run.")
NOTE["C25"] = ("Steps.tla says in which call a rule runs; TLC checks that the engine specification with the numbering the rule language intends agrees with it for all call histories of the bound; random texts that "
  "name phases in every way are run on the real engine and validated by TLC. The code as it is deviates for every phase number (pinned by existing tests): one known finding per phase, exactly as observed.")
TECH = {}
NA = {}
