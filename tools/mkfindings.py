#!/usr/bin/env python3
"""Writes /verif/known-findings.json. Never run by a check: an entry is added only by editing this file."""
import json, os
FIXED = [
 ("C12", "8cf3f0e", "a form body sent with Content-Type application/x-www-form-urlencoded; a=1; a=2 was not inspected at all"),
 ("C10", "270dd5b", "write 6 bytes into a request buffer with memory limit 4: the bytes in memory were written to the spill file twice"),
 ("C10", "9ed4d75", "two Reads of 2 bytes of the body abcd both returned ab"),
 ("C11", "1e2ba50", "Close of a buffer that never spilled panicked"),
 ("C13", "c3437bd", "ARGS_POST of a multipart body after the raw body had been read was empty, and parsing moved the reading position"),
 ("C13", "f832005", "the second body variable read on a malformed multipart body panicked"),
 ("C13", "e2a4fae", "first read of the urlencoded body a=1&%zz delivered nothing, the second a=1"),
 ("C13", "0aa785a", "a multipart upload larger than the in-memory part limit left multipart-* files in the temporary directory"),
 ("C03", "f2f5299", "allow:phase in phase 1 skipped phase 2 as well"),
 ("C01", "8195bd5", "allow:request in the response body phase ran the response headers phase a second time when called again"),
 ("C07", "0b247d0", "the first rule of the next phase was evaluated over a pending deny"),
 ("C14", "ec80805", "an exact name together with a /regex/ in one selection selected nothing"),
 ("C09", "be5e090", "SecRuleEngine Off / DetectionOnly had no effect"),
 ("C07", "a9858a8", "the log entry of a deny named 403 while the transaction was denied with the pending status"),
 ("C07", "dfa60ec", "pass dropped the log entries written before it and lifted an abort"),
 ("C21", "ce582fb", "SecLang rejected the pass action"),
 ("C21", "455799d", "a rule without phase was added to no phase"),
 ("C22", "e367d80", "the directives before an error in a SecLang text were added"),
 ("C15", "4c8c66b", "REQUEST_HEADERS_NAMES was empty until a URL had been supplied"),
 ("C20", "2788dff", "the scanner hung on a backslash between arguments that does not end the line"),
 ("C16", "b8c86f6", "t:lowercase and others replaced bytes that are not valid UTF-8 by U+FFFD"),
 ("C16", "c9ca1ea", "removeWhitespace and compressWhitespace left vertical tab / form feed in place"),
 ("C17", "2f28d94", "urlDecodeUni added 0x20 to every %uFFxx, also outside FF01..FF5E"),
 ("C18", "fbdcb63", "@gt 5 did not hold for 99999999999999999999 (overflow counted as 0)"),
 ("C18", "ec34722", "9223372036854775808 counted as equal to the argument 9223372036854775807, and arguments beyond int64 were rejected"),
 ("C13", "077d850", "a body or query with more than 10000 parameters had no arguments at all"),
 ("C03", "21feb93", "skip:2 passed over one rule only"),
 ("C20", "2fc66dd", "a newline after an unquoted argument did not end the directive: the next line was taken into it"),
 ("C21", "2998130", "a comma in a quoted action argument ended the action"),
 ("C21", "4ca35f4", "selectors and exclusions that cannot be applied were ignored"),
 ("C09", "432af08", "an action that switches the engine off: the later rules of that phase were still evaluated"),
 ("C21", "d0dd921", "arguments of actions that take none were ignored"),
]
KNOWN = []
try:
    from findings_known import KNOWN
except ImportError:
    pass
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump({"fixed": ["fixed: property=%s %s %s" % f for f in FIXED], "known": KNOWN}, open(os.path.join(V, "known-findings.json"), "w"), indent=1)
