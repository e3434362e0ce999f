"""Known findings: genuine defects that are recorded, not repaired."""
CALL = {1: "conn", 2: "reqh", 3: "reqb", 4: "resh", 5: "resb"}
STEP = {1: "reqh", 2: "reqb", 3: "resh", 4: "resb", 5: "log"}
NAME = {"conn": "connection", "reqh": "request headers", "reqb": "request body", "resh": "response headers", "resb": "response body", "log": "logging"}
KNOWN = [{"id": "C25-phase%d" % n, "property": "C25",
          "what": "a SecLang rule of phase %d is evaluated in the %s step instead of the %s step (the phase number is taken over as the engine's; the existing tests pin it)" % (n, NAME[CALL[n]], NAME[STEP[n]]),
          "select": {"family": "steps", "scenario": {"phase": n}, "observed": [{"e": "ran", "c": CALL[n]}]}} for n in CALL]
