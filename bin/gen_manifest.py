#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of implemented checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
T = {
 "C01": "model-based random testing of operation histories (differential against a reference model) across nine builds of every implementation, with shrinking",
 "C02": "model-based random testing of floating point histories against plain arithmetic, bit-exact, across builds, with shrinking",
 "C03": "model-based random testing of user types with garbage padding against a value-representation model, with shrinking",
 "C04": "generated concurrent programs under a controlled random scheduler and on native threads; linearizability and conservation oracles",
 "C05": "random histories on objects placed at page edges between canaries, and with concurrent writers of adjacent bytes",
 "C06": "generated message-passing and store-buffering programs; happens-before race oracle under a controlled scheduler, plus native litmus runs",
 "C07": "generated wait/notify programs under a controlled random scheduler with a modelled futex; quiescence (lost wakeup) oracle; generated scenarios on real threads and the real kernel",
 "C08": "generated wait/notify programs with injected spurious wakeups; value-history oracle",
 "C09": "generated timed waits on a virtual clock with injected early wakeups; deadline oracle; generated scenarios on real threads and the real kernel",
 "C10": "generated multi-process and multi-mapping programs over shared memory with result and wakeup oracles; generated scenarios with real processes",
 "C11": "fault injection: every allocation point of generated programs failed in turn, quiescence and allocation-balance oracles",
 "C12": "generated configurations and types; agreement of reports, linkability and double-mapping probes",
 "C13": "generated single-expression programs judged against the documented interface table",
 "C14": "generated construction and placement programs with value and layout oracles",
 "C15": "generated programs over colliding lock-based objects for all pool sizes under a controlled random scheduler; completion oracle",
 "C16": "random histories under AddressSanitizer, UndefinedBehaviorSanitizer and memcheck",
}
ALL = [json.loads(l)["id"] for l in open(os.path.join(props.vlib.VERIF, "properties.jsonl"))]
NA = {}
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": [], "not_applicable": []}
for p in ALL:
    if p in props.CHECKS:
        m["checks"].append({"property": p, "quick_cmd": "python3 bin/check.py %s --tier quick" % p, "thorough_cmd": "python3 bin/check.py %s --tier thorough" % p,
                            "technique": T[p], "level": "exploration", "level_note": props.NOTES.get(p, "random exploration within the generators' bounds; nothing is proved")})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "no check is claimed yet")})
json.dump(m, open(os.path.join(props.vlib.VERIF, "MANIFEST.json"), "w"), indent=1)
