#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checked properties below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = open(os.path.join(V, "tools/checked")).read().split()
NOTE = ("Seeded search: every run executes the real, unmodified crate (and tokio, futures, lapin...) inside one process whose threads, clocks, "
        "timers, I/O and randomness the simulator controls; every violation is minimised and replays exactly. A clean batch is evidence, not proof. "
        "Trusted: the simulator, the oracle, sequentially consistent atomics.")
EXTRA = {
    "C13": " The AMQP broker is a stub speaking the real wire protocol to the real lapin client.",
    "C14": " The AMQP broker is a stub speaking the real wire protocol to the real lapin client.",
    "C15": " The AMQP broker is a stub speaking the real wire protocol to the real lapin client.",
    "C16": " The AMQP broker is a stub speaking the real wire protocol to the real lapin client.",
    "C24": " The AMQP broker is a stub speaking the real wire protocol to the real lapin client.",
    "C25": " The AMQP broker is a stub speaking the real wire protocol to the real lapin client.",
    "C20": " The AMQP broker is a stub speaking the real wire protocol to the real lapin client.",
}
for p in "C01 C02 C03 C04 C05 C06 C07 C08 C23 C26".split():
    EXTRA.setdefault(p, " Part of the runs are in memory, part over AMQP with a stub broker speaking the real wire protocol to the real lapin client.")
NA = {
    "C21": "A pure function of its input: serialization has no schedule, clock, fault or interleaving, so there is nothing for a simulation to decide (round trips are exercised incidentally by every directive run).",
    "C22": "Decided at compile time by the derive macro's counter; no schedule, clock, I/O or fault influences it, so there is nothing to simulate (runs with three operation types in concurrent use exercise it incidentally).",
}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [{"property": p, "reason": NA.get(p, "The check is not built yet.")} for p in props if p not in CHECKS]
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [{
        "property": p,
        "quick_cmd": f"./check.sh {p}",
        "thorough_cmd": f"./check.sh {p} --tier thorough --secs 600",
        "evidence_file": f"evidence/{p}.json",
        "technique": "deterministic simulation with fault injection (seeded schedule and fault search, exact replay)",
        "level": "exploration",
        "level_note": NOTE + EXTRA.get(p, ""),
    } for p in CHECKS],
    "not_applicable": na,
    "notes": "No hooks in /repo: the simulator interposes the C library and instruments atomics at compile time. Known findings: known-findings.txt.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
