#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from checks import CHECKS, LEVEL
TECH = {
    "C01": "monitored concurrent runs with an online history checker per trace (exactly-once, real-time order, prefix-extension of reads), race detector",
    "C02": "monitored event-limit workloads against an exact counting oracle, race detector",
    "C03": "monitored finish races: freeze, inclusion and duration oracles over recorded call intervals, race detector",
    "C04": "instrumented arguments that record every evaluation, under concurrent readers, race detector",
    "C05": "shadow copies of held handles and snapshots re-checked while collectors drop traces, race detector",
    "C06": "recorded creation intervals checked for identity uniqueness, order and constancy, race detector",
    "C07": "random context/prefix/region programs checked against a reference interpreter, race detector",
    "C08": "resize and creation histories checked against a reference retention model; online window checker for concurrent searches, race detector",
    "C09": "differential runs of search against a brute-force reference over a snapshot, race detector",
    "C10": "differential runs of the filter against a reference predicate",
    "C11": "differential runs of search statistics against recounting, merge algebra checks",
    "C12": "multi-searches over recording, delaying and failing searchers against a reference merge, race detector",
    "C13": "snapshot consistency monitor over searches and streams of traces being modified, race detector",
    "C14": "offline exact accounting of publish/subscribe histories, blocking monitor, race detector",
    "C15": "recorded stream messages checked against the history of calls on every trace, race detector",
    "C16": "differential runs of HTTP search against direct search; hostile request workloads; race detector",
    "C17": "recorded HTTP streams compared with a direct subscription; subscription-lifetime monitor under injected faults; race detector",
    "C18": "differential runs of random handlers with and without the middleware, trace content monitor; race detector",
    "C19": "rendered pages parsed and checked for injected markup and lost text; every link followed and compared",
    "C20": "recorded call sites compared with event stacks over every API path",
    "C21": "whole-API stress under the race detector with perturbed scheduling, panic and hang monitors",
    "C22": "recording decorators and log writers checked against the history of calls; race detector",
    "C23": "runs of the built command against monitored servers, output compared with direct multi-search and subscriptions",
    "C24": "random easy-API programs whose traces are checked against the history of calls through every observer; race detector",
    "C25": "rendered pages parsed and compared, cell by cell, link by link and line by line, with the direct search",
}
NOTE = ("Holds on every execution explored: seeded random workloads run the code built from /repo's working tree, plainly and under the race detector with injected "
        "scheduling perturbation, while independent monitors check every observation. Not exhaustive. Trusts the Go toolchain, the race detector and the reference models in harness/mon.")
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --thorough",
                           evidence_file=f"evidence/{i}.json", technique=TECH[i], level=LEVEL, level_note=NOTE))
    else:
        na.append(dict(property=i, reason="check still being built"))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the race builds rewrite copies of its files (harness/cmd/perturb) and pass them with go build -overlay. Commits in /repo are fix: commits only, listed in known-findings.json.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
