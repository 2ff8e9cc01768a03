#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a check module is claimed."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python -B run.py"
T = {
 "C01": ("totality and step monitor", "generated, mutated and hostile texts run through parser, with a control-flow-event budget as logical clock"),
 "C02": ("source-coverage monitor", "a coverage map over the source: every entry and gap of every parse accounted for, plain and CRLF"),
 "C03": ("differential monitor, tree known by construction", "random resources rendered in random layouts; the parse must be the tree they were rendered from"),
 "C04": ("containment monitor", "files assembled from valid and broken pieces; every valid entry must come out as it parses alone"),
 "C05": ("differential monitor on diagnostics", "code, arguments, message and position of every Junk's annotation against an independent parser's first error"),
 "C06": ("span monitor", "every span compared with the source slice of its node and with an independent parser; trees with and without spans compared"),
 "C07": ("metamorphic monitor on line ends", "LF texts against the same texts with all or some line ends written CR LF"),
 "C08": ("round-trip monitor", "serialize, parse, compare for parsed and built trees, with and without Junk"),
 "C09": ("reference serializer and fixed-point monitor", "normal form against an independent serializer, across layouts, and idempotence"),
 "C10": ("object-invariant monitor", "equality, cloning and JSON of every node against structural comparison of plain data, with single-place mutants"),
 "C11": ("trace monitor on visitors", "recorded visit logs against an independent traversal; transformer results against a model edit"),
 "C12": ("differential monitor on literals", "escapes and numbers decoded by an independent scanner; parsed, built and formatted"),
 "C13": ("differential monitor between two entry points", "parse_entry against the first entry of the full parse of the same text"),
 "C14": ("differential monitor against an independent evaluator", "text, values and attributes formatted compared exactly"),
 "C15": ("selection oracle", "first match by value, name or CLDR category recomputed for every selector"),
 "C16": ("differential monitor on text and error lists", "complete error lists against an independent evaluator; totality under hostile objects"),
 "C17": ("differential monitor on scopes", "variable scoping of terms and messages against an independent evaluator"),
 "C18": ("trace invariants on isolation marks", "balance, nesting and removal of marks; isolated against plain output"),
 "C19": ("resource-bound monitor with logical clock", "cycles compared with an independent evaluator, bombs bounded in output and control-flow events"),
 "C20": ("history checker against a store model", "operation histories against a dictionary model, a fresh bundle and an independent evaluator"),
 "C21": ("history checker for purity", "call sequences over shared objects, results against evaluator and repetition, frozen copies of everything shared"),
 "C22": ("differential monitor against an exact number formatter", "string arithmetic over CLDR symbols and patterns"),
 "C23": ("differential monitor on the time line", "zone conversion redone with zoneinfo, locale text from CLDR patterns"),
 "C24": ("option-merge model monitor", "chains of wrappings against a dictionary model, earlier objects watched for change"),
 "C25": ("call-log monitor", "recorded calls of custom functions against the evaluator's list; exceptions traced by identity"),
 "C26": ("trace monitor on loading", "recorded loader and bundle events against a lazy fallback model"),
 "C27": ("concurrency stress with trace checker", "many threads, injected loader and function delays, tiny switch interval; per-thread results and load order checked"),
 "C28": ("file-access trace monitor", "opened paths recorded by audit hook, contents and order against a layout model"),
 "C29": ("conservation monitor on tokens", "concatenation, contiguity and totality on every kind of text"),
 "C30": ("differential monitor on token classes", "token classes against the independent parser's spans"),
 "C31": ("trace monitor on builds", "real git repositories, a recording stand-in for sphinx-build, published tree against a model"),
 "C32": ("differential monitor on processes", "tools run as processes on files, output against the library, files watched"),
 "C33": ("differential monitor against an independent evaluator", "chains of known, unknown and unparseable tags; every formatted kind compared for the first known tag"),
 "C34": ("call-log monitor", "instrumented FluentType subclasses record every format call; count, locale, identity and text compared with an independent evaluator"),
 "C35": ("metamorphic monitor", "one resource obtained and added in many ways; texts and errors of every pattern must be the same"),
 "C37": ("history checker against a cursor model", "random operation histories on streams; position, peek, results and errors against a model after every step"),
 "C38": ("differential monitor between processes", "batches of inputs computed in child processes set up otherwise, against this process"),
 "C40": ("complexity monitor", "step counter, processor time and traced memory compared between sizes of one shape, for every operation"),
 "C39": ("side-effect and retention monitor", "audit hook, process-state snapshots, recorded streams, weak references and allocation counts around every call"),
 "C41": ("differential monitor on subclasses", "applications' localizations, bundle classes, path rules, visitors and node classes against models of what they override"),
 "C42": ("differential monitor on calls within calls", "functions, types, loaders, bundle classes and handlers that call back while the library works, up to three deep, against the same calls made alone"),
 "C43": ("fault injection at function calls", "exceptions injected at random function starts in the library, and raised by functions, loaders, bundle classes, handlers, lists and files; every later call, some in other threads, against fresh objects"),
 "C36": ("history checker and concurrency stress", "call histories on shared objects, in one thread and in several with injected switches, against the results of fresh objects"),
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        t, note = T[i]
        checks.append({"property": i, "quick_cmd": f"{PY} {i} --tier quick", "thorough_cmd": f"{PY} {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": "runtime monitoring: " + t, "level": "exploration",
                       "level_note": f"Held on the executions counted in the evidence, no more: {note}. Trusts CPython, the reference in /verif/ref and, where named, Babel's CLDR data."})
    else:
        na.append({"property": i, "reason": "The check for this property is not finished; nothing is claimed yet."})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B -c \"import sys; sys.path.insert(0, '.'); from lib import env; env.setup(); import babel, pygments, ref.parser, ref.resolver\"",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: monitors observe the public API, sys.monitoring events and audit events from the harness. Deterministic by VERIF_SEED."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", [x["property"] for x in na])
