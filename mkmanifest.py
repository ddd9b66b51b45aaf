#!/usr/bin/env python3
"""Writes MANIFEST.json for the checks present in vlib/checks."""
import json
import os

TRUST = "Trusted: clang sanitizers, the reference models in harness/vh and the program generator vlib/progs.py. Explores sampled inputs, so absence of violations is no proof."
NOTES = {
    "C01": ("random classes and values, deep-comparison oracle under ASan/UBSan", "Round trip of random values of random classes covering every supported pair of nested type constructors."),
    "C02": ("independent JSON parser and mapping model as oracle, ASan/UBSan", "Output of random values parsed strictly and compared with the mapping computed from the value."),
    "C03": ("structure-aware byte fuzzing under ASan/UBSan/LSan, strict parser and reference model as oracle", "Exact heap buffers detect over-reads by a single byte; validity and value decided by independent implementations."),
    "C04": ("mutated documents, error list compared with independent model", "Lists compared as multisets incl. kind, types, record, member and index."),
    "C05": ("mutated documents x fatal error sets, prefix oracle", "Behaviour with fatal kinds is checked against the observed run with none."),
    "C06": ("mutated documents, resulting object compared with independent model", "New and populated target objects."),
    "C07": ("lifetimes ended early under AddressSanitizer, content comparison", "Sources are freed or overwritten before results are inspected."),
    "C08": ("random classes and values, deep-comparison and stream-position oracle under ASan/UBSan", "Sequences of objects and values in one stream."),
    "C09": ("byte-level matcher and independent encoder as oracle", "Both directions are decided by an implementation of the format which is independent of the library."),
    "C10": ("random object graphs, isomorphism oracle with byte-level monitor", "Sharing structure compared by canonical numbering; big identifiers via hand-placed storage is not possible on this platform for writing, reading covers them."),
    "C11": ("truncation at every byte plus mutation fuzzing under ASan/UBSan, reference decoder as oracle", "Allocations are bounded so oversized lengths end in an exception."),
    "C12": ("random versioned classes, member-by-version model as oracle", "All versions of each class are written and read."),
    "C13": ("random class definitions through the real generator, behaviour compared with the definition", "Generated code is compiled and executed, not compared textually."),
    "C14": ("random headers through the real generator, symbols of the compiled code as oracle", "Presence is observed in the object file."),
    "C15": ("command line and I/O fault injection on the real generator under ASan/UBSan", "Faults: unreadable input, unwritable/full output, erroneous code."),
    "C16": ("twin classes (Boost.Hana / generated), differential oracle", "Values, documents and bytes are exchanged in both directions."),
    "C17": ("restoring into populated objects, comparison with fresh restore", "Previously shared objects are monitored for modification."),
    "C18": ("random times and notations, independent calendar model as oracle", "C++ utilities' parsing of notations is trusted only where the independent model agrees."),
    "C19": ("ThreadSanitizer plus result comparison with sequential execution", "Schedules are sampled via many rounds, random delays and thread counts."),
    "C20": ("exhaustive kinds x types x context shapes, structural message oracle", "Names are random strings."),
    "C21": ("custom containers/adapted classes/specialisations next to their standard twins, differential oracle", "Every place of use."),
    "C22": ("random macro invocations with a recording stub generator", "CMake is run for real; rebuilds observed through the recorded invocations."),
    "C23": ("stream faults at every byte and short reads under ASan/UBSan", "Fault positions enumerated for every sampled value."),
    "C24": ("differential execution of all entry points", "All overloads on the same data."),
}
LEVEL = {"C11": "fault_enumeration", "C23": "fault_enumeration"}
NA = []
here = os.path.dirname(os.path.abspath(__file__))
checks = []
for p in sorted(NOTES):
    if not os.path.exists(f"{here}/vlib/checks/{p.lower()}.py"):
        continue
    t, n = NOTES[p]
    checks.append(dict(property=p, quick_cmd=f"python3 check.py {p}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {p}", technique=t, level=LEVEL.get(p, "exploration"), level_note=n + " " + TRUST))
props = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
na = [dict(property=p, reason=r) for p, r in NA] + [dict(property=p, reason="check not built yet") for p in props if p not in [c["property"] for c in checks] and p not in dict(NA)]
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na, notes="Every check builds everything it needs (code generator, generated code, harness) from /repo's working tree; see DESIGN.md. No hooks in /repo are needed.")
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
