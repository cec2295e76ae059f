#!/opt/venv/bin/python
"""Write MANIFEST.json from the list below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIFF = "differential runtime monitoring of generated histories"
SCHED = "real threads under a controlling scheduler"
CHECKS = {
    # id: (technique, level, note)
    "C01": (DIFF + ", resource read independently after every call", "exploration",
            "Random programs on all 18 classes; the resource is compared with a plain model after every mutating call."),
    "C02": (DIFF + " with changes behind the collection's back", "exploration",
            "Old-value x new-value transition matrix at several depths plus random histories; the first read after each outside change is compared."),
    "C03": (DIFF + " against built-in dict and list", "exploration",
            "Result, exception class, content and resource are compared after every call, incl. raising ones, plus a comparison matrix."),
    "C04": (DIFF + " through several objects and retained children", "exploration",
            "Random histories with 2-3 objects per resource; every handle is compared with one shared model."),
    "C05": (DIFF + " inside nested buffered contexts; file state monitored", "exploration",
            "Files must not change while buffered and must equal the model at the outermost exit."),
    "C06": (DIFF + " with several objects per file in buffered contexts", "exploration",
            "Reads through any object are compared with one model; random exit orders."),
    "C07": ("enumerated conflict scenarios with monitored flushes", "fault_enumeration",
            "Changed/unchanged x modified/read/untouched per file, outside-change styles, context kinds and orders are enumerated for up to 2 files and sampled beyond."),
    "C08": ("crash injection at instructions, libc calls and write prefixes; kill stress", "fault_enumeration",
            "Files are read at every bytecode instruction of a save and after real process deaths at libc calls of the save."),
    "C09": (SCHED + "; results and files compared with all serial orders (linearizability)", "exploration",
            "Real threads under a controlling scheduler preempting at library lines/instructions and lock operations; every single preemption of some programs, sampled multiple ones."),
    "C10": ("fault injection with instrumented locks; deadlock detection under a controlling scheduler", "fault_enumeration",
            "Every file call, (de)serialization call, damaged file and rejected value of sampled operations; then lock ownership is inspected and another thread must complete."),
    "C11": ("enumerated rejected values through every entry point; state compared before and after", "exploration",
            "Entry point x target position x bad value x position inside the argument, for each class."),
    "C12": ("round-trip monitoring of enumerated and random values", "exploration",
            "Values through every entry point are read back by a new object, type-strict. Two limits of BSON are known findings."),
    "C13": (SCHED + " inside backend-wide buffered contexts of any capacity", "exploration",
            "Errors, every file (against serial orders of its operations) and the buffer size are checked for every schedule."),
    "C14": (SCHED + " with readers; every read must be explained by a serial order that respects real time", "exploration",
            "Readers and writers on one file, unbuffered and buffered, same and different objects, root and nested handles."),
    "C15": (DIFF + " with the buffer size recomputed after every call", "exploration",
            "Reported size, capacity bound, restoration of capacities and contents are compared after every call."),
    "C16": ("aliasing monitor: everything passed in or returned is mutated afterwards", "exploration",
            "Collection and resource must not change when arguments or results are mutated."),
    "C17": ("write monitor (audit events, store counters, fingerprints) around reads", "exploration",
            "Programs of reads and context entries on every class must not write anything."),
    "C18": ("tree walks and attribute/item differential programs", "exploration",
            "Every node reachable after every step has a class of the family; attribute syntax is compared with item syntax."),
    "C19": ("history-independence monitor: outcomes compared with a fresh process", "exploration",
            "Validators, resolvers and collections are exercised in different orders in forked processes."),
}
PENDING = "check not built yet"


def main():
    props = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
    m = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -c 'import synced_collections, numpy, zarr, bson, redis'",
        "checks": [
            {
                "property": p, "quick_cmd": f"./run.py {p}", "thorough_cmd": f"./run.py {p}",
                "evidence_file": f"evidence/{p}.json", "technique": CHECKS[p][0],
                "level": CHECKS[p][1], "level_note": CHECKS[p][2],
            }
            for p in props if p in CHECKS
        ],
        "not_applicable": [{"property": p, "reason": PENDING} for p in props if p not in CHECKS],
        "notes": "No hooks in /repo are needed: monitors attach from outside to the imported working tree. "
                 "See DESIGN.md.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
