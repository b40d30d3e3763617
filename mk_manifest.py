"""Regenerates MANIFEST.json (kept in the repository so the claims stay in one place)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
TECH = "deterministic simulation with fault injection: "
CLAIMS = {
    "C03": ("seeded histories of loads (interpreted, compiled, mixed, injected generator failures) over simulated streams that end early or fail",
            "Seeded search, not a proof. The interpreted reader is the oracle; generator failures are injected at random line events only."),
    "C05": ("seeded histories of byte-order changes, reads, writes and stream faults over two cstruct objects",
            "Seeded search over values with boundary bias; the oracle is an independent codec model. Native byte orders excluded, as in the property."),
    "C10": ("seeded histories of expression evaluations (shared Expression objects, failing evaluations, streams that end) against a C evaluator",
            "Seeded search over generated expressions and malformed token mutations; the oracle is an independent precedence-climbing evaluator."),
    "C11": ("seeded histories of union assignments through every access path, with rejected values, failing sinks and truncated parses",
            "Seeded search; after every operation bytes and members are compared with a bit-level buffer model."),
    "C13": ("seeded histories of load()/add_type() calls with token-boundary noise, reordering, broken, conflicting and interrupted loads",
            "Seeded search; the canonically loaded definition set is the oracle. Noise inside brackets and #define lines excluded by the property."),
    "C14": ("seeded histories over several cstruct objects and instances with failing and interrupted operations",
            "Seeded search; instances are compared with snapshots, parses and defaults with a stateless reference model."),
    "C15": ("seeded thread schedules (random, PCT, round robin, bursts) over every executed library line, with dying threads and failing streams",
            "Seeded search over schedules, not exhaustive. Context switches at source lines, calls, returns and stream calls; the sequential execution is the oracle."),
    "C16": ("seeded histories of parses, dereferences, pointer arithmetic, stream moves, byte-order changes and stream faults over simulated memory images",
            "Seeded search. The reference parses the target type at the address on an independent stream and never dereferences; pointer widths 8..128 bit, unsigned."),
    "C17": ("seeded histories of constructions, assignments, rejected values, failing sinks and classes loaded in between, compared pairwise",
            "Seeded search; equality, hash and truth are recomputed field by field, dumped bytes compared with a bit-level buffer model."),
    "C18": ("seeded histories of add_field/batch/commit steps with rejected fields, broken batches, generator failures and interrupted commits",
            "Seeded search; after every successful commit the class is compared with the one-shot definition of the same fields."),
    "C09": ("seeded schedules of seeks, reads, failed reads and stream kinds on one shared simulated stream",
            "Seeded search, not a proof; positions sampled, surroundings re-randomised."),
    "C08": ("seeded simulated streams; every cut point and stream call faulted per run",
            "Seeded search, not a proof: per random definition and input the cut points and stream-call faults are enumerated "
            "(sampled above 140/70). Trusts the reference model for which bytes carry data."),
}
NA = {}
for c, why in {
    "C01": "pure function of (definition, value): no schedule, I/O fault, history or other party for the simulator to decide; the write-fault and history parts that do exist are covered by C11, C14 and C17",
    "C02": "pure function of (definition, input bytes): nothing nondeterministic to simulate; deciding it is plain input generation, a different technique",
    "C04": "static layout computation: a pure function of the definition with no execution to schedule or fault",
    "C06": "pure function of (definition, input/value) inside one call; no interleaving, fault or history in the statement",
    "C07": "array length semantics are a pure function of definition and input bytes; truncation and short reads inside arrays are decided under C08",
    "C12": "pure function of enum definition and integer value; shared enum state across parses and threads is decided under C14 and C15",
    "C19": "pure functions of byte strings and integers (hexdump, pack, swap); no time, I/O or concurrency",
    "C20": "pure text generation from a loaded definition set; no execution to schedule or fault",
}.items():
    NA[c] = why
TODO = {}
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -m dst.selfcheck",
    "checks": [{
        "property": p,
        "quick_cmd": f"/opt/venv/bin/python -m dst.runner check {p} quick",
        "thorough_cmd": f"/opt/venv/bin/python -m dst.runner check {p} thorough",
        "technique": TECH + t, "level": "exploration", "level_note": note,
    } for p, (t, note) in sorted(CLAIMS.items())],
    "not_applicable": [{"property": p, "reason": r} for p, r in sorted({**NA, **TODO}.items())],
    "notes": "No hooks in /repo are needed: the code's own seams (file-like objects passed to read/write, sys.settrace, the compiler's generator entry points) suffice. known_findings.json lists repaired and open findings; replays/ receives minimised replay files.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
have = {c["property"] for c in m["checks"]} | {n["property"] for n in m["not_applicable"]}
for i in ids:
    if i not in have:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
