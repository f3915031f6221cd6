"""Writes MANIFEST.json."""
import json, os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HIST = "stateful property-based testing: generated operation histories against a model, with shrinking"
DIFF = "property-based differential testing against an independent reference implementation"
PBT = "property-based testing: generated inputs against an explicit oracle, with shrinking"
CLI = "property-based testing of the real binary in scratch directories, outcome recomputed with the library"
T = {
    "C01": HIST,
    "C02": "property-based statistical testing: generated filters, rate of false positives against a 6.5 sigma bound",
    "C03": HIST,
    "C04": HIST,
    "C05": "property-based testing: round trips over generated streams, then lockstep histories",
    "C06": DIFF,
    "C07": DIFF,
    "C08": "property-based testing: algebraic laws and bitwise comparison on generated filters",
    "C09": "property-based testing: algebraic laws and bitwise comparison on generated filters",
    "C10": "structure-aware fuzzing of filter files in a memory-limited process",
    "C11": "fault injection at every offset of the stream for generated filters, and file size limits for the tool",
    "C12": PBT,
    "C13": HIST,
    "C14": PBT,
    "C15": PBT,
    "C16": HIST,
    "C17": CLI,
    "C18": "property-based testing of the real binary with injected bad inputs, byte-wise directory snapshots",
    "C19": CLI,
    "C20": CLI,
    "C21": CLI,
    "C22": "property-based differential testing: call sequences in Python and in the library",
    "C23": HIST,
    "C24": PBT,
    "C25": "metamorphic property-based testing: differently filled filters compared bit by bit",
    "C26": CLI,
    "C27": PBT,
    "C28": "stateful property-based differential testing: every history through two interfaces at once",
}
NOTE = {
    "C02": "Random sample of configurations; a rate increase below about 20 percent is within the tolerance of the property.",
    "C11": "Every offset for generated small filters, sampled offsets for large ones; one fault per run.",
    "C21": "Rates are compared statistically (8 standard deviations).",
    "C23": "Random histories; the thread suite explores the schedules the machine produces, readers only.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [
        {
            "property": i,
            "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "python3 check.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": T[i],
            "level": "fault_enumeration" if i == "C11" else "exploration",
            "level_note": NOTE.get(i, "Random exploration of the stated domain with boundary-biased generators: no proof, but every case is decided by an explicit oracle and a failure comes with a minimal replay file."),
        }
        for i in ids
    ],
    "not_applicable": [],
    "notes": "check.py rebuilds from /repo in two flavours (release, and release with overflow checks and debug assertions). No hooks in /repo; its commits are repairs (fix:).",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
