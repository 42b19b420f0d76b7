"""Writes MANIFEST.json from the list below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = (
    "Seeded search over simulated executions of the real code: no violation on everything explored, not a proof. "
    "Trusts the stand-ins named under stub_components in the evidence file (file system, object store, Beam and pathos runners, "
    "sketch library) and the oracle. "
)
NOTES = {
    "C01": "Kills, torn writes, power loss and Ctrl-C at generated operations; oracle: an undisturbed run from scratch.",
    "C02": "Interleavings, bundle splits, retries and duplicates; oracle: every trial alone in a fresh process.",
    "C03": "Histories of runs with crashes and edited designs; oracle: stored bytes and fit records.",
    "C04": "I/O errors, full disks, short writes, refused and lost object-store requests; oracle: an undisturbed run.",
    "C05": "Pending entries watched at every fit and at the end of every evaluation, across crashes.",
    "C06": "Models that fail in generated ways, exceptions inside the sketch library; oracle: runs in which nothing fails.",
    "C07": "Noise observed at the noisers themselves against the reported use; bucket arithmetic against a sweep over user positions.",
    "C08": "Points observed at the model and at the ground truth, across modes, strategies and interleavings.",
    "C09": "Histories of data design operations by several processes with faults and restarts; oracle: a dictionary.",
    "C10": "Both file system wrappers under the same generated operation histories with faults; oracle: a dictionary.",
    "C11": "Designs whose trials differ in one or more parameters, edited over one intermediates directory; oracle: every trial alone.",
    "C12": "The same generation or evaluation under different clocks, pids, hash seeds, listing orders, global generators and working directories.",
    "C13": "Modes, interleavings and crashes; oracle: a reference model that recomputes every row from the stored impressions and the recorded predictions.",
    "C15": "Histories of generations with kills and storage faults; oracle: the configuration, and what the impression and pricing generators returned.",
    "C14": "Injected noise values, modes and interleavings; oracle: the estimate recomputed from the stored impressions and the noise, consistency of Venn diagrams.",
}
NA = {
    "C20": "A pure function of its arguments: no scheduling, time, I/O or second party for a simulated execution to vary.",
    "C21": "A pure function of in-memory publisher data: no scheduling, time, I/O or second party to vary.",
    "C22": "Numerical curve fitting on given points: no scheduling, time, I/O or second party to vary (the seed dependence of the fit is C12).",
}
built = [p for p in sorted(NOTES) if os.path.exists(os.path.join(here, "sim/props/%s.py" % p.lower()))]
doc = {
    "version": 1,
    "setup_cmd": "bin/setup",
    "checks": [
        {
            "property": p,
            "quick_cmd": "bin/check %s" % p,
            "thorough_cmd": "VERIF_TIER=thorough bin/check %s" % p,
            "technique": "deterministic simulation with fault injection",
            "level": "exploration",
            "level_note": COMMON + NOTES[p],
        }
        for p in built
    ],
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]
    + [{"property": p, "reason": "check under construction"} for p in sorted(NOTES) if p not in built],
    "notes": "No hooks in /repo: every seam is at the standard library, cloudpathlib's storage client, or a stand-in module. "
    "Replay a violation with bin/check --replay <file>. Determinism self-test: bin/check --selftest 20.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
