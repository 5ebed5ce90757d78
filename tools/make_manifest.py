#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
T = "deterministic simulation with fault injection: "
C = {
    "C01": ("seeded histories of conversions against a reference encoder, with I/O faults and crashes between and during runs", "exploration",
            "Every generated save and chain is compared with an independently written encoder; saves are sampled, not enumerated. One known exception (NaN payloads) is listed in known_findings.txt."),
    "C02": ("output path checked after every simulated file-system change and after a further power loss", "fault_enumeration",
            "Fault positions are sampled over all operations and lines of each run. Trusts the simulated file system: atomic rename, ordered journal, unsynced data lost in any prefix/sector combination."),
    "C03": ("seeded command lines, inputs and I/O faults against a reference view and encoder", "exploration",
            "Exit status and output of every run are decided by an independent model of options, JSON view and save bytes."),
    "C04": ("seeded reply streams, interrupts and faults against a model of consent", "exploration",
            "The output path is watched after every change; consent is computed from the replies actually consumed."),
    "C05": ("whole simulated file tree compared before and after runs under seeded faults", "fault_enumeration",
            "Covers every path of the simulated tree; operations outside it are refused and reported."),
    "C06": ("seeded storage damage on disk and while reading, against a strict independent container reader", "fault_enumeration",
            "Damage that recreates a valid container of another payload (checksum collision, or one that no checksum can reveal) is excluded by the independent reader."),
    "C07": ("seeded cuts, left-over bytes and unknown records, judged by conversion back to the same bytes", "fault_enumeration",
            "All record kinds of the section table are reached; positions are sampled."),
    "C08": ("seeded line- and instruction-level preemption of threads in one process", "exploration",
            "Schedules are sampled with 1-400 preemptions; atomicity is that of a bytecode instruction of the package, calls into C are atomic."),
    "C09": ("seeded call sequences with failures, interrupts and allocation failures at lines or instructions", "exploration",
            "The complete loaded document is compared after every call."),
    "C10": ("seeded in-process histories and environments, compared with the reference model and with a fresh process", "exploration",
            "Histories of up to eight operations; six locale encodings, both UUID implementations, debug switch, clock jumps, hash seeds."),
    "C11": ("resave tests over canonical, irreproducible and damaged saves with faults; verdict compared with separate conversions", "exploration",
            "Exit 0 is checked against the bytes on the simulated disk."),
    "C12": ("seeded sequences of disturbed runs followed by a clean one, compared byte for byte with an undisturbed first run; bounded steps", "fault_enumeration",
            "Up to four disturbed runs; bound of 20 times the operations of the undisturbed run."),
    "C13": ("seeded interleavings of the file operations of two or three processes with kills and power loss; shared paths checked after every change", "exploration",
            "Interleaving at system-call granularity."),
    "C14": ("line-budgeted runs over hostile inputs; interrupts and allocation failures at seeded operations and lines", "fault_enumeration",
            "Termination is bounded by lines of the package executed per input byte; work inside C functions is limited by a real-time alarm only."),
}
NA = {
    "C15": "A pure function of 16 bytes: no I/O, time, schedule, history or fault for a simulator to control. (Identifiers as they occur in saves are exercised through C01, C03 and C10.)",
    "C16": "A numeric rounding property of pure functions of their arguments; nothing for a scheduler or fault injector to vary.",
    "C17": "Depends on the game's data tables, which are not part of the repository, and on a developer script that is not shipped.",
}
m = {
    "version": 1,
    "setup_cmd": PY + " check.py --selftest",
    "checks": [
        {"property": p, "quick_cmd": f"{PY} check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough {PY} check.py {p}", "evidence_file": f"evidence/{p}.json",
         "technique": T + t, "level": l, "level_note": n}
        for p, (t, l, n) in C.items()
    ],
    "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
    "notes": "No hooks were added to /repo: every seam is a Python-level one (open/os/io, time, uuid, import, sys.monitoring). The commits in /repo are fix: commits only, see known_findings.txt.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
