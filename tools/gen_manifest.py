#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the table of claimed checks."""
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
T = {
 "C01": ("model-based round-trip testing over generated tags and containers", "Random search; shrinks failures. The oracle is an independent encoder and strict decoder of the metadata format. One case in 64 also uses a sparse file beyond 2 or 4 GiB."),
 "C02": ("structural comparison by an independent strict parser over generated containers and write histories", "Random search. Trusts the harness's strict atom parser. The content of multi-gigabyte atoms is compared at its ends and at samples."),
 "C03": ("generated containers with chunk tables; every offset resolved to (media atom, position) before and after", "Random search plus fixed boundary cases near the limits of both table widths. Offsets into anything but top-level media data atoms are only checked against wrapping."),
 "C04": ("metamorphic testing of write histories (idempotence, history independence)", "Random search over histories of up to several writes."),
 "C05": ("generated foreign item lists; differential against an independent decoder", "Random search plus permutations of freeform parts and every type code."),
 "C06": ("exhaustive enumeration of index codes plus generated descriptors and headers", "All combinations of frequency and channel index with all stream descriptor flags and with plain and escaped object types enumerated (4096 cases); the rest random search."),
 "C07": ("structure-aware fuzzing with operation and allocation budgets (libFuzzer in the thorough tier)", "Random search plus every length lie at every atom of a reference file. Bounded means the stated budgets."),
 "C08": ("structure-aware fuzzing of the write path with byte-for-byte comparison of refused writes", "Random search plus every length lie at every atom of a reference file."),
 "C09": ("generated tags dumped and decoded by an independent strict parser; differential across writers and tags of equal metadata", "Random search plus fixed shapes."),
 "C10": ("fault injection at every I/O operation (system-call interposition and misbehaving readers and writers) against the fault-free result", "Single faults: every operation for small files, a random selection for bigger ones. No crash points inside a system call."),
 "C19": ("metamorphic testing: meaning-preserving re-encodings and access paths must give equal tags", "Random compositions of re-encodings; every single header of a complete file enumerated."),
 "C20": ("defect injection: exactly one defect per valid container against the expected error kind and value", "Random search; all versions and the lower 65536 type codes enumerated on a small file."),
 "C21": ("every cut position of generated valid files against the tag of the complete file", "All cuts of files up to 1500 bytes; boundaries and a random selection for bigger ones."),
 "C22": ("fault injection with payload-carrying I/O errors and defect generation; errors compared with what was injected", "Every kind of I/O error and every one-byte value enumerated; the rest random search over defects, faulty operations and built errors."),
 "C23": ("stateful testing of calls by path in generated directory trees; differential against in-memory files, snapshots of the whole tree", "Every one-byte file name and a list of suspicious names enumerated; trees, paths and histories by random search."),
 "C24": ("stateful and schedule testing: histories of calls repeated, nested in one another's I/O and interleaved on threads by generated schedules, compared with each call alone and with an independent parser", "Histories, fault points and schedules by random search; threads switch at I/O operations."),
 "C25": ("property-based testing of equality and copies against structural equality of a model, on equal, nearly equal and unrelated pairs", "All pairs of enumeration values and of types enumerated; tags and changes by random search."),
 "C26": ("metamorphic cost testing: huge atoms without a meaning inserted into generated containers; transferred bytes, operations and memory metered against a budget computed without them", "Random search. Budgets allow 32 KiB per atom, so costs below that are not noticed."),
 "C11": ("model-based stateful testing: random operation histories against an ordered-multimap reference model", "Random search over histories; every view and mutable view compared after each operation."),
 "C12": ("table-driven generation: every named accessor against a reference model on arbitrary prior content", "Random search; the accessor table (identifier, type) is written from the documentation."),
 "C13": ("model-based stateful testing of track and disc number histories over arbitrary stored values", "Random search over histories."),
 "C14": ("model-based stateful testing of genre histories; every 16-bit code enumerated", "All 65536 codes enumerated; histories by random search."),
 "C15": ("exhaustive enumeration of codes against documented tables, through tags, dumps and files", "All 256 codes of each enumeration; the rest random search."),
 "C16": ("invariants over generated values; stored length compared with an independent strict parser of a dump", "Random search."),
 "C17": ("generated tags and files; display output compared with blocks expected from the getters", "Random search."),
 "C18": ("generated identifier pairs against byte-level equality; algebraic laws of the comparisons", "Random search biased to near-equal pairs."),
}
extra = os.path.join(root, "tools", "manifest_extra.json")
if os.path.exists(extra):
    T.update({k: tuple(v) for k, v in json.load(open(extra)).items()})
src = ""
for f in sorted(os.listdir(os.path.join(root, "harness/src/props"))):
    src += open(os.path.join(root, "harness/src/props", f)).read()
level = dict(re.findall(r'id: "(C\d\d)".*?level: "(\w+)"', src, re.S))
checks, na = [], []
for i in ids:
    if i in T and i in level:
        checks.append({
            "property": i,
            "quick_cmd": f"bash check.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": T[i][0],
            "level": level[i],
            "level_note": T[i][1],
        })
    else:
        na.append({"property": i, "reason": "its check is not built yet"})
m = {
    "version": 1,
    "setup_cmd": "bash build.sh",
    "hooks": {"guard": "none", "enable": "the checks use the public API only; /repo has no hooks", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "known-findings.txt lists the repaired defects; nothing is suppressed. VERIF_SEED seeds every random choice.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
