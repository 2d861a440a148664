"""Writes /verif/MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FE = "fault_enumeration"
EX = "exploration"
COMMON = " Sampled, not exhaustive. Trusts the simulated disk, object store and clock (dst/simos.py, dst/store.py) and the reference model and validator (dst/model.py, dst/refocfl.py)."
T = "deterministic simulation: seeded search over "
CHECKS = {
    "C01": (EX, T + "histories, names, sizes and settings on a simulated disk and object store with short transfers, every version extracted and compared with a reference model", "Random histories of up to 5 versions."),
    "C02": (EX, T + "histories, every stored object judged by an independent reference validator and the library's own", "Random histories of up to 4 versions incl. foreign objects."),
    "C03": (EX, T + "updates incl. ones failing or killed midway, earlier versions' bytes and records compared before and after", "Every earlier version directory compared byte for byte."),
    "C04": (FE, T + "injected I/O errors, full disks and short transfers at the calls of each operation, success checked against the exact result", "Every storage-changing call of small operations is failed in turn, others sampled."),
    "C05": (FE, T + "kill, torn write, I/O error, full disk and power loss points of an update, committed versions checked on what is left", "Power loss keeps a random subset of unsynced data; only for objects whose head version has its own inventory."),
    "C06": (FE, T + "kill, torn write and I/O error points, what validation then says compared with the only two acceptable contents", "Every storage-changing call of small operations is a stop point."),
    "C07": (FE, T + "stop points of one operation followed by retries and further updates, results checked against the model", "One interruption followed by up to three further operations."),
    "C08": (EX, T + "obstacles, operations and failing listings, storage compared before and after", "Obstacles of nine kinds."),
    "C09": (EX, T + "interleavings of two to four writers' storage operations (random, bursts, priority change points), some killed or failing", "Assumes atomic directory creation; object stores are excluded."),
    "C10": (EX, T + "interleavings of readers and a writer's storage operations, each reader result checked for exactness", "Writer may be killed or fail; local disk and object store."),
    "C11": (EX, T + "corruptions of stored objects (bit flips, truncation, loss, swaps, stale copies, misdirected writes) with listing order and short reads, verdict required to be invalid", "Oracle is the independent reference validator and the kind of damage."),
    "C12": (EX, T + "inventory rewrites that break a rule, resealed with matching sidecars, verdict required to be invalid", "Rules of OCFL 1.0 and 1.1 that the reference validator decides."),
    "C13": (EX, T + "conforming objects by an independent writer under varying listing order, read sizes, backends, path forms and validator reuse, verdict required to be valid and constant", "Conforming by construction and by the reference validator."),
    "C14": (EX, T + "sequences of initialize, reopen and add over layouts, parameters and backends, storage compared with a reference layout function and the added objects", "Layouts registered in this library."),
    "C15": (EX, T + "roots with valid and damaged objects and hierarchy damage, verdict and counts compared with the reference", "Repeated validation in one process included."),
    "C16": (EX, T + "operations and hostile names and inventories, every storage access recorded and confined", "Accesses are recorded by the simulated disk, nothing outside it is reachable."),
    "C17": (EX, T + "corruption before or between digest changes, later validation required to fail or the update to refuse", "Single and multiple corruptions incl. stale and swapped files."),
    "C18": (FE, T + "bag exports and imports, bag damage and I/O errors, against an independent bag reader and writer", "RFC 8493 bags; damage of every file kind."),
    "C19": (EX, T + "clock settings, jumps and time zones around and inside operations", "The clock is simulated; clients see only the simulated time."),
    "C20": (EX, T + "edit scripts against a plain map model, with failing calls, result and difference compared", "Scripts of up to 14 edits."),
    "C21": (EX, T + "padding styles, version counts near the padding limit and damaged version sequences", "Up to 120 versions per object."),
    "C22": (EX, T + "duplication patterns and settings, stored content files counted against a reference", "Objects by the library; foreign objects may already hold duplicates."),
    "C23": (EX, T + "refused, aborted and dry operations with failing calls, all storage compared before and after", "Refusal reasons listed in DESIGN.md."),
    "C24": (EX, T + "operation sequences replayed on local disk, object store and zip with different listing orders and transfer sizes, results compared", "Zip is read only."),
    "C25": (FE, T + "command lines of all tools run in the simulator, with damage and I/O errors, exit status and output compared with storage", "Tools run in process with simulated storage."),
    "C26": (FE, T + "arbitrary damage and read errors, validation must return a verdict", "Arbitrary bytes, JSON of arbitrary shape, misplaced files and directories."),
}
NA = [
    {"property": "C27", "reason": "A pure function of a string (parsing and formatting a timestamp): no concurrency, time, I/O or fault can change its result, so there is nothing for a simulator to schedule or inject. What the clock does to recorded times is C19."},
    {"property": "C28", "reason": "A pure function of identifier and parameters, with no storage, time or schedule involved, so simulation decides nothing about it. Whether objects really end up where the layout puts them is C14."},
]


def main():
    done = [c for c in CHECKS if os.path.exists(os.path.join(ROOT, "dst", "props", c.lower() + ".py"))]
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": list(NA),
         "notes": "No hooks in /repo: the simulator replaces os, open, time, datetime and the fsspec object store inside the Python process (dst/simos.py, dst/store.py). See DESIGN.md."}
    for c in done:
        lev, tech, note = CHECKS[c]
        m["checks"].append({"property": c, "quick_cmd": "./check.sh %s quick" % c, "thorough_cmd": "./check.sh %s thorough" % c,
                            "evidence_file": "evidence/%s.json" % c, "technique": tech, "level": lev, "level_note": note + COMMON})
    for c in CHECKS:
        if c not in done:
            m["not_applicable"].append({"property": c, "reason": "check not built yet"})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
