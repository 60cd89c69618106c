"""Writes MANIFEST.json (run by hand after changing what is claimed)."""
import json
import os

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: seeded histories of API calls, "
N = ("Seeded sampling: what was explored held; nothing is proved for the rest. Trusts the independent RP66 parser, the reference "
     "model of the specification and the seams listed in DESIGN.md. ")
C = {
 "C01": ("short and stalled writes, disk errors and crashes; independent framing parser over every file a write left",
         "Every byte of every successfully written file is accounted for by a strict parser written from the standard."),
 "C02": ("short and stalled writes; reassembly compared with the model and with runs that cut the same records differently",
         "Record sequences are also compared between runs that differ in maximum record length, chunk size and write results only."),
 "C03": ("chunked source reads, allocation and HDF5 failures, retries; rows compared bit for bit with a reference model",
         "Rows are decoded with the codes and dimensions the file declares and compared with bytes computed from the caller's arrays."),
 "C05": ("assignments at creation and later, rewrites, clock and time-zone changes; decoded attributes compared with a reference model",
         "Every attribute of every object is compared, set and not set."),
 "C07": ("renames, rejected calls, several files and origins; identities and references resolved within each logical file",
         "Each reference is compared with the object passed and must name exactly one object."),
 "C08": ("changing data and casts between rewrites; descriptors compared with the rows as written, knowing only the file and from the model",
         "Both a file-only reader and the model judge the layout."),
 "C09": ("objects added in any order over several logical files, header changes, rewrites; order of records checked",
         "Structure of each logical file is checked record by record."),
 "C10": ("write chunking, short/stalled writes and crashes after any flush; byte comparison between runs and prefix check after every flush",
         "The same program is rerun with other chunk sizes and compared byte for byte; on-disk content is inspected after every flush and after a crash."),
 "C11": ("the same program rerun with the data supplied in another way; byte comparison plus reference model",
         "Dict, inline, structured array, HDF5 and pre-sliced variants of one program are compared byte for byte."),
 "C12": ("inputs that cannot be represented and failing storage, memory and sources; a write that returns must have produced the modelled file",
         "The strict reader and the model judge every write that returned normally, whatever was injected."),
 "C13": ("row windows, casts and data changing between writes; index metadata compared with the rows as written",
         "Spacing is judged with the documented tolerance; values between clearly uniform and clearly not are not judged."),
 "C14": ("process histories, failed and interrupted writes, user threads; each file compared with one from a fresh process",
         "The fresh process has another hash seed and only ever builds the one specification."),
 "C16": ("short and stalled writes, faults and rewrites; payloads compared with a reference model",
         "Payload bytes, order and the object referred to are compared."),
 "C17": ("entering and leaving the mode normally, by exception, interrupt and nested, with breaches; checks of mode, rejections, warnings and files",
         "The mode is process-wide by design; threads using it concurrently are not generated."),
 "C18": ("several frames and logical files built interleaved, in threads, with slow writes; content attributed to its owner by the model",
         "Rows and objects carry values that identify their owner."),
 "C19": ("failing, interrupted and successful writes; fingerprints of everything the caller passed, before and after",
         "Arrays of every layout, their bases, the dict, the structured array and the HDF5 file's bytes are fingerprinted."),
 "C20": ("rejected calls, failing writes; comparison with the same history without them",
         "Calls are rejected at argument checks; writes fail for disk, memory, source and interrupt faults at seeded points."),
}
NA = {
 "C04": "A pure function of each explicitly formatted record's content: no schedule, clock, fault, retry or history enters into the "
        "grammar of a record, so simulation adds nothing over generating inputs. Malformed records in simulated files are still reported, under C12.",
 "C06": "Encoding one value is a pure function of the value and the code, with no time, I/O, concurrency or fault in it. What history "
        "could do to it (memoised bytes, time zone) is decided under C14 and C05.",
 "C15": "Writability as a function of byte sizes is a pure function of the input; no schedule, fault or clock is involved. Writes of "
        "valid specifications that raise in simulation are reported under the properties whose output they deny.",
}
m = {"version": 1, "setup_cmd": "python3 check.py selftest",
     "checks": [{"property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough",
                 "evidence_file": f"evidence/{p}.json", "technique": T + t, "level": "exploration", "level_note": N + n}
                for p, (t, n) in C.items()],
     "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
     "notes": "No hooks in /repo: every seam is one the library already has (see DESIGN.md). Defects found are repaired by fix: commits "
              "and listed in known_findings.txt. Replay a violation with: python3 replay.py <file>."}
with open(os.path.join(H, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
