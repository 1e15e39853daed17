#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
TECH = "deterministic simulation with fault injection"
note = {
 "C01": "seeded allocation, stream, veto and document failures at drawn points of every call; exact block accounting of client and libyaml memory, ASan/UBSan inside the library",
 "C02": "every failing call is compared against sentinels in the caller's outputs; source blocks, input buffer, schema and configuration images hashed around every call",
 "C03": "one fault (or several) at a drawn point of an operation that was first run without it; success under a fault must equal the reference model's result, and the error must belong to the fault",
 "C04": "cyaml_save_file over a simulated disk that splits, shortens, interrupts or refuses writes, runs full, or fails at flush or close; content compared with the reference serialisation",
 "C05": "independent reference loader over libyaml's event stream decides value or first error; the same bytes delivered through buffers and through files in drawn read sizes and stdio buffer sizes",
 "C06": "histories of save, crash at drawn disk writes (torn), restart, load, resave by two client configurations; value equality and byte equality of repeated saves",
 "C07": "histories of copy, mutate, save, free over a pool of documents with allocation faults; equality, block disjointness and unchanged bystanders",
 "C08": "saved documents damaged by the simulated medium (truncated, torn, flipped bits, zeroed, spliced, garbage appended) and loaded; reference loader decides the outcome",
 "C09": "caller threads are parked and released one at a time at instrumented edges, loads and stores by a seeded scheduler, plus re-entry from allocator, log and validation callbacks; each result compared with the call run alone",
 "C10": "callback history compared entry by entry with the reference loader's, with vetoes at drawn positions and allocation faults",
 "C11": "documents with aliases against their expansion by the model and against the real library on the expanded text; allocation faults during recording and replay",
 "C12": "documents with missing optional fields against the model, mutation and release histories over the defaults, allocation faults while applying defaults",
 "C13": "allocator personalities (always-moving, garbage-filled, address-reusing, shrinking) and per-client block ownership; results equal across personalities, unset bytes zero",
 "C14": "sequences of failed, vetoed, faulted calls followed by the same call without the fault, which must repeat the fresh result in the same number of steps; step budgets for every call",
 "C15": "open, read, write and close failures at drawn points; history of opened paths, modes and closes",
 "C16": "the same operation under different log functions and levels must give the same result, allocations and steps; every message is formatted and checked; error backtraces compared with the model's path",
 "C17": "reference emitter's event list compared with the parse of the output, for drawn styles, delimiters and sink splits, file against buffer",
 "C21": "one contradiction at a drawn node of the schema (or one bad parameter) put in place for one call in a history, with and without faults; the reference loader or a walk over the value says whether the call gets there; memory, outputs and the next correct call are judged",
}
na = {
 "C18": "A pure function of two strings: no fault, schedule, stream or history for a simulator to decide. (Case rules as seen through load are part of C05, memory safety of the comparison of C01.)",
 "C19": "A constant table: no fault, schedule, stream or history is involved.",
 "C20": "A compile-time fact about preprocessor macros: nothing runs.",
}
checks = [dict(property=k, quick_cmd=f"./check.sh {k} quick", thorough_cmd=f"./check.sh {k} thorough", evidence_file=f"evidence/{k}.json",
               technique=TECH, level="exploration",
               level_note=v + ". Seeded sampling of runs, not exhaustive. Trusted: the reference models, the simulator's seams, libyaml's event parser (shared by model and library) and the sanitizers.") for k, v in note.items()]
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in na.items()],
         notes="No hooks in /repo: every seam is reached by instrumenting and re-linking the unmodified sources (see DESIGN.md). ./build/plain/sim --replay FILE re-executes a replay file.")
open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
