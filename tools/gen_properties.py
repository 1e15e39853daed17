#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the long text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, tests, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=tests,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    P.append(d)

L, S, C, F = "src/load.c", "src/save.c", "src/copy.c", "src/free.c"
H = "include/cyaml/cyaml.h"

prop("C01", "No leak, double free or invalid access on any path, whatever fails",
 "Every load, save, copy and free call touches only memory it may touch, and when it returns, every block it obtained is either reachable from the data it handed to the caller or has been given back exactly once. "
 "This holds on success and on every failure: any allocation refused inside the client's allocator or inside the YAML library, any stream error, any rejected document, any callback veto. "
 "cyaml_free on a document produced by load or copy returns all of that document's memory.",
 ["fault_sequences", "inputs", "histories"],
 "For all schemas, documents and operation histories, and for every choice of which allocation, I/O operation or callback fails during them.",
 "The alloc-failure unit test fails allocations of two fixed documents and ignores libyaml's own; leaks on other schema shapes, error kinds or combinations are never sampled.",
 [L, S, C, F, "src/mem.h", "src/data.h"],
 [("state stack and recording clean-up on every exit", "src/load.c:cyaml__load"),
  ("recursive release by schema", "src/free.c:cyaml__free_value"),
  ("release of a half-built copy", "src/copy.c:cyaml_copy"),
  ("output buffer release on failure", "src/save.c:cyaml_save_data")],
 [("client data tree", "blocks reachable from *data_out through the schema", "src/load.c"),
  ("anchor recording", "events and names held for alias replay", "src/load.c:cyaml_event_record_t")],
 ["mem_fn calls", "libyaml malloc/free calls", "returned data"])

prop("C02", "A failed call leaves everything the caller owns untouched",
 "When load, save_data or copy returns an error, the caller's output pointers, counts and lengths hold exactly what they held before the call. "
 "Successful or not, no call modifies the data it saves or copies, the input buffer it parses, the schema, or the configuration; a load never modifies the file it reads.",
 ["fault_sequences", "inputs", "histories"],
 "For all documents, schemas and parameters, and every point at which an allocation, a stream operation, the document itself or a callback makes the call fail.",
 "Unit tests compare outputs against NULL on a few dozen fixed error documents; they never fail half-way through a document by fault, nor check that sources stay bit-identical.",
 [L, S, C],
 [("outputs assigned only at the end", "src/load.c:cyaml__load"),
  ("outputs assigned only at the end", "src/save.c:cyaml_save_data"),
  ("copy built aside, then published", "src/copy.c:cyaml_copy")], None,
 ["caller's output arguments", "source data image", "input buffer image"])

prop("C03", "A fault is never turned into a wrong success",
 "If an allocation fails or a stream read, write, open or close fails during a call, the call either still produces exactly the result it would have produced without the fault, or returns an error; it never returns success with missing, truncated or altered data. "
 "The error matches what happened: a refusal by the client's allocator is reported as out-of-memory, a file that cannot be opened as a file-open error, and a fault is never reported as a problem with the document's content.",
 ["fault_sequences", "inputs"],
 "For every operation on every document and schema, and every position and combination of failing allocations and stream operations.",
 "Only allocation failure on a load and save of one document is sampled, and only for 'some error'; stream errors are never injected.",
 [L, S, C, "src/mem.h"],
 [("every allocation checked, CYAML_ERR_OOM propagated", "src/mem.h:cyaml__realloc"),
  ("parser failure surfaced", "src/load.c:cyaml_get_next_event"),
  ("emitter failure surfaced", "src/save.c:cyaml__emit_event_helper"),
  ("buffer growth failure surfaced", "src/save.c:cyaml__buffer_handler")], None,
 ["return code", "returned data", "file content"])

prop("C04", "save_file reports success only when the whole document is stored",
 "When cyaml_save_file returns success, the file's content is exactly the complete serialised document, whatever the file held before, and however the storage split, shortened, interrupted or refused the individual writes. "
 "If any byte could not be stored - including bytes refused only when buffered output is flushed or the stream is closed - the call returns an error.",
 ["fault_sequences", "crash_points", "inputs"],
 "For all documents and all sequences of short writes, interrupted writes, full disk at any byte, I/O error at any write, and failure at close.",
 "The unit tests save to an ordinary always-working file; no write has ever failed, been short, or run out of space in them.",
 [S],
 [("output stream set-up and close", "src/save.c:cyaml_save_file"),
  ("emitter flush", "src/save.c:cyaml__save")], None,
 ["simulated disk content", "return code"])

prop("C05", "Loading gives exactly what document and schema say, however bytes arrive",
 "Loading a YAML stream either fills the client's data with exactly the values the schema assigns to the document's nodes, or fails with the error for the first node the schema or YAML syntax rejects: types, widths, ranges, lengths, entry counts, enum/flag/bitfield names, strictness, case rules, null handling, unknown, duplicate, ignored and missing keys, and documents after the first. "
 "The outcome depends only on the bytes, schema and configuration: loading from a file and from a buffer agree, for every way the file's bytes can be split into reads and whatever the process's locale or the errno it left behind.",
 ["inputs", "configurations", "schedules"],
 "For all schemas, configurations and byte streams, and all read fragmentations of the stream.",
 "Unit tests fix ~400 (schema, document) pairs, all from memory in one piece; interactions of nesting, widths, counts, pointers and input fragmentation are unbounded.",
 [L, "src/data.h", "src/util.h", "src/utf8.c"],
 [("state/event dispatch", "src/load.c:cyaml__load_event"),
  ("value readers and constraint checks", "src/load.c:cyaml__read_value"),
  ("mapping field bookkeeping", "src/load.c:cyaml__mapping_bitfieid_validate"),
  ("sequence growth and count", "src/load.c:cyaml__seq_entry")], None,
 ["returned data compared with an independent reference loader", "return code"])

prop("C06", "What was loaded and saved can be restored, also after crash and restart",
 "Data that satisfies its schema - obtained by loading, copying, or mutation within the schema's constraints - loads back, once saved, equal to what was saved (modulo absent optional fields taking their schema default), through a file or a buffer, any number of times; repeated save/load cycles change nothing. "
 "If the process dies in the middle of saving, a restarted client reading the file finds either the complete document or a prefix that loads exactly as that prefix alone says; saving again afterwards fully restores the document.",
 ["histories", "crash_points", "inputs", "configurations"],
 "For all schemas, values, style settings, and histories of load, save, copy, mutate, crash and restart operations, with a crash at any write.",
 "Round trips in the unit tests are single-step for fixed values, and no test has a torn file or a restart.",
 [L, S, C],
 [("canonical scalar text of each type", "src/save.c:cyaml__write_scalar_value"),
  ("flags and bitfield text", "src/save.c:cyaml__emit_flags_sequence"),
  ("NULL and absent handling", "src/save.c:cyaml__write_mapping"),
  ("scalar parsing", "src/load.c:cyaml__read_scalar_value")], None,
 ["reloaded data", "disk content after a simulated crash"])

prop("C07", "A copy is complete, deep and independent of its source",
 "cyaml_copy of any document that load can produce, as long as no required pointer in it is NULL, succeeds (absent faults) and yields a document equal to the source in every field, which shares no memory with it. "
 "Changing or freeing either one, in any order, does not affect the other, and copies of copies are again equal; when a copy fails nothing of it remains.",
 ["inputs", "histories", "fault_sequences"],
 "For all schemas and loadable documents, all interleavings of copy, mutate, save and free on source and copies, and every failing allocation inside the copy.",
 "copy.c's tests clone fixed flat structures once; nested fixed sequences, NULL pointers, empty sequences and copy/free histories are not covered.",
 [C, F],
 [("cloning state machine", "src/copy.c:cyaml__clone_value"),
  ("allocation sizing", "src/copy.c:cyaml__data_handle_pointer"),
  ("failure clean-up", "src/copy.c:cyaml_copy")], None,
 ["block sets of source and copy", "values after mutating or freeing one side"])

prop("C08", "Damaged or truncated input is rejected or loads as conforming data",
 "For any byte stream whatsoever - a saved document that was truncated, torn, bit-flipped, partly zeroed, spliced or followed by garbage - a load terminates and either returns an error or returns data that satisfies every constraint of the schema and equals what those bytes say. "
 "It never crashes, hangs, reads or writes outside its memory, or leaks.",
 ["inputs", "fault_sequences", "crash_points"],
 "For all schemas and all corruptions of stored documents, delivered through any read fragmentation.",
 "Error tests use a handful of hand-written bad documents; storage damage at arbitrary offsets is not sampled.",
 [L, F],
 [("event dispatch rejects unexpected events", "src/load.c:cyaml__load_event"),
  ("constraint checks before stores", "src/load.c:cyaml__store_string"),
  ("entry count limits", "src/load.c:cyaml__seq_entry"),
  ("partial data release", "src/load.c:cyaml__load")], None,
 ["return code", "returned data checked against schema and reference loader"])

prop("C09", "Concurrent and re-entrant calls do not affect each other",
 "Operations running at the same time in different caller threads on different data, or started from inside a client callback (allocator, log or validation function) of another operation, each give exactly the result they give when run alone. "
 "This holds for every interleaving of load, save, copy and free calls, including when they share the same constant schema and configuration and when some of them fail.",
 ["schedules", "programs", "fault_sequences"],
 "For all sets of per-thread operation sequences and all preemption points inside the library, and all callback points at which a nested call starts.",
 "All unit tests are single threaded and no callback re-enters the library.",
 [L, S, C, F, "src/util.c", "src/utf8.c"],
 [("all mutable state in per-call context", "src/load.c:cyaml_ctx_t"),
  ("per-call scalar formatting buffers", "src/save.c:cyaml__get_int")], None,
 ["per-operation results compared with their serial runs"])

prop("C10", "Validation callbacks see every loaded value once and can veto at any point",
 "During a load, the client's validation callback is called for each loaded value whose schema has one, in document order, once per value (again for each alias expansion, never for nulls), with the client's context, the value's schema and the completed value: the number, the string, the finished mapping, or the start of the sequence's entries with their count. "
 "If any callback rejects, the load fails as an invalid value with everything rolled back, wherever in the document that happens; values of rejected type or range never reach a callback.",
 ["inputs", "fault_sequences"],
 "For all schemas with callbacks on any subset of values, all documents, and a veto at any callback invocation.",
 "Callback tests accept or reject a single field of a single flat mapping; order, multiplicity, argument state and mid-document veto are not covered.",
 [L],
 [("scalar validators", "src/load.c:cyaml__store_int"),
  ("mapping validator after defaults", "src/load.c:cyaml__map_end"),
  ("sequence validator at end", "src/load.c:cyaml__seq_end")], None,
 ["history of callback invocations", "return code"])

prop("C11", "An alias loads as a fresh copy of its anchored node",
 "A document with anchors and aliases loads exactly as the document with every alias replaced by the text of the most recent preceding node carrying that anchor, for scalars, sequences and mappings, nested anchors, redefined anchors, aliases inside anchored nodes, flags, bitfields and ignored values; each expansion gets its own memory. "
 "An alias with no completed anchor is rejected, and with aliases disabled any alias is rejected while anchors are ignored.",
 ["inputs", "fault_sequences", "configurations"],
 "For all documents and all placements, nestings and redefinitions of anchors and aliases, with allocations failing anywhere in recording and replay.",
 "About twenty fixed anchor documents are tested; recording/replay interplay (nested, redefined, anchor inside replay) is combinatorial.",
 [L],
 [("event recording", "src/load.c:cyaml__handle_record"),
  ("anchor completion", "src/load.c:cyaml__record_stack_pop"),
  ("event replay", "src/load.c:cyaml__handle_replay"),
  ("anchor lookup", "src/load.c:cyaml__handle_alias")],
 [("recorded events", "events kept for replay, shared by nested anchors", "src/load.c:cyaml_event_record_t")],
 ["returned data of aliased and expanded document"])

prop("C12", "Missing optional fields get independent deep defaults, all or nothing",
 "When an optional field is absent, the loaded data holds the schema's default for it - scalars, strings, mappings, sequences and fixed sequences, embedded or by pointer, with the entry count set - or zero/NULL where the schema gives none; fields that are present are never overwritten by defaults. "
 "Each application makes its own deep copy: modifying or freeing the loaded document never affects the schema's default or another document, and a failure while applying a default fails the load with nothing leaked.",
 ["inputs", "configurations", "fault_sequences", "histories"],
 "For all schemas with defaults at any depth, all subsets of absent fields, and every failing allocation while applying them.",
 "Default tests cover one field per type on success only; combinations, deep values, independence and failure inside default application are not exercised.",
 [L, C],
 [("default application", "src/load.c:cyaml__field_apply_default"),
  ("scalar defaults", "src/load.c:cyaml__field_scalar_apply_default"),
  ("deep copy of default", "src/copy.c:cyaml_copy")], None,
 ["returned data", "default values in the schema before and after"])

prop("C13", "Client memory comes and goes only through the client's allocator",
 "All memory the library keeps or hands to the client is requested, resized and released only through the configuration's allocation function with its context pointer; a size of zero means release, a refused resize leaves the old block valid, and blocks never pass to another allocator. "
 "Results do not depend on allocator behaviour: a resize that always moves the block, fresh memory full of garbage, or reuse of recently freed addresses make no difference, and unset parts of returned data read as zero.",
 ["configurations", "inputs", "fault_sequences"],
 "For all documents and operations and all legal allocator behaviours (moving, garbage-filled, reusing, failing at any call).",
 "Unit tests use plain realloc, which rarely moves blocks and usually hands out zeroed pages.",
 ["src/mem.h", "src/mem.c", L, S, C, F],
 [("single allocation entry point", "src/mem.h:cyaml__realloc"),
  ("zeroing of grown memory", "src/mem.h:cyaml__realloc"),
  ("stack base refreshed after growth", "src/load.c:cyaml__stack_ensure")], None,
 ["history of mem_fn calls", "results under different allocator behaviours"])

prop("C14", "No hidden state: a failed call can be retried, and every call ends",
 "The outcome of a call depends only on its arguments and the streams and callbacks it uses, not on errno, the locale or earlier calls: after any number of failed, vetoed or abandoned calls, repeating a call without the fault gives the same result as if nothing had happened before. "
 "Once faults stop, each call completes within a bounded number of steps proportional to its work, and no fault makes a call loop.",
 ["histories", "fault_sequences", "schedules"],
 "For all histories of operations and faults.",
 "Each unit test starts from fresh state in a fixed order and never retries after a mid-operation failure.",
 [L, S, C, F],
 [("per-call contexts, no globals", "src/load.c:cyaml__load"),
  ("per-call contexts, no globals", "src/save.c:cyaml__save")], None,
 ["result of retried call", "step count"])

prop("C15", "Every file opened is closed exactly once, whatever happens",
 "A file load or save opens at most the one file named by its path - for reading only in a load, for writing a fresh file in a save - and closes it exactly once before returning, on success and on every kind of failure. "
 "A call that fails before opening the file does not touch it, and a file that cannot be opened gives a file-open error with nothing leaked.",
 ["fault_sequences", "inputs", "histories"],
 "For all file operations and all failures of open, read, write, close, allocation, document or parameters.",
 "Tests do not observe stream handles and only exercise an unopenable path.",
 [L, S],
 [("open/close pairing in load", "src/load.c:cyaml_load_file"),
  ("open/close pairing in save", "src/save.c:cyaml_save_file")], None,
 ["fopen/fclose history"])

prop("C16", "Logging only observes, respects its level, and locates load errors",
 "Results, data and memory behaviour of every call are the same with no log function and with any log function and level. "
 "The log function receives the client's context, exactly those of its messages that are at or above the configured level, and well-formed format arguments; a call that succeeds undisturbed logs nothing at the error level, and with CYAML_CFG_IGNORED_KEY_WARNING a warning names every key whose value is ignored; when a load fails because of the document, an error-level message is issued - for a wrong value, key, alias, length or entry count, or a missing or repeated field, one that says what is wrong - and its backtrace names the mapping fields and sequence entries leading to the failing node, at the lines and columns where they are.",
 ["configurations", "inputs", "fault_sequences"],
 "For all operations, faults, log levels and log functions.",
 "Tests log to stderr or nothing and never look at the messages.",
 ["src/util.h", L, S, C, F],
 [("level filter", "src/util.h:cyaml__log"),
  ("backtrace", "src/load.c:cyaml__backtrace")], None,
 ["history of log_fn calls", "results under different log settings"])

prop("C17", "Saving writes exactly the document, the same to any sink and in any style",
 "Saving emits one YAML document whose nodes are exactly the data's values in schema order: every present field once, absent optional pointers and ignored fields omitted, nulls in their configured spelling, strict enum and flag values only by name; data the schema cannot express is refused with an error. "
 "Every node is in the style that the schema asks for, or else the configuration, and document marks appear exactly when asked for; these settings change presentation only. save_file and save_data produce the same bytes, and neither depends on how the sink splits the output or on the process's locale.",
 ["inputs", "configurations", "schedules"],
 "For all schemas, values, style flags and sinks, with output delivered in any fragmentation and any buffer size.",
 "Tests compare fixed values with fixed strings, mostly through one in-memory flush.",
 [S],
 [("save state machine", "src/save.c:cyaml__save"),
  ("buffer growth", "src/save.c:cyaml__buffer_handler"),
  ("style selection", "src/save.c:cyaml__get_emit_style")], None,
 ["emitted events compared with an independent reference saver", "emitted bytes"])

prop("C18", "Case-insensitive name matching is a consistent UTF-8 equivalence",
 "Names compare equal ignoring case exactly when their case-folded code points are equal (for the supported Latin ranges); the comparison is symmetric and reads nothing beyond either string's terminator, also for malformed UTF-8.",
 ["inputs"], "For all pairs of NUL-terminated byte strings.",
 "The unit tests compare a few dozen fixed strings.",
 ["src/utf8.c"], [("comparison", "src/utf8.c:cyaml_utf8_casecmp")])

prop("C19", "Every error code has its own stable description",
 "cyaml_strerror returns a distinct non-empty constant string for every defined code and a fixed fallback for any other value.",
 ["inputs"], "For all values of the error type.",
 "Tests look at a few codes.",
 ["src/util.c"], [("string table", "src/util.c:cyaml_strerror")])

prop("C20", "Schema-building macros describe the C types they are given",
 "For every C structure member the schema macros accept, the resulting schema entry has that member's offset, size, count member and pointer flag.",
 ["programs"], "For all structure declarations and macro uses.",
 "Tests use a fixed set of structures.",
 [H, "include/cyaml/private.h"], [("macros", "include/cyaml/cyaml.h:CYAML_FIELD")])

prop("C21", "Misuse is refused: bad parameters and schemas that contradict themselves",
 "A call given no configuration, no allocator, no schema, no data pointer, a sequence count where there must be none (or none where there must be one), a top-level value that is not a pointer, or a copy target that already holds data returns the error code documented for that mistake. "
 "So does a call that gets to a part of its schema that contradicts itself: a number whose data size is not one the type can have, a fixed-length sequence with different minimum and maximum, an unknown type, a string whose minimum length exceeds its maximum (load), a variable-length sequence directly inside a sequence, a bitfield component outside its bitfield, a sequence entry count of impossible size, a default sequence of more entries than its count member can hold. "
 "The refused call does not touch memory outside its objects, leaks nothing, leaves the caller's outputs and sources alone and its stream closed, and does so also when an allocation or stream operation fails on the way; a part of the schema that the call does not get to makes no difference to it; and after the mistake is corrected the same call gives its normal result.",
 ["inputs", "fault_sequences", "histories"], "For all schemas, documents and values, positions and kinds of mistake, fault positions, and histories of correct and refused calls.",
 "Tests place each mistake once, at the simplest place, and look at the returned code; what must hold is that no place of it, no other part of the schema next to it and no fault at the same time turns the refusal into a leak, a crash, an overwritten result or a different answer later.",
 [H, "src/load.c", "src/save.c", "src/copy.c", "src/free.c", "src/data.h"],
 [("schema checks while loading", "src/load.c:cyaml__stack_push"), ("parameter checks", "src/load.c:cyaml__validate_load_params"), ("release after a refusal", "src/free.c:cyaml__free_mapping"), ("size checks", "src/data.h:cyaml_data_write")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
