#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property list)."""
import json, os
G = "lib/src/gen/GenGenerator.cpp"
U = "lib/src/gen/util.cpp"
P = "lib/src/parse/ParseProtocolImpl.cpp"
props = []
def add(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    props.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

add("C01", "Exit status 0 means the complete, correct output is on disk",
    "Whenever a generator exits with status 0, every file it is meant to produce for that input exists under the output directory with exactly the content a fault-free run produces. This holds whatever storage errors (failed open, failed or partial write, full disk, exhausted quota, failed directory creation, failed copy) the operating system reported to it during the run.",
    ["fault_sequences", "configurations", "inputs"],
    "Every generator (comms, c, swig, emscripten, latex, test, tools_qt), every schema and option set, every placement of one or more reported storage errors on any file or directory operation of the run.",
    "The tests run every generator on a healthy disk only; no write, open or mkdir ever fails in them, so none of the ~100 places that must notice and propagate a storage error is exercised.",
    [G, "app/*/src/*.cpp", U],
    [("every writer checks the stream after writing and returns false; callers propagate to the exit status", "app/*/src/*.cpp, *::genWrite / *WriteInternal"),
     ("directory creation is checked", G + " genCreateDirectory"),
     ("extra source files are copied with an error code that is checked", G + " genCopyExtraSourceFiles")],
    observe=["exit status of the generator process", "file tree under the output directory"])

add("C02", "Every storage failure ends the run cleanly and is reported as a failure",
    "When the operating system reports a storage error, the generator finishes in bounded time and without crashing: it either still delivers the complete output with exit status 0, or it exits with a non-zero status and writes an error message to the standard error stream. If a particular output file or directory could not be opened, created or written, the error messages name that file or directory (or a directory on its path).",
    ["fault_sequences", "configurations", "inputs"],
    "Every generator, schema and option set; every placement of errors on opens, reads, writes, status queries, directory listings, directory creation and copies, one-shot or persistent.",
    "No test makes an operation fail, so neither the exit status, nor the diagnostic, nor the absence of a crash or hang after a failure is ever observed.",
    [G, "app/*/src/*.cpp", "app/*/src/main.cpp", "lib/src/gen/GenLogger.cpp"],
    [("failed stream -> logger error naming the file -> return false -> exit status -2", "app/*/src/*.cpp"),
     ("exceptions caught at top level and turned into a message and status -1", "app/*/src/main.cpp")],
    observe=["exit status", "standard error"])

add("C03", "Input that cannot be read is never silently replaced by something else",
    "If an input of the run that exists (schema file, custom code fragment, replacement or extra source file, list of input files, list of messages, extra messages bundle) cannot be opened or cannot be read to its end, the generator exits with a non-zero status and an error message. It never exits with status 0 having produced an output that differs from the one obtained when that input is readable.",
    ["fault_sequences", "inputs", "configurations"],
    "Every existing input file of every kind, every generator, every position at which opening or reading it reports an error (permission, I/O error, descriptor exhaustion, stale handle), once or persistently.",
    "Tests only use inputs that are readable from the first to the last byte.",
    [U, G, P, "app/commsdsl2comms/src/CommsGenerator.cpp", "app/commsdsl2tools_qt/src/ToolsQtPlugin.cpp", "lib/src/gen/GenProgramOptions.cpp"],
    [("custom code fragments are read through one helper", U + " genReadFileContents; " + G + " genReadCodeInjectCode"),
     ("schema read failure aborts the parse", P + " parse"),
     ("list files are checked when opened", G + " genProcessMessagesListFileInternal; CommsGenerator.cpp; GenProgramOptions.cpp genGetInputFiles")],
    observe=["exit status", "output tree", "standard error"])

add("C04", "Partial and interrupted system calls never change the result",
    "Operating-system calls that legally transfer fewer bytes than requested, or that are interrupted and have to be repeated, do not affect the run: it exits with status 0 and produces the byte-identical output of an undisturbed run.",
    ["schedules", "fault_sequences", "inputs"],
    "Every split of every read, write and file copy into arbitrary shorter transfers, and every pattern of interruptions of writes and stream reads, for every generator and input.",
    "On a local disk in the test environment the kernel transfers every request whole; the short-transfer and retry paths are never taken.",
    [U, G, "app/*/src/*.cpp", P],
    [("all output goes through buffered streams that complete partial writes", "app/*/src/*.cpp"),
     ("whole files are read until end of file", U + " genReadFileContents")],
    observe=["exit status", "output tree"])

add("C05", "After a crash or power loss, re-running the same command repairs everything",
    "If a run is killed at any instant, or the machine loses power so that only part of what was written survives, then running the same command again succeeds and leaves every generated file exactly as an undisturbed first run would have. No leftover of the interrupted run (truncated, empty, garbage or stray files) makes the next run fail, skip a file or change its result.",
    ["crash_points", "histories", "inputs"],
    "Every crash point between two file operations or inside a write, every subset of un-synced data surviving (missing files, empty files, prefixes, zero or stale blocks, missing directories), one or more consecutive crashes, every generator and input.",
    "No test interrupts a generator or starts one in a directory left behind by an interrupted run.",
    [G, "app/*/src/*.cpp"],
    [("every run rewrites each file from scratch and depends on nothing in the output directory", "app/*/src/*.cpp"),
     ("existing directories are accepted", G + " genCreateDirectory")],
    observe=["output tree after the second run", "exit status"])

add("C06", "Regeneration equals fresh generation, whatever was generated before",
    "Running a generator into a directory that already contains earlier output or user files gives, for every file it produces, exactly the content a run into an empty directory gives; the result depends only on the current schema, options and custom code, never on the previous contents, sizes or timestamps of the output. Files in the output directory that the run does not produce keep their content.",
    ["histories", "inputs", "configurations"],
    "Every history of earlier runs (other versions of the schema, options, custom code, other generators' leftovers), user edits of generated files (longer, shorter, same size, same timestamp, future timestamp), for every generator.",
    "Every test generates once into a fresh directory.",
    [G, "app/*/src/*.cpp"],
    [("files are opened with truncation and rewritten in full", "app/*/src/*.cpp"),
     ("extra files are copied with overwrite", G + " genCopyExtraSourceFiles")],
    observe=["output tree"])

add("C07", "Output is a function of schema, options and custom code only",
    "Two runs with the same schema, options and custom code produce byte-identical output trees and the same exit status. Time of day, process id, memory addresses and the contents of uninitialised memory, directory listing order, file timestamps and inode numbers, environment variables and locale, current directory and the way paths are spelled have no influence.",
    ["schedules", "configurations", "inputs"],
    "Every value the environment can take, including the order and placement of heap allocations and of directory entries, for every generator, schema and option set.",
    "Tests run once in one environment and do not compare outputs of two runs; address- or order-dependent output needs a particular heap layout to show.",
    ["app/*/src/*.cpp", G, "lib/src/gen/GenSchema.cpp", "lib/src/parse/*.cpp"],
    [("elements are kept in schema order in vectors and name-keyed maps", "lib/src/gen/*.cpp, lib/src/parse/*.cpp"),
     ("all members are initialised", "lib/src/gen/*.cpp, lib/src/parse/*.cpp")],
    observe=["output tree", "exit status"])

add("C08", "A generator writes only inside its output directory and never alters its inputs",
    "Whatever happens during a run, successful or not, the generator creates, modifies and deletes nothing outside the requested output directory (apart from creating that directory and its missing parents), deletes or renames away nothing inside it that it did not itself create, and leaves schema files, custom code and every other input unmodified.",
    ["fault_sequences", "histories", "configurations", "inputs"],
    "Every generator, input, option set, prior state of the file system and placement of storage errors, crashes and allocation failures.",
    "Tests look at the exit status, not at what else changed in the file system, and never under faults.",
    [G, "app/*/src/*.cpp"],
    [("all output paths are built from the output directory", "app/*/src/*.cpp, genGetOutputDir"),
     ("no code path removes files", "lib/src/gen, app/*/src")],
    observe=["every file system mutation made by the process"])

add("C09", "Rejected input leaves the file system exactly as it was",
    "When a run refuses its input before generating (schema not well formed or invalid, unreadable schema or list file, warnings treated as errors, unknown message, interface or platform, contradictory or malformed options), it exits with a non-zero status and an error message and has not created, changed or removed any file or directory, so the result of the last good run stays intact.",
    ["inputs", "fault_sequences", "histories"],
    "Every rejected input and option set, every cause of rejection including read errors while loading it, every generator, and every prior state of the output directory.",
    "The library tests check that invalid schemas are refused but not what a generator does to an existing output directory; generator tests only use valid input.",
    [G, "app/*/src/*Generator.cpp", P],
    [("everything is parsed, validated and prepared before the first directory is created", G + " genExec")],
    observe=["exit status", "file system mutations before the refusal"])

add("C10", "No input, damaged in storage or not, crashes or hangs a generator",
    "A schema, custom code or list file that was torn, truncated, bit-flipped, overwritten with zero or foreign blocks or otherwise damaged in storage makes the generator either report the problem and exit with a non-zero status or generate normally with status 0. It never crashes, aborts, ends in an internal error, hangs or accesses invalid memory. The same holds for undamaged input under every combination of options.",
    ["inputs", "fault_sequences"],
    "Every damage a storage medium, an interrupted copy or an interrupted editor can do to any input file, for every generator.",
    "Invalid schemas in the tests are hand-written one mistake at a time; the space of damaged files is unbounded.",
    ["lib/src/parse/*.cpp", G, "lib/src/gen/*.cpp", "app/*/src/*.cpp"],
    [("every property and element is validated with an error path", "lib/src/parse/*.cpp"),
     ("lookups of referenced elements are checked before use", G + " genFindField, genGindMessage")],
    observe=["termination status", "standard error"])

add("C11", "Protocol parser objects are independent of each other",
    "Parsing and validating with one parser object gives the same result, the same schemas and the same diagnostics delivered to that object's own callback no matter which other parser objects exist, are created, used, destroyed or fail before, after or in between, in the same or in other threads (each object used by one thread at a time).",
    ["schedules", "histories", "inputs"],
    "Every interleaving of the operations of any number of parser objects in any number of threads, every order of construction and destruction, every mixture of valid and invalid schemas.",
    "Library tests use one parser object at a time in one thread, so cross-talk through library-global error handlers or function-local caches cannot show.",
    [P, "lib/src/parse/ParseProtocolImpl.h", "lib/src/parse/*.cpp"],
    [("per-object logger and callback", P + " constructor, parseCbXmlErrorFunc"),
     ("all parse state is held in the object", "lib/src/parse/*Impl.h")],
    state=[("structured XML error handler", "process/thread-wide destination of XML diagnostics", P)],
    observe=["return values", "schema contents through the public accessors", "callback invocations"])

add("C12", "A parser that failed to load a file can continue as if never asked",
    "When loading a schema file into a parser object fails (missing, unreadable, read error, damaged, out of memory inside the XML parser), the object is unaffected: loading the repaired or other files afterwards and validating gives the same result, schemas and diagnostics as a new object that never saw the failed attempt.",
    ["fault_sequences", "histories", "inputs"],
    "Every sequence of failed and successful load attempts, every position and kind of read error, on any mixture of schema files.",
    "Tests never retry on an object after a failure.",
    [P],
    [("a document is added only after it was parsed completely", P + " parse")],
    observe=["return values", "schema contents", "callback invocations"])

add("C13", "Concurrent and repeated generator runs do not influence each other",
    "Generators that run at the same time or one after another, in one process or in several processes sharing the inputs and the file system but writing to different output directories, each behave and produce output exactly as if they had run alone, including when some of them fail.",
    ["schedules", "histories", "inputs"],
    "Every interleaving of the file operations and execution steps of any set of generator runs, same or different schemas, options and generators, with and without faults in some of them.",
    "Tests run one generator per process with private directories and cannot choose the interleaving.",
    ["lib/src/gen/*.cpp", "app/*/src/*.cpp", "lib/src/parse/*.cpp"],
    [("all run state is held in the generator object; no temporary or lock files", "lib/src/gen/GenGenerator.cpp"),
     ("function-local statics are immutable after initialisation", "lib/src, app/*/src")],
    observe=["output trees", "exit status"])

add("C14", "Once faults stop, the next run succeeds",
    "After any sequence of failed runs caused by transient faults (storage errors, full disk, exhausted descriptors or memory), the first run of the same command without faults exits with status 0 and leaves every generated file exactly as if nothing had ever failed.",
    ["fault_sequences", "histories"],
    "Every sequence of faults over any number of consecutive failed runs, for every generator and input.",
    "Tests contain no failed generator run followed by another run.",
    [G, "app/*/src/*.cpp"],
    [("no state is carried from run to run", G)],
    observe=["exit status and output tree of the first fault-free run"])

add("C15", "Custom source files are carried over exactly",
    "Every regular file below the custom code directory whose extension is not reserved for code fragments appears at the same relative path of the output directory with byte-identical content (with only the protocol namespace adapted when the main namespace was overridden), replacing any generated or older file there. This holds whatever the listing order, size, timestamps, binary content, permissions or nesting of these files and whatever was in the output directory before.",
    ["histories", "inputs", "schedules"],
    "Every set of extra files, every order in which the file system lists them, every earlier state of the output directory, every history of edits between runs, under partial transfers.",
    "The tests contain only a handful of small extra files, copied once into an empty directory, in one listing order.",
    [G],
    [("recursive copy with overwrite", G + " genCopyExtraSourceFiles")],
    observe=["output tree compared with the custom code directory"])

add("C16", "Running out of memory is never mistaken for success",
    "When memory allocation fails at any point, the generator terminates in bounded time with a non-zero exit status and without invalid memory accesses, or completes with status 0 and the complete correct output.",
    ["fault_sequences", "inputs"],
    "Every allocation of the run failing once, or every allocation from some point on, for every generator and input.",
    "No test makes an allocation fail.",
    ["app/*/src/main.cpp", "lib/src/gen/*.cpp", "lib/src/parse/*.cpp"],
    [("exceptions unwind to a top-level handler that returns a failure status", "app/*/src/main.cpp")],
    observe=["exit status", "output tree"])

add("C17", "Parser and generator objects give back every resource, even after failures",
    "After a parser or generator object is destroyed, no file descriptor it opened is still open and no memory it allocated is still held, whether its work succeeded, was rejected or was cut short by an error; and during a run only a small bounded number of files is open at any time.",
    ["fault_sequences", "histories", "inputs"],
    "Every sequence of uses of objects in one long-lived process, successful, rejected or failing through storage errors at any point.",
    "Short-lived test processes hide leaks, and error paths are not exercised.",
    [P, "lib/src/parse/ParseXmlWrap.cpp", "lib/src/parse/ParseXmlWrap.h", "lib/src/gen/*.cpp"],
    [("XML documents and strings are held by owning pointers", "lib/src/parse/ParseXmlWrap.h"),
     ("files are held by stream objects", "lib/src/gen, app/*/src")],
    observe=["open descriptors and live allocations after destruction"])

add("C18", "Losing the diagnostic output does not change what is generated",
    "If standard output or standard error cannot be written (closed, full device, I/O error), at any message, the exit status and the generated output are the same as with working diagnostic streams.",
    ["fault_sequences", "inputs"],
    "Every message at which writing to either stream starts to fail, permanently or for a while, for every generator, input (accepted or rejected) and verbosity.",
    "Tests always have working standard streams.",
    ["lib/src/gen/GenLogger.cpp", "lib/src/gen/GenGenerator.cpp", P],
    [("the state of the diagnostic streams is never consulted", "lib/src/gen/GenLogger.cpp")],
    observe=["exit status", "output tree"])

na = [
("C20", "A schema is accepted exactly when it follows the DSL specification",
 "A set of schema files is accepted if and only if it satisfies the CommsDSL specification for the DSL version it declares, and the parsed model reflects every property written in it.",
 ["inputs"], "Every schema.", "The 435 library test schemas sample an unbounded language.", ["lib/src/parse/*.cpp", "doc"],
 [("property parsing and validation", "lib/src/parse/*.cpp")]),
("C21", "Generated protocol code implements the schema's wire format",
 "For every accepted schema, the generated code serialises and deserialises every message exactly as the schema defines (field order, sizes, endianness, versions, framing) and compiles.",
 ["inputs", "programs"], "Every accepted schema and every message value.", "Needs the COMMS library, which is not part of the repository; tests compile samples only.", ["app/commsdsl2comms/src/*.cpp"],
 [("code generation templates", "app/commsdsl2comms/src/*.cpp")]),
("C22", "References, reuse and inheritance resolve to the element they name",
 "Every reference, reuse, copy or alias resolves to the element it names, across namespaces and schemas, and the resulting element has the inherited properties with its own overrides applied.",
 ["inputs"], "Every schema using references.", "Sampled by example schemas only.", ["lib/src/parse/*.cpp"],
 [("reference lookup", "lib/src/parse/ParseNamespaceImpl.cpp, ParseProtocolImpl.cpp")]),
("C23", "Version and deprecation information selects exactly the right elements",
 "For every protocol version and minimal remote version, generated code contains and treats as optional exactly the elements the sinceVersion, deprecated and removed properties prescribe.",
 ["inputs", "configurations"], "Every schema, schema version override and minimal remote version.", "Sampled by example schemas only.", ["lib/src/gen/GenSchema.cpp"],
 [("existence and optionality decisions", "lib/src/gen/GenSchema.cpp")]),
("C24", "Code generators agree with each other on names and structure",
 "The C, swig, emscripten, test and tools generators refer only to classes, files and names that the C++ generator produces for the same schema and options.",
 ["inputs", "configurations"], "Every schema and option set.", "Cross-generator builds need Qt, swig, emscripten and the COMMS library.", ["app/*/src/*.cpp", "lib/src/gen/comms.cpp"],
 [("shared naming helpers", "lib/src/gen/comms.cpp")]),
]
for id, t, s, o, txt, w, f, m in na:
    add(id, t, s, o, txt, w, f, m)

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
