#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe or ["exit status", "stdout/stderr", "output file"],
                          "hook_needed": hook}})

MAIN, GEN, FR, ST, LX, PA, OP, ER = ("src/main.c", "src/generator.c", "src/forward_reference.c",
    "src/symbol_table.c", "src/lexer.c", "src/parser.c", "src/opcode.c", "src/error.c")

p("C01", "A reported success means the output file holds exactly the program's image",
  "If gaia exits with status 0 for a source file, then by the time it exits the output file holds, byte for byte and in length, "
  "the memory image that the whole source denotes: every 6502 instruction encoded at its address, every label and forward reference resolved, "
  "gaps zero-filled, nothing else; and the byte and symbol counts it announces are that program's. "
  "This holds whatever read, write, seek, open, close or allocation failures, short transfers or full disks the run met: a run that met one "
  "either still produces that image or does not report success.",
  ["inputs", "fault_sequences"],
  "all source texts (any size, line length, layout, label population, .ORG order) x all sequences of I/O and allocation faults during the run",
  "The unit tests call single functions on a few lines with an I/O layer that never fails; none runs main(), none makes a read, write, seek, close or malloc fail, none checks a whole output file.",
  [MAIN, GEN, FR, PA, LX, ST],
  [("assembly loop, forward-reference resolution loop and final report", MAIN), ("encode and patch at file offsets", GEN),
   ("deferred references", FR), ("address-mode selection", PA)],
  [("pc", "address of the next instruction = file offset of its opcode", MAIN), ("unresolved", "references to patch after the pass", FR)])

p("C02", "A run that does not complete says so: nonzero status and a diagnostic",
  "Every run that does not produce the program's image ends by itself with a nonzero exit status and prints a diagnostic, and never prints the success report; "
  "this covers missing or unreadable sources, outputs that cannot be created or written, exhausted memory and invalid programs. "
  "For an invalid program assembled without such an environment failure the diagnostic names the source file and the number of an offending line and quotes that line. "
  "No diagnostic, whatever failed, reports a source line as wrong that is not: a valid program is never called wrong.",
  ["inputs", "fault_sequences"],
  "all invalid programs, and all valid ones under any sequence of open/read/write/seek/close/allocation faults",
  "The tests look at error codes of inner functions for chosen lines; no test observes gaia's exit status or output text, and none injects a failure of the environment.",
  [MAIN, ER, LX, PA, GEN, FR],
  [("print_error", ER), ("ABORT_ASSEMBLY exit paths", MAIN)])

p("C03", "The outcome depends only on the source, not on how the environment behaves",
  "For a given command line and source text, exit status, printed text and output file are the same however the system happens to deliver the run: "
  "how many bytes each read or write transfers, the stream buffer sizes, whether the source is a file or a pipe, what uninitialised memory contains, "
  "where allocations land, the time, the process, environment variables (save POSIXLY_CORRECT, by which a user asks for options to come first), and whether standard output is a terminal or a file. "
  "Such differences never turn a valid program into an error or change one byte of its image.",
  ["inputs", "configurations", "schedules"],
  "all source texts x all transfer-size schedules, buffer sizes, memory contents and stream kinds",
  "Tests run in one environment with whole-line in-memory strings; nothing varies transfer sizes, buffer boundaries or memory contents.",
  [MAIN, LX, GEN, FR], [("line reader", MAIN), ("token buffers and their reset between lines", LX), ("seek and write of encoded bytes", GEN)])

p("C04", "No input and no failure makes gaia access invalid memory or corrupt its heap",
  "Whatever the source text (valid or not, including very long lines and arbitrary bytes) and whatever allocation or I/O operation fails at whatever moment, gaia never "
  "reads or writes outside its live objects, never uses or frees memory twice, never uses a closed file and is never killed by a signal of its own making.",
  ["inputs", "fault_sequences"],
  "all byte sequences as source x all allocation/I-O fault sequences",
  "The tests use well-formed short strings, run without sanitizers, and never let an allocation fail.",
  [LX, PA, FR, ST, MAIN, ER, OP], [("token and label copying", LX), ("table growth", ST), ("reference list growth", FR), ("error echo and arrow", ER)])

p("C05", "Every exit path releases every file and every allocation exactly once",
  "However a run of gaia ends by itself - success, rejected source, failed open, failed read or write, or an allocation failing at any point - every file it opened has been "
  "closed exactly once and every block of memory it allocated has been freed exactly once.",
  ["inputs", "fault_sequences"],
  "all programs x any point of failure of any allocation or I/O operation",
  "Tests destroy objects they created on success paths only and do not look for leaks; no test makes an allocation fail.",
  [MAIN, LX, ST, FR, OP], [("abort_gaia cleanup", MAIN), ("init_*/destroy_* pairs", LX), ("init_unresolved/destroy_unresolved", FR), ("symbol table lifetime", ST)],
  observe=["allocator", "open file table at exit"])

p("C06", "After being killed at any instant, running gaia again gives the exact image",
  "If gaia is killed at any moment, or the machine loses power and leaves an arbitrary part of the output, the source file is intact, and simply running gaia again "
  "with the same arguments succeeds and yields exactly the image a first, undisturbed run would have produced, with no trace of the earlier content of the output.",
  ["inputs", "crash_points", "histories"],
  "all programs x every instant of death (between and inside writes) x every residue left in the output",
  "No test kills a run or starts from an existing output file.",
  [MAIN, GEN], [("output opened for truncation; image rewritten from scratch", MAIN), ("seek + write of every byte", GEN)],
  observe=["output file after the rerun", "source file after the crash"])

p("C07", "Success is announced only once the output file is complete",
  "From the moment the success report becomes visible on standard output (terminal, pipe or file), the output file already holds the complete image and is not changed again by that run, "
  "so that being killed at any later instant loses nothing; if writing or closing the output fails, the success report is never visible.",
  ["inputs", "crash_points", "fault_sequences", "configurations"],
  "all programs x all instants after the report x buffering modes of standard output x failures of the last writes and of close",
  "Tests never run main(), and ordering between the report and the last write is invisible after a normal exit.",
  [MAIN], [("final report and close of the output", MAIN)], observe=["stdout as bytes become visible", "output file at that instant"])

p("C08", "gaia changes nothing but the output file it was told to write",
  "Whatever happens during a run, the source file and every other existing file stay the files they are, with their content, permissions and time of modification, and when the run ends by itself no file exists that did not exist before "
  "other than the output named by -o (or a.out when none is named).",
  ["inputs", "fault_sequences", "histories"],
  "all programs, file populations and argument forms (output different from source) x all faults",
  "No test runs the command line program, let alone with bystander files or faults.",
  [MAIN], [("fopen of source and output", MAIN), ("command line parsing", MAIN)], observe=["whole simulated file system"])

p("C09", "A run that cannot even start leaves the previous output untouched",
  "If the command line is wrong, the source cannot be opened, or memory runs out before the source is opened, gaia fails and the previously assembled output file keeps its exact content "
  "(and is not created if it did not exist).",
  ["inputs", "fault_sequences", "configurations"],
  "all argument vectors and all failures up to and including the opening of the source",
  "Needs a previous output plus a start-up failure; tests have neither.",
  [MAIN], [("order: allocate, open source, only then open (truncate) output", MAIN), ("argument checking", MAIN)], observe=["output file", "exit status"])

p("C10", "Concurrent runs do not disturb each other",
  "Any number of gaia processes may run at the same time in one directory, interleaved in any way: those writing different outputs each behave exactly as if alone, also when "
  "another one fails or is killed, and those assembling the same source into the same output all succeed and leave exactly its image once the last one has exited.",
  ["inputs", "schedules", "crash_points"],
  "all interleavings of the file operations of several runs, with any of the others failing or dying",
  "Tests are sequential and single-process.",
  [MAIN, GEN], [("no shared scratch files; every byte written to its own offset after own truncation", MAIN), ("fseek before each encode", GEN)],
  observe=["each run's status and output"])

p("C11", "Out of memory while recording a label or reference loses nothing recorded",
  "If memory runs out while a label or a pending forward reference is being recorded, the operation reports out-of-memory and everything recorded before is still there: every earlier "
  "label still yields its value, every earlier pending reference is still listed unchanged and in order, unknown labels are still unknown, and recording works again once memory is available; "
  "a whole run that runs out of memory either still succeeds exactly or blames memory (or reading the source), never the program.",
  ["histories", "fault_sequences"],
  "all sequences of record/lookup operations across any number of table growths x all allocation failures",
  "The tests grow the tables once or twice with a malloc that never fails.",
  [ST, FR], [("insert_symbol / resize", ST), ("add_forward_ref / resize_unresolved / create_forward_ref", FR)],
  [("symbols, size, count", "open-addressing label table", ST), ("refs, curr, size", "growable NULL-terminated reference list", FR)],
  observe=["return codes and lookups through the module interfaces"])

p("C12", "gaia always finishes, and a valid program assembles once faults stop",
  "Under any sequence of faults, including ones that persist, a run ends by itself after an amount of work bounded by the size of its input; "
  "and once faults stop, the next run on a valid program - of any size and shape - succeeds.",
  ["inputs", "fault_sequences", "histories"],
  "all programs x all transient and persistent fault sequences followed by a fault-free run",
  "A test can show neither that a loop ends under a persistent error nor that no valid program is refused.",
  [MAIN, ST, FR], [("read loop", MAIN), ("probing and growth", ST), ("resolution loop", MAIN)], observe=["termination", "exit status"])

p("C13", "Rebuild histories: each successful run's output is that run's program only",
  "In any history of edits, successful runs, failing runs and killed runs sharing one output path, after each successful run the output equals the image of the source as it was for that run "
  "- independent of the lengths, contents or failures of earlier builds and of what earlier runs read.",
  ["inputs", "histories", "fault_sequences"],
  "all sequences of source edits and runs with arbitrary failures in between",
  "Tests always write fresh files and never check leftovers of an earlier, longer or failed build.",
  [MAIN, GEN], [("truncation of the output; zero-filled gaps", MAIN), ("absolute seeks", GEN)], observe=["output file after each run"])

p("C14", "A source arriving through a pipe is assembled as it arrives, and .END ends it",
  "A source that is a pipe gives the same result as the same text in a file, whatever pieces it arrives in and however long the writer pauses between them; "
  "once the .END line (with its line end) has arrived gaia finishes without waiting for further input, and nothing after .END has any effect; "
  "likewise a line that is wrong in itself is refused as soon as it has arrived.",
  ["inputs", "schedules"],
  "all programs x all ways a writer can cut, delay or never finish the text after .END",
  "Tests feed in-memory strings; no reading, no pipe, no pausing writer.",
  [MAIN], [("strictly sequential single pass over the source", MAIN), (".END stops reading", MAIN)], observe=["exit status, stdout, output, whether the run is still waiting"])

p("C15", "Trouble with the standard streams never costs the assembled output",
  "Whatever of standard input, output and error is closed, full, broken (its reader gone, with or without SIGPIPE ignored) or failing, an otherwise undisturbed run ends, "
  "and if the program is valid its output file is complete and exact, whatever the exit status and even if the run is killed by SIGPIPE; if it is invalid the run does not exit with status 0. If nobody reads what it prints, the run may wait for ever, but not before the output is complete.",
  ["inputs", "fault_sequences", "configurations"],
  "all programs x all combinations of closed standard descriptors x all failures and stalls of writes to standard output at any moment x its buffering modes",
  "No test runs the program with a standard stream other than the terminal or pipe of the test runner.",
  [MAIN, ER], [("report printed only after the output is closed", MAIN), ("print_error", ER)], observe=["output file", "exit status"])

p("C16", "Files replaced while gaia runs: one version of the source, one output",
  "If another program replaces, renames or removes the source or the output file while gaia is running, the run behaves exactly as for the source file it opened - its whole content, unmixed, also in "
  "diagnostics - and writes to the output file it opened; a file put in the place of that output in the meantime is left alone.",
  ["inputs", "schedules", "histories"],
  "all programs x all instants at which the source or output path is given another file, moved away or removed",
  "Tests are sequential: nothing else happens while a function under test runs.",
  [MAIN, FR, ER], [("source and output opened once, then used through their streams", MAIN), ("line text kept for diagnostics of forward references", FR)],
  observe=["exit status", "stdout", "the file that was the output", "the file put in its place"])

p("C17", "Room for the image, two files and memory for its labels are enough",
  "A valid program assembles successfully and exactly when the disk has just room for its image, when only two more files can be opened, and when memory is limited to a fixed amount plus an amount proportional to "
  "its text, labels and references: gaia needs no scratch files, no further descriptors, and does not hold on to memory per line.",
  ["inputs", "configurations", "fault_sequences"],
  "all valid programs x all limits on disk space, descriptors and memory that leave that room",
  "Tests run with practically unlimited resources, on sources of a few lines.",
  [MAIN, LX, ST, FR], [("one stream for the source, one for the output", MAIN), ("tokens and lines reused from line to line", LX), ("growth of the tables", ST), ("growth of the reference list", FR)],
  observe=["exit status", "output file under limits"])

p("C18", "Asked to end, gaia ends; a signal it was started to ignore changes nothing",
  "SIGINT, SIGTERM, SIGHUP or SIGQUIT arriving at any instant ends the run within a bounded number of further steps, also while it waits for a pipe or for the reader of what it prints, and the exit status is not 0 "
  "unless the output holds the whole image. A signal that was ignored when gaia was started (nohup, background job), or that by its nature ends nothing (SIGCHLD, SIGCONT, SIGURG, SIGWINCH), has no effect on the run at all.",
  ["inputs", "schedules", "fault_sequences", "configurations"],
  "all programs x all instants, waits included, at which one or more such signals arrive x all sets of signals ignored at the start",
  "No test sends a signal or starts the program with one ignored.",
  [MAIN], [("default dispositions everywhere: no handler, no mask", MAIN)], observe=["exit status", "stdout", "output file"])

p("C19", "The output goes to the very file its path names, which stays that file",
  "If the output path names an existing file - directly, through symbolic links of the file or of directories, or as one of several hard links - exactly that file receives the image and stays the same file: its other names show the image too, "
  "links stay links, a device stays a device, and its permission bits are those it had at every moment of the run, also if the run fails or is killed. A file that has to be created, also as the target of a dangling symbolic link, gets mode 0666 less the umask. "
  "To succeed gaia needs no more than permission to read the source and to write the output (or, to create it, its directory), however the two are reached; the source and all other names and files stay as they are, and nothing else is left behind when the run ends.",
  ["inputs", "configurations", "fault_sequences", "histories"],
  "all programs x all arrangements of links, permissions and umasks of source, output and their directories x all failures and kills during one or several runs",
  "No test opens a file through gaia's main program, let alone through links, with other permissions, or with failures and kills in between.",
  [MAIN], [("source opened for reading, output opened for writing in place", MAIN), ("choice of the output path", MAIN)],
  observe=["exit status", "file system: contents, identity, kind and permissions of every name"])

# ---- pure functions of the source text: no schedule, clock, fault or history in them ----
def na(id, title, statement, qtext, why, files, mech):
    p(id, title, statement, ["inputs"], qtext, why, files, mech, observe=["function results"])
na("C20", "Every legal mnemonic and addressing mode encodes to its documented opcode",
   "Each of the 151 documented 6502 instruction/addressing-mode pairs assembles to its documented opcode and operand bytes, and every other pair is refused.",
   "all mnemonic x operand-form x operand-value combinations", "Tests check the opcode functions pair by pair but not through operand syntax and value-driven mode choice for all combinations.",
   ["src/assemble.c", "src/bitfields.h", OP, PA], [("assemble_* tables", "src/assemble.c"), ("mode masks", PA)])
na("C21", "Numeric literals in every base have exactly their value or are refused",
   "A hexadecimal, binary or decimal literal denotes exactly its mathematical value; one above 65535, of any length, is refused.",
   "all literals of any length", "Tests try a few dozen literals.", [LX], [("lex_literal", LX)])
na("C22", "Assembly is case-insensitive and layout-insensitive",
   "Changing letter case, blanks, tabs, comments or line endings never changes the result.",
   "all pairs of programs differing only in case and layout", "Tests use a handful of layouts.", [LX], [("token_strncpy upper-casing, whitespace skipping", LX)])
na("C23", "A label means the same address wherever it is used",
   "A reference encodes the same destination whether it precedes or follows the label's definition; branches outside -128..127 are refused and all others encode exactly.",
   "all label placements and distances", "Tests check a few distances.", [GEN, PA, ST], [("calc_branch_offset", GEN), ("search_symbol", ST)])
na("C24", "Syntax outside the documented grammar is always refused",
   "Every line that is not derivable from the documented token sequences is rejected.",
   "all token sequences", "Tests try selected bad sequences.", [PA], [("parse_*_tree", PA)])
na("C25", "The error arrow points at the offending token's column",
   "Whenever an arrow is printed it stands under the first character of the offending token, tabs counted to multiples of eight.",
   "all erroneous lines", "One test prints messages without checking them.", [ER], [("print_error arrow alignment", ER)])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
