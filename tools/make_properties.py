"""Writes properties.jsonl (kept as code so that the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                  "mechanism": [dict(name=a, where=b) for a, b in mechanism],
                  "observe_at": observe, "hook_needed": None}})
CV="palworld_save_tools/commands/convert.py"; RT="palworld_save_tools/commands/resave_test.py"
AR="palworld_save_tools/archive.py"; GV="palworld_save_tools/gvas.py"; PS="palworld_save_tools/palsav.py"
PT="palworld_save_tools/paltypes.py"; RD="palworld_save_tools/rawdata/"; JT="palworld_save_tools/json_tools.py"

prop("C01", "Save data is conserved bit for bit along every chain of conversions",
 "However a well-formed save travels through the tool - any sequence of successful SAV to JSON and JSON to SAV runs, with any selection of decoded sections, indented or minified, under any file names, and with failed, killed or repeated runs in between - the decompressed bytes of every save that comes out equal the decompressed bytes of the save that went in. This covers every property type, embedded record, string, number and trailing byte that the tool accepts. (Known exception, recorded: a NaN whose sign or payload bits differ from the ordinary quiet NaN.)",
 ["histories","inputs","configurations","fault_sequences"],
 "all well-formed saves, all sequences of runs with any mix of options, all I/O fault sequences between and during the runs (short reads and writes, errors, kills, retries)",
 "The tests convert 14 fixed save files once or twice with default options on a healthy disk; most embedded record kinds, boundary values, section subsets, and runs interleaved with failures never occur there.",
 [AR,GV,PS,PT,CV,JT,RD+"*.py"],
 [("property reader/writer pairs",AR),("header and trailer carried through",GV),("record decode/encode pairs",RD+"*.py"),("section table",PT),("chain driver",CV)],
 ["decompressed content of every .sav file produced"])
prop("C02", "The output file is all-or-nothing across crashes, errors and interrupts",
 "At every moment of a run, and after the run ends in any way - success, error, full disk, failed or short write, kill, power loss, or interrupt - the output path holds either exactly what was there before the run (including nothing) or one complete new output; never an empty, truncated or mixed file. A run that fails before its new output is complete leaves the previous file in place.",
 ["crash_points","fault_sequences","inputs"],
 "all instants at which a run can be killed, lose power, be interrupted or meet an I/O error, for all inputs and any previous content of the output path (absent, regular file, symbolic link)",
 "The tests never kill a run, never fail a write, and never start with an existing output file.",
 [CV,RT], [("output is written beside the target and put in place in one step",CV)],
 ["content of the output path at every file-system step, after the run, and after a power-loss recovery"],
 [("output path","old or new complete content",CV)])
prop("C03", "Success is reported only for a complete and correct conversion",
 "A run that exits with status 0 has written, at the place its arguments name (or the documented default), the complete and correct conversion of its input under the given options: the JSON states every value of the save (with NaN and infinities as null, and nothing else changed, when that option is given), and the SAV contains what the JSON states. Every run that could not do this - missing or unreadable input, contradictory or unusable arguments, a file it does not know how to convert, bad content, any read or write failure - ends with a nonzero status.",
 ["fault_sequences","inputs","configurations"],
 "all command lines, all inputs including JSON written by older releases or other programs, and all sequences of I/O errors, short transfers and resource failures",
 "The tests run the command only with a single existing .sav or .json argument on a healthy disk, and never compare the JSON with the values in the save.",
 [CV,GV,AR,JT,PS,RD+"*.py"], [("argument handling and exit codes",CV),("exceptions are not swallowed",CV)],
 ["exit status, output path, JSON content, decompressed SAV content"])
prop("C04", "An existing file is replaced only with the user's consent",
 "If the output path exists when the run starts, its content stays exactly as it was unless --force was given or the user answered 'y' (in either case) to the prompt; the answer 'n', an end of input, an interrupt at the prompt or any run of other answers without 'y' leaves it untouched and ends in a nonzero status. Answers other than 'y' and 'n' never count as either, and after consent the conversion goes ahead.",
 ["histories","inputs","fault_sequences"],
 "all sequences of replies on standard input, including end of input, read errors and interrupts at any moment, in both directions, with and without --force",
 "No test starts with an existing output, so the prompt is never reached.",
 [CV,RT], [("confirm_prompt and --force",CV)], ["content of the output path, exit status, prompts consumed"])
prop("C05", "A run changes nothing but its output file",
 "No run, whatever its outcome, alters, renames, removes or truncates its input file or any other file that existed before, except the output path; the input is never opened for writing unless it is also the stated output. After a run that succeeded or stopped on an error, no new files remain besides the output.",
 ["fault_sequences","crash_points","configurations"],
 "all command lines (file names, directories, default and explicit output paths), all surrounding files, and all fault and interrupt sequences; leftovers are allowed only after a kill, an interrupt or power loss, or where removing them was itself made to fail",
 "The tests look only at the expected output file, never at the rest of the directory, and never during failures.",
 [CV,RT], [("choice of output path",CV),("temporary output removed on failure",CV)], ["full file-system tree before and after each run"])
prop("C06", "A damaged save container is never converted as if it were intact",
 "If the stored bytes of a .sav file are damaged in any way - flipped bits, truncation, lost or swapped sectors, zeroed ranges, garbage or duplicated data - a run either fails with a nonzero status and produces no output, or yields exactly the payload of the undamaged save. A changed payload is never accepted.",
 ["fault_sequences","inputs"],
 "all saves in all container variants (single and double compression, with and without the chunk prefix) and all storage damage at any offset, present on disk or arising while the file is read",
 "The tests only read intact files.",
 [PS,CV,RT], [("magic, save type, compressed and uncompressed length checks, checksum of the compressed stream",PS)],
 ["exit status, output path, payload handed to the parser"])
prop("C07", "Data cut short, left over or unknown is refused or carried verbatim",
 "If the save stream inside an intact container, or a record embedded in it, ends early at any byte, has bytes left over, holds a kind of record the tool does not know, or has content that the document cannot express (a repeated property name, an array index, keys removed from a map, a string without its terminator), then reading it either fails with an error or gives a document that converts back to exactly the same bytes. No value is ever made up for missing bytes and no leftover byte is dropped. (The recorded exception of C01, the sign and payload bits of a NaN, applies here too.)",
 ["fault_sequences","inputs"],
 "all truncation points of the stream and of every embedded record, all lengths and contents of left-over data, all unknown record kinds and inexpressible elements, for every selection of decoded sections",
 "The tests read only complete data of known kinds.",
 [AR,GV,RD+"*.py"], [("length checks in the reader",AR),("end-of-record checks and raw fallbacks",RD+"*.py")],
 ["library read/write results, CLI exit status and output"])
prop("C08", "Concurrent conversions in one process do not affect each other",
 "When several threads of one program read, dump and write saves at the same time - different saves, the same bytes, or one shared loaded document that nobody edits - each obtains exactly the result it would obtain alone, in every interleaving, and a failure in one does not change the result of another.",
 ["schedules","inputs"],
 "all interleavings of up to four threads performing container, read, dump, JSON and write operations on independent or shared documents",
 "The tests are single-threaded.",
 [AR,GV,PS,JT,RD+"*.py"], [("per-call reader and writer objects; no shared mutable state",AR)], ["result or exception of every library call"])
prop("C09", "Writing or dumping a loaded save leaves it unchanged and repeatable",
 "Producing bytes or a JSON view from a loaded document never changes the document: any sequence of write, dump and JSON-encode calls on it, including calls that fail or are interrupted at any point, gives the same results every time and leaves the document equal to what it was.",
 ["histories","crash_points"],
 "all sequences of write/dump/encode calls on a loaded document (from SAV bytes or from JSON) and all points at which one of them is interrupted or fails",
 "The tests write each document once and never look at it afterwards.",
 [GV,AR,RD+"*.py"], [("encoders work on copies",AR)], ["document content before and after, bytes of every write"])
prop("C10", "Results do not depend on process history or environment",
 "What a conversion produces depends only on its input and options: not on conversions (successful, failed or interrupted) that the same process did before, on mutation of earlier results by the caller, on which UUID implementation is active, on the debug switch, on the locale's text encoding, the working directory, the time, or hash randomisation.",
 ["histories","configurations","fault_sequences"],
 "all sequences of earlier operations in the process, including failed and interrupted ones, and all combinations of environment settings",
 "The tests run each conversion once in a fresh, fixed environment; the two CI configurations cover only the two UUID implementations on the fixed samples.",
 [AR,GV,PT,CV,RD+"*.py"], [("no state kept between calls",AR),("explicit text encoding",CV)], ["bytes and JSON of every call"])
prop("C11", "The resave self-test's verdict is truthful",
 "The resave test reports that the files are the same, with status 0, only if converting the given save to JSON and back really reproduced its decompressed bytes and save type; in every other case - content that does not survive, a declined overwrite, damaged input, an I/O error, a kill - it does not report success. On a healthy system it does report success for every save that survives.",
 ["inputs","fault_sequences","histories"],
 "all inputs, including ones the tool cannot reproduce, left-over files of earlier runs, all replies at the prompts, and all I/O faults",
 "No test runs this command.",
 [RT,CV,PS], [("comparison of payload and save type",RT)], ["exit status and verdict text, files written"])
prop("C12", "A failed or killed run can always be repeated",
 "Once the cause of a failure is gone, running the same conversion again (with --force where the output exists) succeeds and yields exactly what an undisturbed first run yields, whatever the failed, killed or power-cut runs before it left behind, within a bounded number of steps.",
 ["histories","crash_points","fault_sequences"],
 "all sequences of up to four disturbed runs - any kill point, error, full disk, power loss - followed by an undisturbed one",
 "The tests never repeat a disturbed run.",
 [CV,RT,PS], [("outputs are independent of left-over files",CV)], ["output of the final run, exit status"])
prop("C13", "Runs that overlap in time never produce a mixed file",
 "When several runs of the tool overlap - writing the same output, or one reading a file that another is producing - every file any of them produces is at all times a complete product of exactly one run (or the earlier content), each reader sees one such complete version, and a run that succeeded is not harmed by another that failed or was killed.",
 ["schedules","crash_points"],
 "all interleavings of the file operations of up to three simultaneous runs, with kills of any of them",
 "The tests run one command at a time.",
 [CV,RT], [("output put in place in one step under a private temporary name",CV)], ["content of shared paths after every file operation"])
prop("C14", "Every run ends, and an interrupt is never swallowed",
 "Every conversion ends within a number of steps bounded by the size of its input, whatever that input contains, whatever is typed at the prompt, and also when input ends early. An interrupt (Ctrl-C) at any point ends the run with a nonzero status. An out-of-memory failure at any point ends it with a nonzero status too, or at most leads to data being kept undecoded, so that the result still converts back to exactly the same bytes.",
 ["inputs","fault_sequences","crash_points"],
 "all inputs including hostile lengths and counts, all reply streams, all points of interruption or allocation failure",
 "The tests use well-formed input and no interruption.",
 [AR,CV,RD+"*.py"], [("reads past the end raise",AR),("only narrow exception handlers",RD+"*.py")], ["executed lines per run, exit status, output"])
prop("C15", "Identifier text, equality and hashing agree",
 "Every 16-byte identifier has one textual form, reading that text gives the same identifier back, and equality and hashing agree with the bytes.",
 ["inputs"], "all 16-byte values", "A handful of values are tested.", [AR], [("UUID class",AR)], ["UUID API"])
prop("C16", "Edited foliage positions and rotations are stored to the format's precision",
 "A position or rotation edited in JSON is stored as the nearest value that the packed format can hold.",
 ["inputs"], "all finite numbers", "Only round trips of stored values are tested.", [AR,RD+"foliage_model_instance.py"], [("packed_vector, compressed_short_rotator",AR)], ["encoded bytes"])
prop("C17", "The generated object table matches the game data it was extracted from",
 "The table of map objects and their concrete classes equals what the extraction script yields on the game's data tables.",
 ["inputs"], "all game data tables", "Nothing tests the script.", ["scripts/extract_map_object_concrete_classes.py",RD+"map_concrete_model.py"], [("extraction script","scripts/extract_map_object_concrete_classes.py")], ["script output"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
