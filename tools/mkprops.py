#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = hook
    P.append(d)

p("C01", "Folder-locked functions never act outside their folder",
  "A file function that was locked to a folder never opens, lists, inspects, creates or changes anything outside that folder, whatever path text a template passes to it and whatever I/O errors or concurrent changes happen meanwhile. A path that climbs out of the folder or is absolute and lies elsewhere is answered with an error. (Writing may create the folder itself and its missing ancestors; symbolic links that already exist inside the folder are followed.)",
  ["inputs", "fault_sequences", "schedules", "configurations"],
  "every path text, every spelling of the locked folder (absolute, relative, trailing slash, empty), every locked function, every I/O fault, every folder content including hostile template files that are scanned",
  "No existing test calls a locked function; the guarantee is about all path texts and all I/O outcomes, and a test that did go wrong would damage the machine it ran on.",
  ["src/funcs/folder.rs", "src/funcs/write.rs", "src/funcs/mod.rs", "src/func_man.rs"],
  [("safe_path: lexical check of the joined path", "src/funcs/folder.rs"), ("with_folder_lock / with_write_lock capture the folder", "src/funcs/mod.rs")],
  observe=["every system call the call makes, as recorded by the simulated kernel"])

p("C02", "Effects on the outside world are opt-in per function set",
  "A render, call or front-matter evaluation only reads files, writes files, starts processes or reads environment variables if the function set that provides that effect was added to the function manager it uses; with the default set none of these ever happens, and parsing never has any effect. File-reading functions never create, change or delete anything, and writing never reads, lists or deletes. Files that are scanned are evaluated with the default functions only, whoever scans them.",
  ["configurations", "inputs", "programs", "fault_sequences"],
  "every combination and order of function sets, every function they register, every argument list, every template",
  "No test observes effects at all; absence of an effect over all functions and arguments cannot be sampled by asserting on rendered text.",
  ["src/funcs/mod.rs", "src/func_man.rs", "src/funcs/folder.rs", "src/funcs/free_file.rs", "src/funcs/exec.rs", "src/funcs/write.rs", "src/template.rs"],
  [("WithFuncs::with_* register disjoint groups", "src/funcs/mod.rs"), ("scan_dir evaluates with BasicFuncs::with_defaults", "src/funcs/folder.rs, src/funcs/free_file.rs")],
  observe=["system calls recorded by the simulated kernel"])

p("C03", "A file read returns the whole current content or an error",
  "Reading files (as text, as bytes, or loading one as a template) yields exactly the bytes the named files hold at the time of the call, joined in argument order, or an error; it never yields a shortened, repeated, reordered, substituted or remembered content. Interrupted and partial reads do not show in the result, text that is not UTF-8 is an error rather than altered, and a file replaced atomically during the read is seen as wholly old or wholly new.",
  ["inputs", "fault_sequences", "schedules", "histories"],
  "all contents and sizes, all chunkings and interruptions of reads, an error at any system call, any interleaving with replacement or rewriting of files between and during calls, locked and free variants",
  "The tests read three small files with std's own reader and none through the library; no test sees a short read, an error in the middle of a file, or a file that changes.",
  ["src/funcs/folder.rs", "src/funcs/free_file.rs", "src/template.rs"],
  [("read_to_string / read_to_end with ? propagation", "src/funcs/folder.rs, src/funcs/free_file.rs"), ("TreeTemplate::load", "src/template.rs")])

p("C04", "Directory listings and file tests are exact",
  "Listing a directory yields the name of every entry exactly once, and one such list per directory when several are given; scanning yields one record with the right full path, folder and file name for every regular file at most the given number of folders below the start, leaving out entries whose name (or whose folder's name) starts with an underscore and files whose full path does not match the given regular expression (a file that cannot be opened may be left out). A listing that fails part-way is an error, not a shorter list, and an entry present during the whole call is never missed because of unrelated changes. The file and directory tests are true exactly when every given path is currently of that kind, and never true because of an error.",
  ["inputs", "fault_sequences", "schedules", "histories"],
  "all directory trees, entry orders, depths, filters, errors in any directory call, and concurrent creation, deletion and replacement of entries",
  "No test lists or scans a directory through the library, and none can make a directory read fail half-way or change underneath.",
  ["src/funcs/folder.rs", "src/funcs/free_file.rs"],
  [("do_dir", "src/funcs/folder.rs, src/funcs/free_file.rs"), ("do_scan_dir recursion, depth and filters", "src/funcs/folder.rs, src/funcs/free_file.rs"), ("is_file / is_dir", "src/funcs/folder.rs, src/funcs/free_file.rs")])

p("C05", "A scan reports a file's own complete front matter or none",
  "The front matter in a scanned file's record is exactly what evaluating that file's complete content in isolation exports; a file that cannot be read completely or parsed contributes no front matter. No file's content, failure or unreadability changes what any other file's record contains, drops another file's record, or makes the scan fail.",
  ["inputs", "fault_sequences", "histories"],
  "all mixes of good, malformed, binary, failing and unreadable files, in every listing order, with a read error after any number of bytes, repeated scans after edits",
  "No test scans; the damage (half a file's front matter reported as if it were all of it) needs a read error in the middle of one file among several.",
  ["src/funcs/folder.rs", "src/funcs/free_file.rs", "src/template.rs"],
  [("do_scan_dir reads, parses and evaluates each file", "src/funcs/folder.rs, src/funcs/free_file.rs"), ("front_matter", "src/template.rs")])

p("C06", "A write that reports success stored exactly its content",
  "When writing a file reports success, the named file holds exactly the given content (all content arguments in order for the unrestricted variant) and nothing else, missing parent folders exist, and no other file or folder was changed; a write that nothing prevents succeeds. When a write cannot store everything it reports an error; a failed write, or a crash at any point of it, changes nothing but its target and the folders leading to it, and a write rejected for its arguments changes nothing at all.",
  ["inputs", "fault_sequences", "crash_points", "schedules"],
  "all contents, sizes, previous contents and folder layouts, short and interrupted writes, full disk or I/O error at any call, a crash after any call, and concurrent writers of other files in the same folders",
  "No test writes anything through the library, and none can fill a disk, tear a write or crash.",
  ["src/funcs/write.rs", "src/funcs/free_file.rs"],
  [("create_dir_all, open with truncate, write! with ?", "src/funcs/write.rs, src/funcs/free_file.rs")])

p("C07", "Running a command returns all it printed on standard output",
  "Running an external command starts it exactly once with exactly the given program and arguments (no shell interpretation, splitting or dropping), in the process's own working directory and environment, and yields everything it wrote to standard output until it ended, and nothing else, however its output is timed, chunked or interleaved with its error output, and whatever its exit status. If it cannot be started, or its output is not UTF-8, or the wait for it fails, the result is an error.",
  ["inputs", "schedules", "fault_sequences"],
  "all argument vectors, all interleavings of the command's reads, writes and exit with the caller, all pipe capacities and chunkings, large error output, interrupted calls, failing pipe, spawn and wait calls",
  "No test runs a command; the losses and hangs depend on the relative timing of two processes.",
  ["src/funcs/exec.rs"], [("exec: Command::output", "src/funcs/exec.rs"), ("exec_stdin: spawn + wait_with_output", "src/funcs/exec.rs")])

p("C08", "Piping text into a command delivers all of it and never hangs",
  "Running a command with standard input gives it exactly the given text followed by end of input, for any size of text and of output, and always finishes once the command itself would finish when its input is supplied and its output read. A command that stops reading early, or never reads, still yields its output instead of an error or a hang; the result does not depend on how caller and command are interleaved.",
  ["inputs", "schedules", "fault_sequences"],
  "all input and output sizes relative to the pipe capacities, commands that stream, buffer, stop early or ignore their input, all interleavings, interrupted and partial writes, failing spawn calls",
  "Small inputs fit in the pipes, so any test of ordinary size passes; deadlock and broken-pipe outcomes depend on sizes and scheduling.",
  ["src/funcs/exec.rs"], [("exec_stdin writes the input, then waits", "src/funcs/exec.rs")])

p("C09", "No descriptor, process or thread outlives the call that made it",
  "When a library call returns, successfully or not, every file, directory and pipe it opened is closed, every process it started has ended and been collected, and every helper thread has ended. This holds on every error path.",
  ["fault_sequences", "schedules", "histories"],
  "an error at any system call of any function that opens something, any interleaving with the child process, any sequence of calls",
  "Leaks are invisible in results; they appear on error paths that tests cannot force.",
  ["src/funcs/exec.rs", "src/funcs/folder.rs", "src/funcs/free_file.rs", "src/funcs/write.rs", "src/template.rs"],
  [("RAII of File, ReadDir, Child handles", "src/funcs/*.rs"), ("explicit wait of the child", "src/funcs/exec.rs")])

p("C10", "Environment lookups give the current value, else the default",
  "Looking up an environment variable gives its value at that moment; if it is unset (or not valid text) it gives the supplied default, and without a default it is an error. An empty value is a value, not an absence.",
  ["histories", "schedules", "inputs"],
  "all histories of sets, unsets and lookups by several renders and the host, all names, values and defaults",
  "No test looks up a variable, and remembering a value is only visible over a history of changes.",
  ["src/funcs/exec.rs"], [("env", "src/funcs/exec.rs")])

p("C11", "Host functions run exactly once per evaluation, in document order",
  "During a render every function call in the template that is reached is made exactly once with its evaluated arguments, arguments left to right before the call and items in document order, with blocks evaluated before the function applied to them; nothing that the language does not need is called: untaken branches, unselected values, alternatives after the first usable one, and cases after the matching one. This also holds when calls fail.",
  ["programs", "fault_sequences", "histories"],
  "all templates built from the language's constructs, all data, and any subset of host calls failing",
  "The tests only compare final text of single templates with pure functions, so a repeated, skipped, reordered or speculative call is invisible to them.",
  ["src/expr.rs", "src/template.rs", "src/pattern.rs"],
  [("run_command / run_values argument evaluation", "src/expr.rs"), ("TreeItem::run, run_block", "src/template.rs"), ("match_data filters", "src/pattern.rs")])

p("C12", "A failure aborts the render unless the language absorbs it there",
  "If any function call, lookup or template call needed for the output fails, the render returns that as an error and no text; it never panics and never silently drops or replaces the failing part. Only a first-of-alternatives call (tries the next), an if condition (counts as false), a pattern's test (does not match) and a list filter's test (leaves the element out) absorb failures, and then the render continues as if only that value were missing.",
  ["programs", "fault_sequences"],
  "all templates, any set of host calls or template lookups failing at any point, wrong argument counts for the language's own commands",
  "Tests contain no failing host call; each failure position times each construct is a different path.",
  ["src/expr.rs", "src/template.rs", "src/pattern.rs"],
  [("? propagation in run_block and Expr::run", "src/template.rs, src/expr.rs"), ("first, if, Filter absorb errors", "src/expr.rs, src/template.rs, src/pattern.rs")])

p("C13", "Names bound inside a block are invisible outside it",
  "A name bound inside a branch, loop body, case, pattern block or function block is visible until that block ends and not afterwards, however the block ends and whatever earlier blocks did, including pattern blocks and cases that did not match; captures of a pattern that failed are never visible. (The key and value names of a loop and the name a function block is bound to belong to the block that contains the construct.) An inner binding hides an outer one only until its block ends, and a name exported from any depth is part of the render's exports, with the last export of a name winning.",
  ["programs", "fault_sequences", "histories"],
  "all nestings of blocks, bindings and exports, including blocks after unmatched patterns and after absorbed failures",
  "The tests use one or two bindings at a time; leaking needs a particular sequence of an unmatched or failing construct followed by a binding and a later lookup.",
  ["src/scope.rs", "src/template.rs", "src/pattern.rs"],
  [("scope stack push/pop", "src/scope.rs"), ("run_block, Switch, As", "src/template.rs"), ("Capture and Filter", "src/pattern.rs")])

p("C14", "A called template sees its own parameters, not its caller's names",
  "A template that is called (defined in place, global, or supplied by the template manager) sees exactly the arguments of that call, by position and by declared name, and none of its caller's variables; its bindings, exports and return marker do not reach the caller. The call's value is its returned value if it returned one, else its text. A name is resolved at call time: a host function wins over a template of the same name, and otherwise the most recent definition in the manager is used, by this and later renders.",
  ["programs", "histories", "fault_sequences"],
  "all call graphs without unbounded recursion, redefinitions and manager outages between and during renders sharing a manager",
  "The tests make one call of one definition; redefinition, precedence, nested calls, and a manager that fails and recovers need histories.",
  ["src/expr.rs", "src/template.rs", "src/temp_man.rs", "src/scope.rs"],
  [("run_values lookup order", "src/expr.rs"), ("run command", "src/expr.rs"), ("Scope::with_pnames", "src/scope.rs"), ("insert_t / get_t", "src/temp_man.rs")])

p("C15", "Rendering the same template with the same data gives the same text",
  "Rendering the same template with equal parameters, functions and templates gives the same text, exports and error outcome every time, in every process and thread; nothing in the result depends on hidden randomness such as hash seeds or memory addresses. The only exceptions are functions whose purpose is randomness or reading the outside world.",
  ["configurations", "inputs", "programs", "schedules"],
  "all values of the process's hash seeds and entropy, all threads, all templates and data, including maps that are looped over, printed or serialised",
  "Each test runs a template once in one process and avoids looping over or printing a map with several keys, because that would already fail sometimes.",
  ["src/template.rs", "src/tdata.rs", "src/funcs/format.rs", "src/tparam.rs"],
  [("For over a map", "src/template.rs"), ("Display / Debug / Serialize of maps", "src/tdata.rs")])

p("C16", "Concurrent renders do not influence each other",
  "Renders running at the same time in several threads of one process, sharing parsed templates and files, each produce exactly what they would produce alone, under every interleaving and whatever failures the others meet. Rendering never changes a template or the parameters it was given: repeating a render in the same thread, also after a failed one, gives the same result.",
  ["schedules", "fault_sequences", "histories"],
  "all interleavings of renders at host callbacks, lock operations and system calls, any of them failing, any sequence of earlier renders in the same thread",
  "Every test is one render on one thread.",
  ["src/template.rs", "src/expr.rs", "src/scope.rs", "src/funcs/lists.rs", "src/funcs/mod.rs"],
  [("no shared mutable state; templates borrowed immutably", "src/template.rs, src/expr.rs")])

p("C17", "Random draws stay in range, reach every choice, and fail cleanly",
  "Whatever entropy the system supplies, a random draw is a number at least the lower bound (0 by default) and below the upper bound, of the bounds' type, or an element of the given list; every value of a small range and every element can occur, and separate draws are independent. An empty range or list is an error, never a panic.",
  ["inputs", "histories", "configurations"],
  "all entropy streams, all bounds, lists and draw sequences",
  "No test draws a random number; rare values of a draw cannot be forced by running it.",
  ["src/funcs/random.rs"], [("get_rand", "src/funcs/random.rs")])

p("C18", "Diagnostic output never breaks or changes a render",
  "Functions that print diagnostics as a side effect give the same result whether the standard output and error streams work, are full, closed or broken, and never panic because of them. Nothing else the library does on behalf of a template depends on those streams.",
  ["fault_sequences", "configurations"],
  "every failure of every write to the standard streams, at any time, in any function",
  "Under the test runner the standard streams always work.",
  ["src/funcs/strings.rs", "src/funcs/folder.rs", "src/funcs/free_file.rs"],
  [("debug", "src/funcs/strings.rs"), ("scan_dir's no-match notice", "src/funcs/folder.rs, src/funcs/free_file.rs")])

p("C19", "Front matter collects each export that can be evaluated by itself",
  "Front matter evaluation never fails and yields exactly the top-level exports (values and blocks) that can be evaluated without parameters and without templates, in document order with the last one winning; an export that fails is simply absent. A failing export leaves nothing behind that a later export can see, and nothing besides the exports is evaluated.",
  ["programs", "fault_sequences"],
  "all templates, any subset of host calls failing while exports are evaluated",
  "No test calls it; the leak needs an export block that binds a name, then fails, followed by an export using that name.",
  ["src/template.rs"], [("front_matter", "src/template.rs")])

p("C20", "Image dimensions are the image's real ones or an error",
  "Asking for an image file's dimensions yields the width and height stored in that file's content at the time of the call, or an error, whatever partial or interrupted reads, truncations and read errors occur; both variants agree on intact files.",
  ["inputs", "fault_sequences", "histories"],
  "all dimensions of the supported simple formats, every truncation point, every chunking, an error at any read, files rewritten between calls",
  "No test reads an image.",
  ["src/funcs/folder.rs", "src/funcs/free_file.rs"],
  [("file_img_dimensions", "src/funcs/folder.rs, src/funcs/free_file.rs")])

p("C21", "A failure is not remembered once its cause is gone",
  "Once the cause of a failure is gone (an I/O error, a failing host function or template manager, a missing file, a broken command, a panicking host callback), the same call or render on the same function manager, template manager and template gives what a fresh one would give: no failure, partial content, half-made change of state or lock is remembered, and a failed write repeated without the fault succeeds and leaves exactly its content.",
  ["histories", "fault_sequences", "schedules"],
  "all sequences of calls and renders on one function manager in which any system call of any call fails, followed by the same calls without faults, by one or several threads",
  "No test makes anything fail and then repeats it; caches, poisoned locks and half-applied state only show over such a history.",
  ["src/funcs/folder.rs", "src/funcs/free_file.rs", "src/funcs/write.rs", "src/funcs/exec.rs", "src/func_man.rs", "src/temp_man.rs", "src/template.rs"],
  [("function closures hold only their folder", "src/funcs/mod.rs"), ("each call opens its files anew", "src/funcs/folder.rs, src/funcs/free_file.rs"), ("scope is made per render", "src/template.rs")])

p("C22", "Every call and render comes to an end",
  "Whatever fails and however often, and however threads, commands and interrupted or partial I/O are interleaved, every call, render, front-matter evaluation, scan and template load returns (with a result, an error, or a host function's own panic passed on) after a bounded number of steps, provided that the template does not call itself without end and every command it runs ends once its input is supplied and its output read. A thread that is delayed, fails or panics never keeps another from finishing, and a host function may render again with the same functions.",
  ["liveness", "schedules", "fault_sequences"],
  "all interleavings of several threads' calls and renders (also nested in host functions) and children, with any set of system calls failing once, repeatedly or for ever",
  "No test has a second thread, a failure that repeats or a host function that renders; a retry loop, a lock held across a callback or a pipe that fills shows only then.",
  ["src/funcs/exec.rs", "src/funcs/folder.rs", "src/funcs/free_file.rs", "src/funcs/write.rs", "src/template.rs", "src/expr.rs"],
  [("exec_stdin feeds and drains concurrently", "src/funcs/exec.rs"), ("scan is bounded by its depth argument and skips symbolic links", "src/funcs/folder.rs, src/funcs/free_file.rs"), ("no lock is held while a function runs", "src/pipeline.rs, src/expr.rs")])

# ---- properties that are pure functions of their input: listed, not claimed ----
p("D01", "Every text parses to a template or an error, keeping literal text",
  "Parsing any text terminates with a template or an error and never panics; text outside tags is reproduced unchanged apart from the documented escapes and whitespace trimming.",
  ["inputs"], "all texts", "Tests parse some twenty templates.",
  ["src/parse/template.rs", "src/parse/expr.rs", "src/parse/pattern.rs"], [("TFile grammar", "src/parse/template.rs")])
p("D02", "Arithmetic is exact or an error",
  "Number functions give the mathematically right result in the result type, or an error, for all operands, and never wrap or panic.",
  ["inputs"], "all operand lists", "Tests compute two sums.",
  ["src/funcs/math.rs"], [("fold / num_match", "src/funcs/math.rs")])
p("D03", "Comparison, sorting and searching agree with one total order",
  "Sorting yields a permutation ordered by the comparison functions, and searching a sorted list finds an element exactly when it is there.",
  ["inputs"], "all lists and criteria", "Tests sort two lists.",
  ["src/tdata.rs", "src/funcs/lists.rs", "src/funcs/bools.rs"], [("PartialOrd for TData", "src/tdata.rs"), ("sort_on, bin_search, bin_get", "src/funcs/lists.rs")])
p("D04", "Escaped text cannot break out of HTML or XML",
  "Escaping functions yield text that an HTML or XML parser reads back as the original, with no markup.",
  ["inputs"], "all strings", "No test escapes anything.",
  ["src/funcs/strings.rs", "src/funcs/svg.rs"], [("html_esc", "src/funcs/strings.rs"), ("xml_esc", "src/funcs/svg.rs")])
p("D05", "Host data (JSON, TOML, cards) reaches templates unchanged",
  "A value passed as a parameter or read from JSON, TOML or card text has the same structure and values in a template, and reading back written JSON gives an equal value.",
  ["inputs"], "all data values", "Tests pass a few JSON values.",
  ["src/tdata.rs", "src/tparam.rs", "src/funcs/format.rs"], [("from_json / from_toml / From<&Card>", "src/tdata.rs")])
p("D06", "Pure built-in functions never panic on any arguments",
  "Calling any side-effect-free built-in function with any number and kind of arguments yields a value or an error.",
  ["inputs"], "all argument lists", "Tests call them with well-formed arguments.",
  ["src/funcs/lists.rs", "src/funcs/math.rs", "src/funcs/strings.rs", "src/funcs/table.rs"], [("argument checks", "src/funcs/*.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for d in P: f.write(json.dumps(d) + '\n')
print(len(P))
