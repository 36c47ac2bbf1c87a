"""Writes the configurations of the checks in harness/*.json."""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness")
RUN = "Files, processes, signals, terminals and the log are stand-ins (harness/model, harness/modelrun): a command is a process that prints, exits with a code of its own, may block until it is killed."
TEA = "bubbletea's event loop is a stand-in (harness/modeltea) that applies messages to the real models one after another under a lock; drawing is left out."
FS = "Files are a stand-in (harness/model): a tree in memory whose calls succeed or fail as the real ones do."
YAML = "yaml.v3's parser runs on the host: symbolic text inside a Babfile is limited to plain or quoted printable scalars, whose parse it does not change."
SCHED = {"no_native": True, "why_no_native": "a schedule of goroutines cannot be forced on a native run"}
MOMENT = {"no_native": True, "why_no_native": "the moment of the cancellation cannot be forced on a native run"}
TERM = {"no_native": True, "why_no_native": "the view needs a terminal"}
NET = "The network is a stand-in (harness/modelnet) in the place of http.Client.Do that answers as the harness says or never; encoding/json runs on the host; xdg's choice of the cache directory is a stand-in."
CRASH = {"no_native": True, "why_no_native": "a crash, a power failure or an I/O error at a given operation cannot be forced on a native run"}
N = ["./internal/zzverif/model", "./internal/zzverif/modelrun", "./internal/zzverif/modelui", "./internal/zzverif/modelnet"]
M = ["./internal/zzverif/model", "./internal/zzverif/modelrun", "./internal/zzverif/modelui"]
T = M + ["./internal/zzverif/modeltea", "./internal/zzverif/modelview"]


def conf(cid, load, harnesses, bounds, outside, assumptions):
    hs = []
    for h in harnesses:
        h.setdefault("params", {})
        h.setdefault("thorough", dict(h["params"]))
        hs.append(h)
    json.dump({"pkg": "h" + cid[1:], "load": load, "harnesses": hs, "bounds": bounds, "outside": outside,
               "assumptions": assumptions}, open(os.path.join(H, cid + ".json"), "w"), indent=1)


conf("C11", T, [
    dict(fn="Items", params={"two": 1}),
    dict(fn="Tasks"),
    dict(fn="Undefined", native=True),
    dict(fn="Block", thorough={"two": 1, "blockgate": 1}, **TERM)],
    "A task with two items of any kind (command, task reference, log, prompt) and perhaps a third, each with any of four platform lists (none, this, another, both) and any of three conditions (none, equal, unequal) over a variable with any value; the same file as root and as include; a task with a condition and a dependency, reached as main task, dependency, reference (once or twice), parallel item, with or without a run list; a parallel block (interleaved, grouped with a terminal, limit 1) with platforms and a condition, whose items have their own.",
    "Platforms other than the one the check runs on; longer tasks; conditions over other syntax (C03).", [RUN, TEA, YAML])
conf("C12", T, [dict(fn="Levels"), dict(fn="Colour", **TERM)],
    "Environment at process, root, include, task and command level: each level sets, overrides or leaves a variable, with text, nothing, references to variables and to the environment; with the command run directly or in a parallel block. What commands are told about colour: a block with color true, false or not set, interleaved or in a view, with a limit or not, with a referenced task that has such a block of its own, where the command sets none or one of NO_COLOR, FORCE_COLOR and TERM itself; and commands before and after.",
    "More variables than the harness names; Windows' case-insensitive names.", [RUN, YAML])
conf("C13", M, [dict(fn="Levels", budget=90), dict(fn="Levels", params={"undefined": 1})],
    "A dir at global, included, task and command level, each absent, relative, absolute, with a variable (also one that makes it absolute, or one that is not defined), missing, a file, a symbolic link to a directory or to nothing; the file as root and as include in a directory of its own.",
    "Links that lead in circles; directories that change while bab runs.", [RUN, YAML])
conf("C14", M, [dict(fn="Levels")],
    "silent and output at global, included, task, reference, parallel block and command level, each absent, true or false, for a command reached directly, through a reference, in a parallel block, and in a block of a task that a reference, in a block or not, leads to.",
    "Views (C07, C27).", [RUN, YAML])
conf("C09", T, [
    dict(fn="Sequence", **MOMENT),
    dict(fn="Kill"),
    dict(fn="Before", **SCHED),
    dict(fn="Block", thorough={"limits": 3}, **SCHED),
    dict(fn="Left", **SCHED),
    dict(fn="Prompt", **SCHED),
    dict(fn="Picker", **SCHED)],
    "A run cancelled before it starts; while any of six commands of a task with dependencies, a reference and a log runs, which fails or not, ends by itself (also just before it would be killed) or only when killed, and leaves a child or not, with output shown or not; while any command below a parallel block (interleaved, grouped, tabs; limit 0 or 1, thorough: 2, too; nested block or not) runs, under every schedule without preemption; at any moment of a command, with its output not shown or in a block of any kind, that ends by itself and leaves a child that holds its output open; at any moment of a task with a prompt of any type, answered or not; at any moment while a task is picked, with up to two keys typed.",
    "Signal delivery itself (signal.NotifyContext, see C28); Windows; processes that leave their group.", [RUN, TEA, YAML])
conf("C30", M, [
    dict(fn="Tasks", thorough={"full": 1, "deco": -1}),
    dict(fn="Siblings", **SCHED)],
    "A task, its dependency, and a third task reached as dependency, reference, parallel item or dependency of the dependency, each with or without a variable of its own that hides a global one, a second that refers to the first, and a prompt for either or neither; a task that uses a variable only others define; the file as root and as include with or without global variables of its own; two parallel items that ask for the same variable; every schedule without preemption, with race detection.",
    "Answers typed at a terminal (C21); more tasks.", [RUN, YAML])
conf("C06", M, [
    dict(fn="Load", params={"n": 3, "patterns": 1, "deco": -1}, thorough={"n": 4, "self": 0, "included": 0, "deco": -1}),
    dict(fn="Load", params={"n": 2, "kinds": 1, "deco": -1}, thorough={"n": 3, "kinds": 1, "included": 0, "deco": -1}),
    dict(fn="Chain", params={"deco": -1}, thorough={"len": 24, "deco": -1}),
    dict(fn="Run", params={"n": 3}, thorough={"n": 3, "kinds": 1}),
    dict(fn="Both", preempt=1, preempt_thorough=2, **SCHED)],
    "Loading: every graph of 3 tasks (self-loops included), with the kinds of its edges (dependency, task reference, parallel item) in a pattern in which they differ (thorough: in three patterns; every combination of kinds; 4 tasks in three patterns; as far as the time allows), and every graph of 2 tasks with every combination of kinds, in every order in which the loader may visit the tasks; in the root file or an included one. Chains of up to 12 tasks (thorough: 24) of any kind of edge that end, return to any of them, or are rotated in the file. Neutral settings (silent, output, a true condition, this platform, unused variables and environment, the present directory, a limit, a mode) are spread over the tasks and items in a fixed pattern. A loader that walks the same tasks repeatedly does so in one order each run. Running without validation: the same graphs of 3 tasks; two tasks that run side by side and lead to each other directly or through a third, by every kind of edge, under every schedule with at most 1 preemption.",
    "More tasks; cycles of includes (C17).", [RUN, YAML])
conf("C18", T + ["./internal/zzverif/mainpkg"], [
    dict(fn="Refs", params={"len": 5, "other": 1, "deco": -1}, thorough={"len": 6, "other": 1, "deco": -1}),
    dict(fn="Refs", params={"len": 3, "other": 1, "order": 1}, thorough={"len": 5, "other": 1, "order": 1}),
    dict(fn="Aliases", params={"len": 3}, thorough={"len": 4}),
    dict(fn="Aliases", params={"len": 1, "order": 1}, thorough={"len": 3, "order": 1}),
    dict(fn="Places", native=True),
    dict(fn="Owners", native=True)],
    "Three files that include each other (five tasks); a reference by any name of up to 5 characters (thorough: 6) from any of the tasks, as dependency, task reference or parallel item, next to a second, dangling one; any two aliases of up to 3 characters (thorough: 4) before their namespace, of one task or two, as alias or in aliases; with three of the tasks and shorter names in every order in which the loader may visit the tasks. Neutral settings (silent, output, a true condition, this platform, unused variables and environment, the present directory, a limit, a mode) are spread over the tasks and items in a fixed pattern. The whole program (--validate of the nearest Babfile or of another one, a dry run, a run) with four files: a reference at any of three places of a list of dependencies, a run or a block, below a condition, on another platform, with other settings or in a task or block with any of those, to a task of its own file, of another or none; two aliases of eight, of a task of any file each, alone or at any place of a list.",
    "More tasks and files; what counts if one task lists an alias twice.", [RUN, YAML])
conf("C19", M, [
    dict(fn="Fields", thorough={"text": 2, "child": 1}),
    dict(fn="Enums"),
    dict(fn="PromptNames"),
    dict(fn="Merges"),
    dict(fn="Types"),
    dict(fn="Scalars"),
    dict(fn="Keys"),
    dict(fn="Nested"),
    dict(fn="Empty")],
    "A task with any combination of settings, and an item of each kind with any combination of settings (thorough: also of the items of a parallel block), with any one printable character (thorough: two) as each text; written directly, with aliases for all values, as an alias as a whole, or through one or more merge keys. Variables or an environment of up to three settings of their own and those of one or two others, merged in either order or in turn, with names that coincide and any one of four letters, among them the names, as value. A Babfile with every setting there is, in which any one value is replaced by any of 25 other forms (other types, empty, nested, self-referring, malformed), or any one setting is given twice, left out or contradicted. Every text of up to 12 characters where one of several words belongs; prompt names of up to 3 characters; texts in 17 spellings that YAML might take for another type; 22 documents that are no Babfile or an odd one.",
    "Unknown settings and null values (not asserted); documents with more than one of these at a time; YAML's own syntax (yaml.v3 is trusted).", [YAML])
conf("C17", M, [
    dict(fn="Intact", thorough={"text": 2, "child": 1}),
    dict(fn="Names"),
    dict(fn="Names", params={"order": 1}),
    dict(fn="Graph", thorough={"files": 4}),
    dict(fn="Graph", params={"files": 4, "dag": 1}),
    dict(fn="Run")],
    "A task with any combination of settings, and an item of each kind with any combination of settings (thorough: also of the items of a parallel block), with any printable character (thorough: two) as each text, included one or two levels deep next to tasks of the same names; all names of up to 4, 2 and 3 characters of a task and two namespaces over letters that make them collide (up to 3, 1 and 3 characters in every order in which the loader may visit them); every graph of includes of 3 files (thorough: 4), and every one of 4 in which a file includes later ones, once or twice, and at most one earlier one, in different directories, with plain, roundabout and absolute paths; a run of three tasks with edges of any kind, with or without global settings and any one setting of the main task, by name or alias, compared with the same run without the include.",
    "Symbolic links; more files.", [RUN, YAML])
conf("C21", T, [
    dict(fn="Batch"),
    dict(fn="Typed", params={"keys": 2}, thorough={"keys": 3}, **TERM)],
    "A prompt of each type with every combination of its settings from small sets (defaults that fit and that do not, a pattern, min, max, three options, confirmation, a variable in a default or an option): without a terminal on input or output, with any value of up to 2 characters for the variable; at a terminal, with any 2 keys (thorough: 3) that mean something to the type, then enter, the confirmation of a password, and giving up if the prompt still asks.",
    "How prompts are drawn; filtering in selections and other editing keys; terminals that do not deliver whole keys.", [RUN, TEA, YAML])
conf("C28", T + ["./internal/zzverif/mainpkg", "./internal/zzverif/modelnet"], [
    dict(fn="Commands", native=True, params={"deco": -1}, thorough={"deco": 7}),
    dict(fn="Several", native=True, params={"deco": -1}),
    dict(fn="Options", native=True),
    dict(fn="Completion", native=True),
    dict(fn="Interrupted", **MOMENT),
    dict(fn="Picker", **TERM),
    dict(fn="Notice", native=True),
    dict(fn="Summary", params={"free": 2, "limits": 0}, thorough={"free": 3, "limits": 3}, **TERM)],
    "The whole program from main on, with its arguments. A task, run by name or alias, with dependencies, a log, a reference and a parallel block (limit 0 or 1, either order, output shown or not), below which any one of nine commands ends with one of ten exit codes or by a signal, or any set of them fails, under every schedule without preemption; a Babfile that is fine, faulty in three ways or missing, found or named, with a task, an unknown task, a dry run, a listing, a validation, an unknown or malformed option, a second argument, any unknown shell of up to two characters; the completion scripts; the picker, which cannot be shown, is left or runs a task; an interruption while any of the nine commands runs; a released version that knows of a newer, the same or an older one or of none, or does not look, running a task that succeeds or fails, or anything else, on a Babfile that is fine or faulty; the summary of a parallel block of two items (thorough: three; grouped, tabs, at once or one after another, any order) that succeed, fail or are cancelled by ctrl+c at any of them. Neutral settings (silent, output, a true condition, this platform, unused variables and environment, the present directory, a limit, a mode) are spread over the tasks and items in a fixed pattern.",
    "Signal delivery by the system; other exit codes than those named; a prompt that is cancelled.", [RUN, TEA, YAML])
conf("C20", M + ["./internal/zzverif/mainpkg"], [
    dict(fn="Run", native=True, params={"len": 4}, thorough={"len": 6}),
    dict(fn="Run", params={"len": 2, "order": 1}, thorough={"len": 3, "order": 1}),
    dict(fn="Alias", native=True, params={"len": 2}, thorough={"len": 4}),
    dict(fn="Complete", native=True, params={"len": 4}, thorough={"len": 5}),
    dict(fn="Complete", params={"len": 2, "order": 1}, thorough={"len": 3, "order": 1})],
    "The whole program from main on. Three files that include each other, six tasks with seven aliases, some with the same names in different files; any text of up to 4 letters of 7 (thorough: 6) as task to run; any further alias of up to 2 letters (thorough: 4) for a task of any of the files; any text of up to 4 letters typed so far, the file found or named; shorter texts with three tasks and four aliases in every order in which tasks and aliases may be visited.",
    "More tasks; completion of options; what the shells make of the completions.", [RUN, YAML])
conf("C32", M, [
    dict(fn="Items", native=True),
    dict(fn="Settings", native=True),
    dict(fn="Words", native=True),
    dict(fn="Required", native=True),
    dict(fn="Bounds", native=True),
    dict(fn="Names", native=True, thorough={"name": 4}),
    dict(fn="Published", native=True)],
    "Items: each of ten kinds of items with any two of the settings it may have, each with two to three values, in a task or a parallel block; Settings: a task with any two settings next to each setting of the file; Words: any text of up to 12 small letters, L, blank and hyphen as level, platform, mode, prompt type; Required: items that lack a required setting, have it empty, are two kinds at once, or stand where they may not; Bounds: limits -3 to 3, lists of 0 to 2 options and items; Names: any printable name of up to 3 (thorough 4) characters without quotes and backslash as task, alias, dependency, reference, namespace, variable, prompt; Published: the file in the repository against the schema of the code, whole.",
    "Unknown settings, values of other types that YAML or bab converts, conditions between settings (options only for select), names of included files, formats; what validators other than the one in harness/h32 do.", ["The validator of harness/h32 implements the keywords the schema uses as JSON Schema draft-07 defines them (no patternProperties, dependencies, contains, multipleOf).", YAML])
conf("C34", M + ["./internal/zzverif/mainpkg"], [
    dict(fn="Tasks", native=True),
    dict(fn="Files", native=True),
    dict(fn="Orders"),
    dict(fn="Many", native=True),
    dict(fn="Descriptions", native=True),
    dict(fn="Empty", native=True)],
    "Any three of nine names (plain, with namespaces, a task named like a namespace, upper case, a prefix of another, four levels deep), in two orders, the first and the last with no alias, one, two or three and with or without a description; two levels of included files with and without clashing namespaces, aliases equal to a namespace, two free characters in a description, --list alone, with a Babfile named while another is nearer, with a task, with --dry-run; every order in which four tasks may be visited; eight descriptions with line breaks, tabs and blanks, compared up to blanks; 7 to 64 tasks with aliases and namespaces; no tasks.",
    "Colours and the way the tree is drawn; column alignment; quotes and backslashes in the free characters; how wide a name is on a terminal.", [RUN, YAML])
conf("C35", M + ["./internal/zzverif/mainpkg"], [
    dict(fn="Commands", native=True),
    dict(fn="Logs", native=True),
    dict(fn="Input", **TERM)],
    "A text out of 22 pieces (blanks, quotes, $, newlines, tabs, comments, percent signs, other characters, placeholders, escaped and other braces) alone or joined with another, a text with any two characters between two placeholders, or texts of 80 to 5000 characters; as command or as log of each level; in the task that is run, a dependency, a referenced task, a parallel block, a task of a parallel block, an included file; output and silent set or not; with and without --verbose. A command at any of these places that reads its input, a terminal or not.",
    "Windows' shell; how the log library breaks and colours lines; quotes, backslashes, $ and { among the free characters.", [RUN, YAML])
conf("C24", T + ["./internal/zzverif/mainpkg"], [
    dict(fn="Names"),
    dict(fn="Same"),
    dict(fn="Links"),
    dict(fn="Deep", native=True, thorough={"depth": 60}),
    dict(fn="Named", native=True),
    dict(fn="Modes", native=True)],
    "Three directories below one another, working in any of them: each of the five names in any of them or none, as file or directory; three of the fifteen paths, as file or directory, so also the same name in several directories; one name or none in each, with the whole program, which gets no path, an absolute one, a relative one, one of a directory or a missing one. Files of similar names and in other directories are always there, .git directories, too, and the variables PWD and HOME name other directories. One Babfile and, at any other path, a symbolic link to another one, to a directory or to nothing. A Babfile of any name at any level above a directory 24 levels deep (thorough: 60), with or without another one at the top. A run, a dry run, a listing, a validation, a completion and the picker, with the nearest Babfile anywhere or nowhere and another one named or not, with a fault in either or neither.",
    "Unreadable directories, links that lead in circles, case-insensitive file systems, a working directory that was removed.", [FS, RUN, YAML])
conf("C10", T + ["./internal/zzverif/mainpkg"], [
    dict(fn="DryRun", native=True, params={"items": 2, "deco": -1}, thorough={"items": 3, "deco": -1}),
    dict(fn="DryRun", params={"items": 1, "deco": 8}),
    dict(fn="Answer", native=True),
    dict(fn="Options", **TERM),
    dict(fn="Faulty", native=True)],
    "The whole program from main on. A dry run of a task with a dependency and two items (thorough: three), each one of 16 kinds (commands, with environment, directory, condition, platform; logs; prompts of every type, with a default or without; a reference; a parallel block in any mode), with a variable that is not defined in any of them or in the dependency or nowhere, with a terminal or without; a prompt whose answer is used in seven ways, or another one; every combination of -n, -l, --validate, -c bash and -v with no task, a task, an alias that reads like an option or an included task before or after them; a faulty or missing Babfile. Neutral settings (silent, output, a true condition, this platform, unused variables and environment, the present directory, a limit, a mode) are spread over the tasks and items in a fixed pattern; with one item in any of eight patterns.",
    "More items; what a dry run prints.", [RUN, TEA, YAML])
conf("C29", T + ["./internal/zzverif/mainpkg"], [
    dict(fn="Items"),
    dict(fn="Running", native=True),
    dict(fn="Settings", native=True),
    dict(fn="One", native=True),
    dict(fn="Whole", native=True),
    dict(fn="Syntax", native=True),
    dict(fn="Many", native=True, params={"files": 2}, thorough={"files": 3}),
    dict(fn="Many", params={"files": 1, "order": 1})],
    "Three files that include each other, one of which has a task with a fault: any of 21 in an item that loading finds (also within parallel blocks), 22 that running finds, 19 in the settings of the task, after 0 to 2 further lines, a description of several lines or none, seen from two working directories; four faults at once (three invalid references and an alias that clashes, or four malformed items and settings), each in any of two files (thorough: three) or nowhere; those of one file in every order in which tasks may be visited. Seven faults that concern a whole of the three files (a global variable that is not defined or in a circle, an include that is missing, leads back or collides, tasks in a circle), and nine of YAML's syntax on any of seven lines: the file is named, for syntax with the line YAML names.",
    "Lines of errors about includes, cycles and global variables, which carry none; columns; whether YAML names the right line.", [RUN, TEA, YAML])
conf("C22", N, [
    dict(fn="Crash", **CRASH),
    dict(fn="Faults", params={"faults": 2}, thorough={"faults": 4}, **CRASH),
    dict(fn="FaultThenCrash", **CRASH),
    dict(fn="Exit", preempt=2, preempt_thorough=4, **CRASH),
    dict(fn="Two", preempt=2, preempt_thorough=3, **CRASH),
    dict(fn="Leftovers"),
    dict(fn="Damaged", native=True)],
    "A check for updates that saves its answer, over a cache that is missing, old or damaged: the process dies before any of its first 12 changes to the file system (or half-way through a write), with or without losing what was not made durable; any two file operations fail (thorough: four); one fails and the process dies later; the program ends, cancelled or not, at any of the steps of its background check; two programs save at once with up to 2 preemptions (thorough: 3). Six kinds of further files of four ages. A cache that is one of twenty odd documents, cut off at any byte, changed at any byte to any of seven, or dated in the future.",
    "Renames that are reordered before the data they rename becomes durable although the file was synced; damage of several bytes.", [FS, NET])
conf("C23", N, [
    dict(fn="Versions", thorough={"full": 1}),
    dict(fn="NoVersion"),
    dict(fn="Disabled", native=True),
    dict(fn="Age", native=True),
    dict(fn="Answers", native=True)],
    "Any running version and any latest one of up to 8 forms with any digits (with and without v, one to three numbers, two-digit numbers, pre-releases of several forms, build metadata); 13 texts that are no version; every way to disable the check, each with any cache and five kinds of runs; any age of the last check from -55 to 55 hours, to the second; any of 42 answers of the server, or none, with any of four caches, with a task that succeeds or fails and a background check that is slow or not.",
    "Version numbers of more digits; pre-releases of more than two parts; CI set to other values than true, 1 and empty.", [FS, RUN, NET])
