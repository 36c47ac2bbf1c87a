#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
      state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=hook)))

p("C01","Interpolation replaces exactly the placeholders, once, and nothing else",
  "Interpolating a text yields that text with every `${{ name }}` replaced verbatim by the value of the variable (or by the OS environment variable for `env.NAME`), every `$${{` turned into a literal `${{`, and every other byte unchanged. Substituted values are never scanned again. A placeholder naming an undefined variable makes the whole interpolation an error, and an interpolation without one never fails.",
  ["inputs"],"every template text and every assignment of values to variables",
  "Tests try a dozen hand-written templates; escapes next to placeholders, values that themselves contain `$`, braces or quotes, and adjacent placeholders are unbounded in number.",
  ["internal/interpolate/interpolate.go"],[("Interpolate","internal/interpolate/interpolate.go"),("Pattern/EscapePattern","internal/interpolate/interpolate.go")],observe=["interpolate.Interpolate result"])
p("C02","Variables resolve to the same values in any order; cycles are errors",
  "Resolving a set of variables gives each one its definition with every reference replaced by the referenced variable's resolved value, a definition of the inner scope winning over the outer one, whatever order the definitions are visited in. A reference cycle or an undefined reference is reported as an error naming it, an escaped `$${{` is not a reference, and resolution always terminates. The caller's maps are never modified.",
  ["inputs","schedules"],"every reference graph between variables, every definition text, every map iteration order",
  "Go randomises map iteration, so one test run sees one order; the tests use a few fixed graphs.",
  ["internal/interpolate/interpolate.go"],[("ResolveVarsWithLocation","internal/interpolate/interpolate.go")],observe=["interpolate.ResolveVars result","Runner.GlobalVars"])
p("C03","when conditions decide by value: truthy, equal, not equal",
  "A `when` of the form `X == 'lit'` (or double quotes) holds exactly when the interpolated X equals lit, `X != 'lit'` exactly when it does not, and any other condition holds exactly when its interpolated text, trimmed, is neither empty nor `false` in any letter case. The outcome depends on the values of the variables as opaque strings: no value (empty, with quotes, with operators, with line breaks) can change which comparison is made. An undefined variable is an error, never a silent run.",
  ["inputs"],"every condition of the documented forms and every variable value",
  "Tests use a handful of well-behaved values such as prod and staging.",
  ["internal/condition/condition.go"],[("Evaluate","internal/condition/condition.go"),("shouldSkipRunItem / task.When","internal/runner/runner.go")],observe=["condition.Evaluate result"])
p("C04","A task runs after its dependencies, in order, and stops at the first failure",
  "In a sequential run the commands of a task start only after every dependency in its `deps` list has finished successfully, dependencies run in listed order and run items in listed order. When a command fails, the run reports failure, and no further command of the failing task or of any task that (directly or transitively) waits for it starts. A run reports success only if everything it was asked to run succeeded.",
  ["inputs","fault_sequences","programs"],"every acyclic task graph within the bound and every pattern of command failures",
  "Tests run two or three fixed graphs whose commands all succeed.",
  ["internal/runner/runner.go"],[("runTask","internal/runner/runner.go"),("executeTask","internal/runner/runner.go")],observe=["order of child processes started","error returned by Runner.Run"])
p("C05","Each task executes at most once per invocation",
  "In one invocation of bab the run items of any one task are executed at most once, however many tasks depend on it or refer to it, sequentially or from parallel blocks. If the invocation succeeds, every dependency and every referenced task whose conditions hold was executed exactly once.",
  ["programs","schedules"],"every task graph within the bound, every schedule of parallel branches",
  "Tests have no shared dependency reached from two concurrent branches.",
  ["internal/runner/runner.go","internal/runner/parallel.go"],[("syncState.claim","internal/runner/parallel.go"),("preResolveDeps","internal/runner/parallel.go")],
  state=[("syncState.state","per-task running/done marker","internal/runner/parallel.go")],observe=["child processes started"])
p("C06","Circular task graphs are rejected, acyclic ones never are",
  "Loading a Babfile whose tasks refer to each other circularly through any mix of `deps`, `task:` items and items of parallel blocks fails with a circular-dependency error, in any definition order; a Babfile without such a cycle is never rejected for one. Running a circular graph that bypassed validation also ends in a circular-dependency error instead of running forever.",
  ["programs","schedules"],"every task graph within the bound, every map iteration order",
  "Tests contain two fixed cycles of length two.",
  ["internal/parser/validate.go","internal/runner/runner.go"],[("validateRunCycles","internal/parser/validate.go"),("claim/running","internal/runner/runner.go")],observe=["parser.Parse error","Runner.RunWithTasks error"])
p("C07","A parallel block runs every item, respects its limit, and reports failure",
  "A parallel block starts every one of its items exactly once, never has more than `limit` items running at the same time when a limit above zero is set, keeps as many running as that allows (all of them without a limit), and finishes only after all started items have finished. It reports success exactly when every item succeeded, whatever the schedule; a cancelled run that left items unstarted is not a success. A failing item does not keep the other items from running.",
  ["schedules","fault_sequences"],"every schedule, limit and failure pattern within the bound",
  "Tests cannot control the interleaving of the worker goroutines or the moment of a cancellation.",
  ["internal/runner/parallel.go"],[("semaphore channel and WaitGroup","internal/runner/parallel.go")],observe=["start/finish of child processes","error of Runner.RunWithTasks"])
p("C08","Parallel execution is free of races, deadlocks and spurious failures",
  "For every schedule of the branches of a parallel block in a valid (acyclic) Babfile the run terminates, no shared state is accessed concurrently without synchronisation, and whether the run succeeds depends only on the outcome of its commands, not on the interleaving: in particular a task reached from two branches is never reported as circular. Anything a task waits for is finished, not merely started, before the task continues.",
  ["schedules","programs"],"every schedule of the branches within the bound",
  "A test sees one schedule per run; the race detector only sees races on the schedule that happened.",
  ["internal/runner/parallel.go","internal/runner/runner.go"],[("syncState","internal/runner/parallel.go"),("preResolveDeps","internal/runner/parallel.go")],observe=["error of Runner.RunWithTasks","child processes started"])
p("C09","After cancellation nothing new starts and the whole process group is killed",
  "Once the run is cancelled (interrupt, SIGTERM or Ctrl+C in the parallel view) no further command is started and the run returns a cancellation error, not success and not an unrelated failure. Every command runs in a process group of its own, and cancelling kills that whole group, tolerating processes that have already gone.",
  ["crash_points","schedules"],"every point at which the cancellation can arrive",
  "No test cancels a run.",
  ["internal/runner/runner.go","internal/runner/process_unix.go","internal/runner/parallel.go"],[("ctx.Done check, exec.CommandContext, cmd.Cancel","internal/runner/runner.go"),("signalProcessGroup","internal/runner/process_unix.go")],observe=["child processes started after cancel","signals sent","error of Runner.RunWithTasks"])
p("C10","A dry run, a listing or a validation executes nothing",
  "With --dry-run no command is started and no prompt is shown, for any Babfile and any task, while an unknown task, a Babfile that does not load and a fault in the variables or conditions of the items it describes are still errors; a variable a prompt would set counts as known. --list, --validate and --completion likewise never start a command or show a prompt, whatever other arguments are given.",
  ["programs","inputs"],"every Babfile within the bound and every combination of flags",
  "Tests use dry-run on a few fixed tasks and do not watch for child processes.",
  ["internal/runner/runner.go","internal/runner/parallel.go","cmd/root.go"],[("DryRun checks","internal/runner/runner.go"),("CLI.run dispatch","cmd/root.go")],observe=["child processes started","prompts shown"])
p("C11","An item runs exactly when its platforms and when allow it",
  "A run item (command, task reference, log or prompt), wherever it stands - directly in a task, in a parallel block, or in an included Babfile - is executed exactly when its `platforms` list is empty or names the current system and its `when` is absent or holds. A task whose own `when` does not hold runs neither its items nor its dependencies, and counts as done. A skipped item never fails the run by itself; a task none of whose items applies to the current platform is an error. A condition that cannot be decided because a variable is not defined fails the run, and nothing it decides about or that comes after it is run.",
  ["programs","inputs"],"every combination of platforms and conditions on items at every position",
  "Tests cover single positions with fixed conditions.",
  ["internal/runner/runner.go","internal/runner/parallel.go","internal/babfile/run.go"],[("ShouldRunOnPlatform / shouldSkipRunItem","internal/runner/runner.go")],observe=["child processes started","log output"])
p("C12","Commands get the OS environment overlaid by global, task, command env",
  "Every command's process environment is bab's own environment overlaid with the global `env`, then the task's, then the command's, later levels winning key by key, with each value interpolated exactly once. For a task from an included Babfile the included file's global `env` sits between the root Babfile's global `env` and the task's. Nothing leaks from one command, task or Babfile into another. All commands below a parallel block with `color: false` see NO_COLOR=1 and TERM=dumb, those of other blocks FORCE_COLOR=1, unless the Babfile sets these variables itself.",
  ["inputs","programs"],"every combination of keys and values at the levels",
  "Tests check one key at fixed levels.",
  ["internal/runner/runner.go","internal/babfile/env.go","internal/parser/include.go"],[("interpolateEnv/MergeEnvMaps","internal/runner/runner.go"),("runCommandWithWriters","internal/runner/runner.go")],observe=["environment of child processes"])
p("C13","Commands run in the directory the nearest dir setting names",
  "A command runs in the directory given by its own `dir`, else its task's, else the global one (for an included task: the included file's), else the directory of the Babfile that defines it; relative directories are taken from the directory of that defining Babfile and interpolated first. If the directory is missing or not a directory the command is not started and the run fails.",
  ["inputs","programs"],"every combination of levels, relative/absolute and existing/missing directories",
  "Tests check the levels one at a time.",
  ["internal/runner/runner.go","internal/parser/include.go"],[("resolveDir","internal/runner/runner.go")],observe=["working directory of child processes"])
p("C14","silent and output follow the nearest setting, default show",
  "Whether a command's `$ ...` line is shown and whether its stdout/stderr are shown is decided by the nearest setting: the command's own, then the task reference or parallel block that reached it (the reference first), then its task's, then the global one (for an included task: the included file's), defaulting to shown. `silent` never hides process output and `output` never hides the `$ ...` line.",
  ["programs","inputs"],"every combination of unset/true/false at every level",
  "Tests cover a few of the 3^5 combinations per option.",
  ["internal/runner/runner.go","internal/runner/parallel.go","internal/parser/include.go"],[("isSilent/isOutput/firstNonNil","internal/runner/runner.go")],observe=["bab's stderr","writers attached to child processes"])
p("C15","Streamed output keeps every line whole, prefixed and in order",
  "What an item of a parallel block prints appears line by line, each line written in one piece behind that item's label, in the order printed, with a last unterminated line flushed at the end, independently of how the bytes are chopped into writes and of what other items print meanwhile. No text is lost or duplicated, except that a carriage return inside a line discards what it overwrites; a line ending in CR LF keeps its text. Lines are what a block prints in interleaved mode and, when standard error is not a terminal, in every mode.",
  ["inputs","schedules"],"every byte stream, every split into writes, every interleaving of writers within the bound",
  "Tests write a few fixed strings in fixed chunks.",
  ["internal/runner/writer.go"],[("lineBuffer.process/flush","internal/runner/writer.go"),("PrefixWriter/KeyLineWriter","internal/runner/writer.go")],observe=["bytes written to the destination"])
p("C16","Child output cannot move the cursor or inject terminal commands",
  "A line of child output shown by bab in a parallel block contains no control character other than tab and no escape sequence other than colour/style (SGR) sequences, and with colour off no escape sequence at all. Printable text and SGR sequences pass through unchanged and in order.",
  ["inputs"],"every line of child output within the bound",
  "Tests try six fixed sequences; split, malformed and truncated sequences are unbounded.",
  ["internal/runner/writer.go"],[("sanitizeLine/stripControlChars/cleanLine","internal/runner/writer.go")],observe=["bytes written to the terminal"])
p("C17","Including a Babfile adds its tasks under the namespace, intact",
  "After an include with namespace N every task t of the included Babfile is available as N:t with its whole behaviour preserved: its dependencies, task references and aliases point into N, and commands, conditions, platforms, directories, environment, variables, silent/output, labels, modes and limits are those of the included file. No task is ever silently replaced: a name collision is an error. A chain of includes that comes back to a file already being included is reported as an error instead of looping.",
  ["programs","inputs"],"every included Babfile within the bound, nested includes, every map iteration order",
  "Tests compare a few attributes of fixed files.",
  ["internal/parser/include.go","internal/parser/parser.go"],[("resolveInclude, prefix*","internal/parser/include.go"),("visited","internal/parser/parser.go")],observe=["parser.Parse result"])
p("C18","An accepted Babfile has no dangling references or ambiguous aliases",
  "Loading succeeds only if every dependency and every task reference, at any depth including parallel blocks and included files, names an existing task, no alias equals a task name and no alias belongs to two tasks; each violation is reported with the offending name, and a Babfile without such a violation is not rejected for one. The verdict does not depend on iteration order.",
  ["programs","schedules"],"every set of tasks, references and aliases within the bound, every map iteration order",
  "Tests contain one example per error.",
  ["internal/parser/validate.go"],[("validateDependencies/validateRunTaskRefs/validateAliases","internal/parser/validate.go")],observe=["parser.Parse error"])
p("C19","Any YAML document is either rejected with an error or parsed faithfully",
  "Loading any syntactically valid YAML document never crashes. It either reports an error or yields tasks whose fields are exactly those written - including those written through YAML anchors and aliases - with every run item being exactly one of command, task reference, log, prompt or parallel block, and enumerated values (platforms, levels, modes, prompt types) being valid ones. Wrongly typed, duplicate or contradictory settings are errors.",
  ["inputs"],"every YAML node tree within the bound",
  "Tests load a few dozen fixed files.",
  ["internal/parser/unmarshal.go"],[("unmarshalBabfile and parse*","internal/parser/unmarshal.go"),("validatePrompt*","internal/parser/unmarshal.go")],observe=["parser.Parse result or error"])
p("C20","An alias is the task: running and completing by alias or name agree",
  "`bab <alias>` behaves exactly like `bab <task>` for the one task that declares the alias, also for tasks of included files, and a name that is neither is an error and starts nothing. Shell completion offers exactly the task names and aliases that begin with the typed text, each once and sorted.",
  ["inputs","programs"],"every set of names and aliases and every typed text within the bound",
  "Tests use fixed names.",
  ["internal/runner/runner.go","internal/parser/parser.go","cmd/complete.go"],[("resolveTaskName/buildAliasMap","internal/runner/runner.go"),("completeTaskNames","cmd/complete.go")],observe=["child processes started","completion output"])
p("C21","A prompt yields only values that satisfy its declaration",
  "The value stored by a prompt always satisfies what the Babfile declares for it: `true` or `false` for confirm, one of the options for select, a comma-joined selection of options within min and max for multiselect, an integer within min and max for number, a text matching `validate` for input, and equal re-entry for a confirmed password. Without a terminal the declared default is used, or the task fails; a password prompt then always fails, and no prompt ever blocks. Cancelling a prompt is an error and stores nothing.",
  ["inputs"],"every prompt declaration and every entered text within the bound",
  "The prompt code needs a terminal and has no test.",
  ["internal/tui/prompt.go","internal/parser/unmarshal.go"],[("RunPrompt, handleNonInteractive, run*","internal/tui/prompt.go"),("validatePromptRun","internal/parser/unmarshal.go")],observe=["value interpolated into later commands"])
p("C22","A crash or I/O error never corrupts the update cache",
  "Wherever a crash or an I/O error strikes while the update cache is being saved, the cache file holds either its complete previous content or the complete new content, a failed save leaves no temporary file of its own behind (unless removing it fails), and an arbitrarily damaged or future-dated cache file is treated as if there were none. What a crashed save left behind for more than an hour is removed by a later save, which removes no other file.",
  ["crash_points","fault_sequences"],"every operation at which a crash or error can strike",
  "Tests never inject a fault.",
  ["internal/update/cache.go"],[("saveCache: temp file, sync, rename","internal/update/cache.go"),("loadCache","internal/update/cache.go")],observe=["content of the cache file and directory"])
p("C23","Update notices only for strictly newer releases, and never when opted out",
  "A notice of a new version appears only if a release strictly newer than the running version by version ordering is known, and does appear, once, if such a release was known before the run; with update checks disabled (BAB_NO_UPDATE_CHECK=1, CI, development builds) no network request is made and no notice appears. The network is asked only if the last successful check is 24 hours old or older, the running task is never delayed or failed by the check, and a failed answer, or one that is no JSON document or names no release, leaves the cache as it was.",
  ["inputs","fault_sequences"],"every pair of versions, cache age and server answer within the bound",
  "Tests compare a few fixed versions and cannot reach the network.",
  ["internal/update/update.go","internal/update/cache.go"],[("isNewer/shouldSkip/isValid/fetchLatestVersion","internal/update/update.go")],observe=["HTTP requests made","notice printed","cache file"])
p("C24","The nearest Babfile wins",
  "Without --babfile bab uses the Babfile of the nearest directory, starting at the working directory and walking up to the root, and within one directory the first of Babfile, Babfile.yaml, Babfile.yml, babfile.yaml, babfile.yml that is there; a directory of such a name is not a Babfile. If there is none the error says so.",
  ["inputs","configurations"],"every placement of candidate files and directories along the path",
  "Tests use a few placements.",
  ["internal/finder/finder.go"],[("FindBabfile","internal/finder/finder.go")],observe=["path chosen"])
p("C25","Did-you-mean suggestions are existing names, deterministic and best",
  "A suggestion in an error message is always one of the existing names, is the same whatever order the names are listed in, and no other existing name is strictly more similar; a name that matches up to letter case is always suggested, and nothing is suggested when nothing is similar. The names are those of the tasks, for a task asked for on the command line also the aliases, and for a variable those of all variables visible at that place.",
  ["inputs","schedules"],"every target and candidate set within the bound, every order",
  "Tests use four fixed cases; names come from randomised map iteration.",
  ["internal/errs/suggest.go"],[("FindSimilar/similarity","internal/errs/suggest.go")],observe=["error messages"])
p("C26","The task picker runs the highlighted task",
  "In the interactive picker, after any sequence of key presses, typed text and terminal resizes, the highlighted line is within the list and within the visible window, Enter selects exactly the highlighted task and Esc or Ctrl+C selects none. Every task is listed when nothing is typed, and a task whose name or alias equals the typed text is listed.",
  ["histories","inputs"],"every sequence of events within the bound",
  "The picker has no test.",
  ["internal/tui/picker/model.go","internal/tui/picker/update.go","internal/tui/picker/match.go"],[("moveCursor/adjustScroll/search","internal/tui/picker/model.go")],observe=["selected task","rendered view"])
p("C27","The parallel view attributes every line and result to its own item",
  "In the grouped and tabbed views each output line, start and result is shown under the item that produced it and no other, in order (the grouped view keeping the latest lines), for every sequence of messages including nested items being added and cleared. A tab shows the latest of its output unless the user has scrolled away from it, whatever the size of the terminal. Ctrl+C triggers cancellation exactly once however often it is pressed, switching tabs always stays on an existing tab, and no message sequence or terminal size makes the view crash.",
  ["histories"],"every sequence of messages within the bound",
  "The views have no test.",
  ["internal/tui/parallel.go","internal/tui/parallel_grouped.go","internal/tui/parallel_tabs.go"],[("handleMsg","internal/tui/parallel.go")],observe=["rendered view","cancel calls"])
p("C28","The exit status tells success from failure",
  "bab exits 0 exactly when everything it was asked to do succeeded or was cancelled by the user, and 1 otherwise; a failing command, dependency, parallel item, prompt or load is never turned into a zero status, and the summary line of a parallel block marks each item with its own outcome (succeeded, failed, cancelled).",
  ["fault_sequences","programs"],"every place in a run at which an error can arise",
  "No test covers the exit status.",
  ["main.go","internal/runner/runner.go","internal/output/output.go"],[("run/isCancellation/handleError","main.go"),("RenderParallelDone","internal/output/output.go")],observe=["exit status","stderr"])
p("C29","Errors point at the file and the place in it that caused them",
  "An error about a task, reference, alias, variable or setting of a task names the Babfile in which the offending text is written - the included one for included tasks - and a line of the task, list or item it stands in, never a line of another task; an error about an include or a global variable names the Babfile. All invalid references and clashing aliases of a Babfile and its includes are reported by one validation, not only the first.",
  ["programs"],"every position of an error in root and included files within the bound",
  "Tests check locations in single files only.",
  ["internal/errs/*.go","internal/parser/validate.go","internal/runner/runner.go"],[("Path/Line fields of errors","internal/errs/parse.go")],observe=["error messages"])
p("C30","Variables stay in their scope",
  "A variable of a task and a value entered at a prompt are visible to the later items of that task only: no task, whether it runs before, after, as a dependency or in parallel, sees another task's variables or prompt values, and global variables keep their values for the whole run. Within its task a prompt's value is used by every later item.",
  ["programs","schedules"],"every arrangement of prompts and variables over tasks within the bound",
  "Tests run single tasks.",
  ["internal/runner/runner.go","internal/interpolate/interpolate.go"],[("taskVars","internal/runner/runner.go"),("ResolveVarsWithLocation","internal/interpolate/interpolate.go")],observe=["commands run","Runner.GlobalVars"])
p("C31","The install script installs only a verified download",
  "The install script installs a binary only if the archive's SHA-256 equals the one listed for it in the release's checksum file; any download or verification failure leaves the target directory untouched.",
  ["fault_sequences"],"every download result",
  "No test runs the script.",
  ["install.sh","install.ps1"],[("hash_sha256_verify","install.sh")],observe=["files in the install directory"])
p("C32","The published JSON schema accepts what bab accepts as documented",
  "Every Babfile that uses settings as documented is accepted both by bab and by the published schema, and that schema is the one the code describes. Wherever a setting takes one of several words, is required, has a least number of elements or a least value, or is a name of a documented form, the schema and bab agree on what is allowed; an item that is of no kind or of two at once is rejected by both.",
  ["inputs","programs"],"every Babfile, word and name within the bound",
  "Tests compare a few fields of the schema and never apply it to a document.",
  ["schema/babfile.schema.json","internal/babfile/*.go","internal/parser/unmarshal.go"],[("JSONSchema methods","internal/babfile/babfile.go")],observe=["schema document","error of parser.Parse"])
p("C33","On Windows cancelling a run ends the whole process tree",
  "On Windows a cancelled command and all of its descendants are terminated.",
  ["crash_points"],"every point of cancellation",
  "No test runs on Windows.",
  ["internal/runner/process_windows.go"],[("signalProcessGroup","internal/runner/process_windows.go")],observe=["processes left running"])
p("C34","The listing shows every task once, under its namespace",
  "bab --list shows every task of the Babfile and its includes exactly once, at the place its namespaces give it, with all its aliases and its description, each level in alphabetical order and the same on every run; it shows nothing that is no task or namespace, runs nothing and exits 0.",
  ["programs","inputs"],"every set of tasks, aliases, descriptions and includes within the bound",
  "Tests look for single names in the output of a few Babfiles.",
  ["cmd/list.go"],[("runList","cmd/list.go")],observe=["stdout","exit status","processes started"])
p("C35","Commands and logs say what is written",
  "A command is handed to the shell (sh -c on Unix) as one text, exactly as written in the Babfile with its placeholders replaced, wherever the task is reached from. A command that is run directly has bab's own standard input, output and error, and may read that input, be it a terminal or not; in a parallel block it neither reads bab's input nor writes past its label. A log item reports its text, placeholders replaced, exactly once and at the level it names (info if it names none; debug only with --verbose outside parallel blocks); in a parallel block its lines stand behind the item's label.",
  ["inputs","programs"],"every text and place of an item within the bound",
  "Tests run a few simple commands.",
  ["internal/runner/runner.go","internal/runner/parallel.go","internal/runner/process_unix.go"],[("executeCommand/runCommandWithWriters","internal/runner/runner.go"),("executeRunItem","internal/runner/parallel.go")],observe=["argument vectors of started processes","log messages","stdout"])
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
