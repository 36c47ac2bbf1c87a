#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, a section per property made of the text below, the
configurations in harness/, the comments of the harnesses, known-findings.txt and seeded/, and
tools/design_tail.md."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# what is symbolic; the oracle; what the tests cannot reach
HOW = {
"C01": ("The text around and inside the placeholders and the variables' values are symbolic bytes; `Interpolate` is executed with its regular expressions, which the engine's own matcher runs over symbolic text (forking on each symbolic byte class).", "A scanner for `${{ name }}` written from the documentation; no regular expressions.", "every value of the bytes, so also those that look like placeholders, markers or `$1`."),
"C02": ("The reference graph, the values and the order in which the maps are walked (`sym.MapOrder`: every order of every map) are symbolic.", "A fixpoint over the definitions, written from the documentation; an undefined name or a circle is an error whatever the order.", "the runtime draws the map order; a test sees some of them."),
"C03": ("Values of variables, both sides of the comparison, white space and quotes are symbolic.", "A table of what is truthy and of equality by value.", "values that contain operators, quotes, or words in any case."),
"C04": ("The task graph up to five tasks, which command fails and how (exit status, foreign signal, cannot be started) are symbolic choices; the real parser, validator and runner run on the Babfile written from them.", "The reference run in harness/spec.", "all graphs with all failures."),
"C05": ("As C04 with parallel blocks and every schedule within the preemption bound.", "No command is started twice; each is started as often as the reference run says.", "interleavings."),
"C06": ("The adjacency matrix of dependencies and references is symbolic.", "Transitive closure.", "all graphs of four tasks."),
"C07": ("Limit, kinds and failures of the items, moment of a cancellation, schedule.", "Counts over the recorded start and end events of the processes.", "schedules."),
"C08": ("Every schedule within the preemption bound, at operations on shared state; a happens-before race detector runs along (engine/race.go).", "No race, no deadlock, no panic, and the result of the run without preemption.", "schedules."),
"C09": ("The moment of the interrupt (any event of any process), who ignores which signal, schedule.", "Process table of the process stand-in: nothing starts afterwards, nothing of the group is left.", "moments and stubborn children."),
"C10": ("Any kind of item in any place, the flag or command given to the program.", "No process, prompt or network event at all; `bab -n` logs what the reference run would have started.", "all combinations of item kinds and ways to reach them."),
"C11": ("Platform lists, conditions, values, kinds of items, ways to be reached.", "The reference run.", "combinations."),
"C12": ("Which level sets which variable to what; values with placeholders whose result looks like one.", "Overlay in the order process, global, task, command, computed by the reference; every variable of every child is compared, also those nobody set.", "combinations and values."),
"C13": ("dir at each level: absent, relative, absolute, by a variable, missing, a file.", "The reference's join and the cwd the process stand-in recorded.", "combinations."),
"C14": ("Both settings at all six levels and five ways to reach the command.", "Nearest setting, as documented; what is on stdout and stderr.", "3^6 combinations."),
"C15": ("Bytes, cuts into writes, schedules of two writers; whole runs of blocks.", "A line splitter written from the statement.", "every cut at every place."),
"C16": ("Bytes of a child's output.", "A recogniser of control sequences; only complete style sequences and printable text may come out, and all printable text must.", "all byte strings of the length."),
"C17": ("Any setting of a task or item, names, graphs of files.", "Field by field comparison with the same file parsed on its own, and comparison of runs.", "any setting and graph."),
"C18": ("Names of references and aliases are symbolic.", "Set membership.", "every name of the length."),
"C19": ("Which part of a valid Babfile is replaced by, duplicated, or put behind anchors, aliases and merge keys; enum words.", "A writer that knows what the document means; the parse must equal it or be an error.", "combinations of YAML forms."),
"C20": ("The text typed.", "Running by alias and by name produce the same events; completions are exactly the names and aliases with the prefix, and nothing else.", "every text."),
"C21": ("Declaration of the prompt, the defaults, the keys typed into the real huh forms.", "The statement's predicate over the value the following command sees.", "any key sequence."),
"C22": ("The moment of a crash or power failure, which file operations fail, schedule of two savers and of the background check.", "The cache afterwards is the old or the new one, byte for byte, or counts as none.", "fault and crash points."),
"C23": ("Digits and letters of versions, pre-releases, ages, server answers, environment variables.", "Precedence of semantic versioning 2.0.0 written from its text.", "all versions of the form."),
"C24": ("Names and kinds of directory entries at each level, working directory, arguments.", "First match in documented order, nearest directory first.", "combinations."),
"C25": ("Target and names are symbolic text; for the program, the site of the unknown name is, too.", "The documented similarity and the list of names that exist at the site.", "every name, every order of maps."),
"C26": ("Key presses, typed text and resizes on the real model; whole program through the event loop's stand-in.", "The highlighted line of the rendered view is the one Enter selects.", "sequences."),
"C27": ("Message histories on the real models, and whole runs through the runner.", "Each rendered line stands below its own title.", "sequences and schedules."),
"C28": ("Which command fails how, options, moment of an interrupt; `mainpkg.Main` is the real main with cobra, pflag and everything.", "Exit status 0 iff nothing failed.", "combinations of failures."),
"C29": ("Which fault where, in which file, seen from which directory.", "The line the writer of the document put the fault on.", "positions."),
"C30": ("Which tasks define or ask for which variables, how they reach each other, schedule.", "The reference run.", "combinations and schedules."),
"C32": ("Babfiles made of any two settings in any place; words, numbers and names as symbolic text.", "A JSON-Schema validator in harness/h32 applied to what the real `GenerateSchema` returns, compared with what the real parser does with the same document.", "combinations of settings; the tests look at a few fields of the schema."),
"C34": ("Names, aliases, descriptions, files, map order.", "The set of tasks; tree and flat output are read back.", "names and orders."),
"C35": ("Text of commands and logs, place, settings.", "The text as written, with placeholders replaced.", "texts and places."),
}

def comments(pkg):
    r = {}
    for f in sorted(glob.glob(f"{root}/harness/{pkg}/*.go")):
        c = []
        for l in open(f):
            if l.startswith("//"):
                c.append(l[2:].strip())
            else:
                m = re.match(r"func ([A-Z]\w*)\(\)", l)
                if m:
                    t = " ".join(c)
                    r[m.group(1)] = re.sub(r"^%s: " % m.group(1), "", t)
                c = []
    return r

def main():
    props = [json.loads(l) for l in open(root + "/properties.jsonl")]
    man = json.load(open(root + "/MANIFEST.json"))
    na = {x["property"]: x["reason"] for x in man["not_applicable"]}
    fixed = [l.strip() for l in open(root + "/known-findings.txt") if l.startswith("fixed:")]
    seeds = {}
    for f in sorted(glob.glob("/verif/seeded/*/meta.json") or glob.glob(root + "/seeded/*/meta.json")):
        m = json.load(open(f))
        seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m["needs"]))
    cost = json.load(open(root + "/tools/cost.json")) if os.path.exists(root + "/tools/cost.json") else {}
    out = [open(root + "/tools/design_head.md").read().rstrip(), ""]
    for p in props:
        i = p["id"]
        out += [f"### {i} {p['title']}", ""]
        if i in na:
            out += [f"Not applicable: {na[i]}", ""]
            continue
        c = json.load(open(f"{root}/harness/{i}.json"))
        how = HOW[i]
        out += [f"Symbolic: {how[0]} Oracle: {how[1]} Beyond the tests: {how[2]}", ""]
        doc = comments(c["pkg"])
        seen = []
        for h in c["harnesses"]:
            if h["fn"] in seen:
                continue
            seen.append(h["fn"])
            d = doc.get(h["fn"], "")
            pre = sorted({x.get("preempt") for x in c["harnesses"] if x["fn"] == h["fn"] and x.get("preempt") is not None})
            out.append(f"- `{c['pkg']}.{h['fn']}`: {d[:1].upper() + d[1:] if d else '(see the source)'}" + (f" Preemptions: {pre}." if pre else ""))
        out += ["", f"Bounds: {c['bounds']}", f"Outside: {c['outside']}"]
        if i in cost:
            k = cost[i]
            out.append(f"Cost (quick): {k['paths']} paths, {k['queries']} queries, {k['solver']} s in z3, {k['wall']} s.")
        for l in fixed:
            m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
            if m.group(1) == i:
                out.append(f"Found and repaired ({m.group(2)}): {m.group(3)}.")
        if i in seeds:
            out.append("Planted bugs caught: " + "; ".join(f"{n} ({w})" for n, w in seeds[i]) + ".")
        out.append("")
    out.append(open(root + "/tools/design_tail.md").read().rstrip())
    open(root + "/DESIGN.md", "w").write("\n".join(out) + "\n")

main()
