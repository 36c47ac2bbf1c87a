// Package h29: what errors point at.
package h29

import (
	"context"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/bab-sh/bab/internal/zzverif/kit"
	"github.com/bab-sh/bab/internal/zzverif/model"
	"github.com/bab-sh/bab/internal/zzverif/sym"
	"gopkg.in/yaml.v3"
)

// paths of the root Babfile, of the one it includes and of the one that one includes.
var paths = []string{"Babfile.yml", "lib/lib.yml", "lib/sub/sub.yml"}
var prefix = []string{"", "n:", "n:s:"}

// fault is an item or a setting of a task with an error in it. With sub set it is the fault of
// the item of a parallel block whose lines start at the sub-th.
type fault struct {
	lines []string
	sub   int
}

var items = []fault{
	{lines: []string{"cmd: a", "task: t0"}},
	{lines: []string{"when: x"}},
	{lines: []string{"cmd: a", "silent: maybe"}},
	{lines: []string{"cmd: a", "platforms: [linux, beos]"}},
	{lines: []string{"log: a", "level: loud"}},
	{lines: []string{"prompt: p", "type: riddle", "message: m"}},
	{lines: []string{"prompt: p", "message: m"}},
	{lines: []string{"prompt: p", "message: m", "type: number", "min: 5", "max: 1"}},
	{lines: []string{"prompt: p", "message: m", "type: select", "options: [a, b]", "default: c"}},
	{lines: []string{"cmd: a", "env: [x]"}},
	{lines: []string{"cmd: a", "when: x", "cmd: b"}},
	{lines: []string{"cmd: [a]"}},
	{lines: []string{"cmd: a", "when: [a]"}},
	{lines: []string{"parallel: []"}},
	{lines: []string{"parallel:", "  - cmd: a", "mode: odd"}},
	{lines: []string{"parallel:", "  - cmd: a", "limit: -1"}},
	{lines: []string{"parallel:", "  - cmd: a", "  - prompt: p", "    type: input", "    message: m"}, sub: 2},
	{lines: []string{"parallel:", "  - cmd: a", "  - log: a", "    level: loud"}, sub: 2},
	{lines: []string{"task: nope"}},
	{lines: []string{"when: 'yes'", "task: nope"}},
	{lines: []string{"parallel:", "  - cmd: a", "  - when: 'yes'", "    task: nope"}, sub: 2},
}

// running are faults found when the item is run.
var running = []fault{
	{lines: []string{"cmd: a ${{ nope }}"}},
	{lines: []string{"cmd: a", "env:", "  E: ${{ nope }}"}},
	{lines: []string{"cmd: a", "dir: x${{ nope }}"}},
	{lines: []string{"cmd: a", "when: ${{ nope }}"}},
	{lines: []string{"log: ${{ nope }}"}},
	{lines: []string{"prompt: p", "type: input", "message: m ${{ nope }}"}},
	{lines: []string{"task: t2", "when: ${{ nope }} == 'a'"}},
	{lines: []string{"parallel:", "  - when: 'yes'", "    cmd: a ${{ nope }}"}, sub: 1},
	{lines: []string{"parallel:", "  - cmd: a", "  - log: a ${{ nope }}"}, sub: 2},
	{lines: []string{"parallel:", "  - cmd: a", "  - cmd: a", "    when: ${{ nope }}"}, sub: 2},
	{lines: []string{"parallel:", "  - cmd: a", "when: ${{ nope }}"}},
	{lines: []string{"when: x == '${{ nope }}'", "parallel:", "  - cmd: a", "mode: grouped"}},
	{lines: []string{"parallel:", "  - cmd: a", "  - log: a", "    when: ${{ nope }}"}, sub: 2},
	{lines: []string{"parallel:", "  - task: t2", "    when: ${{ nope }}", "  - cmd: a"}, sub: 1},
	{lines: []string{"parallel:", "  - cmd: a", "    dir: ${{ nope }}", "  - cmd: a"}, sub: 1},
	{lines: []string{"parallel:", "  - cmd: a", "  - cmd: a", "    env:", "      A: b", "      E: ${{ nope }}"}, sub: 2},
	{lines: []string{"log: a", "when: ${{ nope }}"}},
	{lines: []string{"prompt: p", "type: input", "message: m", "default: d", "when: ${{ nope }}"}},
	{lines: []string{"prompt: p", "type: input", "message: m", "default: ${{ nope }}"}},
	{lines: []string{"prompt: p", "type: input", "message: m", "default: d", "placeholder: ${{ nope }}"}},
	{lines: []string{"prompt: p", "type: select", "message: m", "options: [a, '${{ nope }}']", "default: a"}},
	{lines: []string{"prompt: p", "type: multiselect", "message: m", "options: [a, b]", "defaults: [a, '${{ nope }}']"}},
}

var settings = []fault{
	{lines: []string{"deps: [t2, nope]"}},
	{lines: []string{"deps:", "  - t2", "  - nope"}},
	{lines: []string{"silent: maybe"}},
	{lines: []string{"output: [a]"}},
	{lines: []string{"env: x"}},
	{lines: []string{"vars: x"}},
	{lines: []string{"vars:", "  v: [a]"}},
	{lines: []string{"dir: [a]"}},
	{lines: []string{"desc: [a]"}},
	{lines: []string{"when: [a]"}},
	{lines: []string{"aliases: x", "alias: [a]"}},
	{lines: []string{"desc: a", "desc: b"}},
	{lines: []string{"alias: t2"}},
	{lines: []string{"aliases: [t9, t2]"}},
	{lines: []string{"alias: twice"}},
}

var running2 = []fault{
	{lines: []string{"vars:", "  v: ${{ nope }}"}},
	{lines: []string{"vars:", "  v: ${{ w }}", "  w: ${{ v }}"}},
	{lines: []string{"when: ${{ nope }}"}},
	{lines: []string{"env:", "  E: ${{ nope }}"}},
}

type place struct{ lo, hi int }

type doc struct{ lines []string }

func (d *doc) add(s string) int { d.lines = append(d.lines, s); return len(d.lines) }

func (d *doc) item(ind string, l []string) {
	for i, s := range l {
		if i == 0 {
			d.add(ind + "- " + s)
		} else {
			d.add(ind + "  " + s)
		}
	}
}

// write writes the files; the fault f, of an item or of a task's setting, stands in task t1 of
// file at.
func write(f *fault, isItem bool, at int) (where place) {
	pad := sym.Choice("pad", 3)
	desc := sym.Flag("desc")
	for i, p := range paths {
		d := &doc{}
		for k := 0; k < pad; k++ {
			d.add([]string{"# tasks:", ""}[k])
		}
		if i < 2 {
			d.add("includes:")
			d.add("  " + []string{"n", "s"}[i] + ":")
			d.add("    babfile: " + []string{"lib/lib.yml", "sub/sub.yml"}[i])
		}
		d.add("tasks:")
		d.item2("t0", "alias: zero", "run:", "  - cmd: c0")
		here := f != nil && i == at
		d.add("  t1:")
		lo := len(d.lines)
		if desc {
			d.add("    desc: |")
			d.add("      more")
			d.add("      text")
		}
		if here && !isItem {
			for _, l := range f.lines {
				d.add("    " + l)
			}
		}
		d.add("    run:")
		d.add("      - cmd: c1")
		if here && isItem {
			lo = len(d.lines) + 1
			d.item("      ", f.lines)
			where = place{lo + f.sub, len(d.lines)}
		}
		d.add("      - cmd: c2")
		if here && !isItem {
			where = place{lo, len(d.lines)}
		}
		if f != nil && i == at && len(f.lines) == 1 && f.lines[0] == "alias: twice" {
			d.item2("t2", "alias: twice", "run:", "  - cmd: c3")
			where.hi = len(d.lines)
		} else {
			d.item2("t2", "run:", "  - cmd: c3")
		}
		if i == 0 {
			d.item2("main", "deps: ["+prefix[at]+"t0]", "run:", "  - cmd: c4", "  - task: "+prefix[at]+"t1", "  - cmd: c5")
		}
		model.Write(model.P(p), strings.Join(d.lines, "\n")+"\n")
	}
	return
}

func (d *doc) item2(name string, l ...string) {
	d.add("  " + name + ":")
	for _, s := range l {
		d.add("    " + s)
	}
}

// points says whether the message names a line from lo to hi of the file, and no line of
// another.
func points(msg string, at int, w place) bool {
	ok := false
	for i, p := range paths {
		base := p[strings.LastIndex(p, "/")+1:] + ":"
		for rest := msg; ; {
			k := strings.Index(rest, base)
			if k < 0 {
				break
			}
			shown := rest[strings.LastIndexAny(rest[:k], " \n")+1:k] + base[:len(base)-1]
			rest = rest[k+len(base):]
			j := 0
			for j < len(rest) && rest[j] >= '0' && rest[j] <= '9' {
				j++
			}
			if j == 0 {
				continue // in the chain of includes
			}
			if !strings.HasPrefix(shown, "/") {
				shown = filepath.Join(cwd, shown)
			}
			v, err := strconv.Atoi(rest[:j])
			if i != at || shown != model.P(p) || err != nil || v < w.lo || v > w.hi {
				return false
			}
			ok = true
		}
	}
	return ok
}

var cwd string

func setup() {
	kit.Setup()
	model.Mkdir(model.P("lib"))
	model.Mkdir(model.P("lib/sub"))
	model.Mkdir(model.P("li"))
	cwd = model.P([]string{"", "lib", "li"}[sym.Choice("cwd", 3)])
	model.Chdir(cwd)
}

func one(f fault, isItem bool) {
	setup()
	at := sym.Choice("file", 3)
	w := write(&f, isItem, at)
	err := kit.Run(context.Background(), "main", false)
	sym.Log("err", kit.Msg(err))
	sym.Assert(err != nil, "a faulty Babfile is accepted")
	sym.Assert(points(err.Error(), at, w), "the error does not name lines "+strconv.Itoa(w.lo)+" to "+strconv.Itoa(w.hi)+" of "+paths[at]+": "+kit.Msg(err))
}

// Items: faults of items found on loading.
func Items() { one(items[sym.Choice("fault", len(items))], true) }

// Running: faults of items found when they are run.
func Running() { one(running[sym.Choice("fault", len(running))], true) }

// Settings: faults of a task's settings found on loading or running.
func Settings() {
	all := append(append([]fault{}, settings...), running2...)
	one(all[sym.Choice("fault", len(all))], false)
}

// Many: any number of invalid references, clashing aliases or malformed items at once: each
// is reported, at its place.
func Many() {
	kit.Setup()
	model.Mkdir(model.P("lib"))
	model.Mkdir(model.P("lib/sub"))
	cwd = model.Root()
	model.Chdir(cwd)
	type bad struct {
		text string
		at   int
		w    place
	}
	var all []bad
	where := make([]int, 4)
	n := sym.Param("files", 2)
	for k := range where {
		where[k] = sym.Choice("fault"+string(rune('0'+k)), n+1) - 1
	}
	malformed := sym.Flag("malformed")
	order := sym.Param("order", 0) > 0
	if order {
		sym.MapOrder(true)
		sym.MapSame(true)
	}
	for i, p := range paths[:n] {
		d := &doc{}
		if i+1 < n {
			d.add("includes:")
			d.add("  " + []string{"n", "s"}[i] + ":")
			d.add("    babfile: " + []string{"lib/lib.yml", "sub/sub.yml"}[i])
		}
		d.add("tasks:")
		d.item2("t0", "alias: zero"+string(rune('0'+i)), "run:", "  - cmd: c0")
		for k, at := range where {
			name := "t" + string(rune('1'+k))
			lo := len(d.lines) + 1
			switch {
			case at != i && order:
				continue
			case at != i:
				d.item2(name, "run:", "  - cmd: c")
				continue
			case malformed:
				d.item2(name, [][]string{{"silent: maybe", "run:", "  - cmd: c"}, {"run:", "  - cmd: c", "  - when: x"},
					{"env: [x]", "run:", "  - cmd: c"}, {"run:", "  - log: a", "    level: loud", "  - cmd: c"}}[k]...)
			case k == 0:
				d.item2(name, "deps: [none"+string(rune('0'+k))+"]", "run:", "  - cmd: c")
			case k == 1:
				d.item2(name, "run:", "  - cmd: c", "  - task: none"+string(rune('0'+k)))
			case k == 2:
				d.item2(name, "run:", "  - parallel:", "      - cmd: c", "      - task: none"+string(rune('0'+k)))
			case k == 3:
				d.item2(name, "alias: t0", "run:", "  - cmd: c")
			}
			text := []string{"none0", "none1", "none2", "t0"}[k]
			if malformed {
				text = ""
			}
			all = append(all, bad{text, i, place{lo, len(d.lines)}})
		}
		model.Write(model.P(p), strings.Join(d.lines, "\n")+"\n")
	}
	code := kit.Bab("--validate")
	if len(all) == 0 {
		sym.Assert(code == 0, "a valid Babfile is rejected")
		return
	}
	sym.Assert(code == 1, "a faulty Babfile is accepted")
	got := kit.Reported("error")
	sort.Strings(got)
	sym.Log("errors", strings.Join(got, "; "))
	file := all[0].at
	for _, b := range all {
		found := false
		for _, g := range got {
			found = found || points(g, b.at, b.w) && strings.Contains(g, b.text)
		}
		// Files are loaded one after another: what is malformed in one is reported before others are read.
		sym.Assert(found || malformed && b.at != file, "no error names lines "+strconv.Itoa(b.w.lo)+" to "+strconv.Itoa(b.w.hi)+" of "+paths[b.at]+": "+strings.Join(got, "; "))
	}
	sym.Assert(len(got) <= len(all), "more errors than faults: "+strings.Join(got, "; "))
}

// One: a Babfile written on few lines, so that the fault is on the first one or one soon after.
func One() {
	kit.Setup()
	faults := []string{
		"{cmd: 'a ${{ nope }}'}", "{cmd: a, when: '${{ nope }}'}", "{log: '${{ nope }}'}", "{cmd: a, dir: 'x${{ nope }}'}",
		"{cmd: a, env: {E: '${{ nope }}'}}", "{prompt: p, type: input, message: '${{ nope }}'}",
		"{task: nope}", "{cmd: a, task: b}", "{log: a, level: loud}", "{prompt: p, type: riddle, message: m}", "{parallel: [{cmd: a}], mode: odd}",
		"{parallel: [{task: nope}]}", "{cmd: a, silent: maybe}"}
	text, line := "", 1+sym.Choice("before", 3)
	for i := 1; i < line; i++ {
		text += "# line\n"
	}
	text += "{tasks: {t: {run: [" + faults[sym.Choice("fault", len(faults))] + "]}}}\n"
	model.Write(model.P("Babfile.yml"), text)
	err := kit.Run(context.Background(), "t", false)
	sym.Assert(err != nil, "the fault is not reported")
	got := err.Error()
	sym.Log("err", kit.Msg(err))
	at := "Babfile.yml:" + strconv.Itoa(line) + ":"
	sym.Assert(strings.Contains(got, at), "the error does not point at line "+strconv.Itoa(line)+": "+kit.Msg(err))
	for l := 0; l <= 5; l++ {
		if l != line {
			sym.Assert(!strings.Contains(got, "Babfile.yml:"+strconv.Itoa(l)+":"), "the error points at another line: "+kit.Msg(err))
		}
	}
}

// whole are faults that concern a whole file, as lines before and within its tasks; word is part
// of the message.
var whole = []struct {
	top, tasks []string
	word       string
}{
	{top: []string{"vars:", "  g: ${{ nope }}"}, word: "nope"},
	{top: []string{"vars:", "  a: x", "  g: ${{ h }}", "  h: y${{ g }}"}, word: "circular"},
	{top: []string{"more: {babfile: gone.yml}"}, word: "gone.yml"},
	{top: []string{"more: {babfile: Babfile.yml}", "more: {babfile: ../lib/lib.yml}", "more: {babfile: sub.yml}"}, word: "circular"},
	{top: []string{"more: {babfile: other.yml}"}, tasks: []string{"'more:o':", "  run: [{cmd: o}]"}, word: "more:o"},
	{tasks: []string{"u: {deps: [v], run: [{cmd: u}]}", "v: {deps: [u], run: [{cmd: v}]}"}, word: "circular"},
	{tasks: []string{"u: {run: [{task: v}]}", "v: {run: [{parallel: [{cmd: a}, {task: u}]}]}"}, word: "circular"},
}

// Whole: faults that concern a whole file: its variables, its includes, tasks in a circle.
func Whole() {
	setup()
	at := sym.Choice("file", 3)
	k := sym.Choice("fault", len(whole))
	f := whole[k]
	inc := k >= 2 && k <= 4
	for i, p := range paths {
		model.Write(filepath.Join(filepath.Dir(model.P(p)), "other.yml"), "tasks: {o: {run: [{cmd: o}]}}\n")
		d := &doc{}
		top, tasks := f.top, f.tasks
		if i != at {
			top, tasks = nil, nil
		}
		if i != at || !inc {
			for _, l := range top {
				d.add(l)
			}
		}
		if i < 2 || i == at && inc {
			d.add("includes:")
		}
		if i == at && inc {
			if k == 3 {
				top = top[at : at+1]
			}
			for _, l := range top {
				d.add("  " + l)
			}
		}
		if i < 2 {
			d.add("  " + []string{"n", "s"}[i] + ":")
			d.add("    babfile: " + []string{"lib/lib.yml", "sub/sub.yml"}[i])
		}
		d.add("tasks:")
		for _, l := range tasks {
			d.add("  " + l)
		}
		d.item2("t1", "run:", "  - cmd: c1")
		model.Write(model.P(p), strings.Join(d.lines, "\n")+"\n")
	}
	err := kit.Run(context.Background(), prefix[at]+"t1", false)
	if !strings.Contains(kit.Msg(err), "→") { // where a circle begins depends on the order of a map
		sym.Log("err", kit.Msg(err))
	}
	sym.Assert(err != nil, "a faulty Babfile is accepted")
	msg := err.Error()
	sym.Assert(strings.Contains(msg, f.word), "the error does not say what is wrong: "+kit.Msg(err))
	// The file is named, whole and with its directory, as seen from the working directory.
	sym.Assert(names(msg, at), "the error does not name "+paths[at]+": "+kit.Msg(err))
	for i := range paths {
		sym.Assert(i <= at || !names(msg, i), "the error names "+paths[i]+", which is in order: "+kit.Msg(err))
	}
}

// names says whether the message names the file, other than as a part of another path.
func names(msg string, at int) bool {
	base := paths[at][strings.LastIndex(paths[at], "/")+1:]
	for rest := msg; ; {
		k := strings.Index(rest, base+":")
		if k < 0 {
			return false
		}
		shown := rest[strings.LastIndexAny(rest[:k], " \n")+1:k] + base
		rest = rest[k+len(base):]
		if !strings.HasPrefix(shown, "/") {
			shown = filepath.Join(cwd, shown)
		}
		if shown == model.P(paths[at]) {
			return true
		}
	}
}

var broken = []string{"  x: {", "  x: [a, b", "  x: 'a", "  - x", "  x: y: z", "\tx: y", "  x: @y", "  x: *y", "  x: %"}

// Syntax: a file that is no YAML is named, with the line YAML's own error has.
func Syntax() {
	setup()
	at := sym.Choice("file", 3)
	what := broken[sym.Choice("broken", len(broken))]
	line := []int{2, 5, 9, 10, 11, 23, 104}[sym.Choice("line", 7)]
	want := 0
	for i, p := range paths {
		text := ""
		if i < 2 {
			text += "includes: {" + []string{"n", "s"}[i] + ": {babfile: " + []string{"lib/lib.yml", "sub/sub.yml"}[i] + "}}\n"
		}
		if i == at {
			text += strings.Repeat("# line\n", line-strings.Count(text, "\n")-1)
		}
		text += "tasks:\n"
		if i == at {
			text += what + "\n"
		}
		text += "  t: {run: [{cmd: c}]}\n"
		model.Write(model.P(p), text)
		if i == at {
			var v yaml.Node
			err := yaml.Unmarshal([]byte(text), &v)
			sym.Assume(err != nil)
			if _, rest, ok := strings.Cut(err.Error(), "line "); ok {
				for _, c := range rest {
					if c < '0' || c > '9' {
						break
					}
					want = want*10 + int(c-'0')
				}
			}
		}
	}
	err := kit.Run(context.Background(), prefix[at]+"t", false)
	sym.Log("err", kit.Msg(err))
	sym.Assert(err != nil, "a file that is no YAML is accepted")
	sym.Assert(names(err.Error(), at), "the error does not name "+paths[at]+": "+kit.Msg(err))
	sym.Assert(want == 0 || points(err.Error(), at, place{want, want}), "the error does not name line "+strconv.Itoa(want)+" of "+paths[at]+": "+kit.Msg(err))
}
