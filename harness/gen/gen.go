// Package gen writes tasks with chosen settings, together with what the parser must make of
// them.
package gen

import (
	"strconv"
	"strings"

	"github.com/bab-sh/bab/internal/babfile"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

// Text is a symbolic text that any YAML scalar can hold between single quotes.
const printable = " !#$%&()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"

// Doc is a Babfile being written.
type Doc struct {
	Lines   []string
	Alt     []string // the same lines with aliases to the values of Lines
	Anchors bool     // values of Lines have anchors
	Free    bool     // texts are symbolic
	n       int
	anchors int
}

func (d *Doc) add(ind int, s string) int { return d.add2(ind, s, s) }

func (d *Doc) add2(ind int, s, alt string) int {
	sp := strings.Repeat(" ", ind)
	d.Lines = append(d.Lines, sp+s)
	d.Alt = append(d.Alt, sp+alt)
	return len(d.Lines)
}

func (d *Doc) String() string { return strings.Join(d.Lines, "\n") + "\n" }

func (d *Doc) text(what string) string {
	if !d.Free {
		d.n++
		return what + strconv.Itoa(d.n)
	}
	return sym.StrN(what, sym.Param("text", 1), printable)
}

// value writes a value, with an anchor if wanted, and an alias of it.
func (d *Doc) value(v string) (string, string) {
	if !d.Anchors {
		return v, v
	}
	d.anchors++
	n := "a" + strconv.Itoa(d.anchors)
	return "&" + n + " " + v, "*" + n
}

type item struct {
	d     *Doc
	ind   int
	first bool
	id    string
	line  int
}

func (x *item) set(key, v string) {
	v, alt := x.d.value(v)
	if x.first {
		x.line = x.d.add2(x.ind, "- "+key+": "+v, "- "+key+": "+alt)
		x.first = false
		return
	}
	x.d.add2(x.ind+2, key+": "+v, key+": "+alt)
}

func q(s string) string { return "'" + s + "'" }

func (x *item) tri(key string) *bool {
	c := sym.Choice(x.id+"."+key, 3)
	if c == 0 {
		return nil
	}
	b := c == 1
	x.set(key, strconv.FormatBool(b))
	return &b
}

func (x *item) opt(key string) string {
	if !sym.Flag(x.id + "." + key) {
		return ""
	}
	s := x.d.text(key)
	x.set(key, q(s))
	return s
}

func (x *item) num(key string, v int) *int {
	if !sym.Flag(x.id + "." + key) {
		return nil
	}
	x.set(key, strconv.Itoa(v))
	return &v
}

func (x *item) env() map[string]string {
	switch sym.Choice(x.id+".env", 2) {
	case 1:
		a := x.d.text("envA")
		x.set("env", "{A: "+q(a)+", B: 'b', C: ''}")
		return map[string]string{"A": a, "B": "b", "C": ""}
	}
	return nil
}

func (x *item) platforms() []babfile.Platform {
	switch sym.Choice(x.id+".platforms", 2) {
	case 1:
		x.set("platforms", "[windows, linux, darwin]")
		return []babfile.Platform{"windows", "linux", "darwin"}
	}
	return nil
}

// Kinds of run items.
const (
	Cmd = iota
	Task
	Log
	Prompt
	Parallel
	Kinds
)

var modes = []babfile.ParallelMode{"", "interleaved", "grouped"}
var levels = []babfile.LogLevel{"", "debug", "info", "warn", "error"}

// Item writes an item of a kind with any settings. Task references go to one of tasks.
func (d *Doc) Item(ind int, id string, kind int, target string, child bool) babfile.RunItem {
	x := &item{d: d, ind: ind, first: true, id: id}
	text := d.text("main")
	switch kind {
	case Cmd:
		r := babfile.CommandRun{Cmd: "c" + text}
		x.set("cmd", q(r.Cmd))
		r.Dir, r.When = x.opt("dir"), x.opt("when")
		r.Env, r.Silent, r.Output, r.Platforms = x.env(), x.tri("silent"), x.tri("output"), x.platforms()
		r.Line = x.line
		return r
	case Task:
		r := babfile.TaskRun{Task: target}
		x.set("task", target)
		r.When = x.opt("when")
		r.Silent, r.Output, r.Platforms = x.tri("silent"), x.tri("output"), x.platforms()
		r.Line = x.line
		return r
	case Log:
		r := babfile.LogRun{Log: "l" + text, Level: levels[sym.Choice(id+".level", len(levels))]}
		x.set("log", q(r.Log))
		if r.Level != "" {
			x.set("level", string(r.Level))
		} else {
			r.Level = "info"
		}
		r.When, r.Platforms = x.opt("when"), x.platforms()
		r.Line = x.line
		return r
	case Prompt:
		r := babfile.PromptRun{Prompt: "p"}
		x.set("prompt", "p")
		r.Type = babfile.PromptType([]string{"confirm", "input", "select", "multiselect", "password", "number"}[sym.Choice(id+".type", 6)])
		x.set("type", string(r.Type))
		r.Message = "m" + text
		x.set("message", q(r.Message))
		r.When, r.Platforms = x.opt("when"), x.platforms()
		switch r.Type {
		case "confirm":
			if c := sym.Choice(id+".default", 3); c > 0 {
				r.Default = []string{"", "true", "false"}[c]
				x.set("default", r.Default)
			}
		case "input":
			r.Default, r.Placeholder = x.opt("default"), x.opt("placeholder")
			if sym.Flag(id + ".validate") {
				r.Validate = "^a+$"
				x.set("validate", q(r.Validate))
			}
		case "select":
			o := "o" + d.text("option")
			r.Options = []string{o, "second"}
			x.set("options", "["+q(o)+", second]")
			if sym.Flag(id + ".default") {
				r.Default = "second"
				x.set("default", "second")
			}
		case "multiselect":
			o := "o" + d.text("option")
			r.Options = []string{"first", o, "third"}
			x.set("options", "[first, "+q(o)+", third]")
			if sym.Flag(id + ".defaults") {
				r.Defaults = []string{"third", "first"}
				x.set("defaults", "[third, first]")
			}
			r.Min, r.Max = x.num("min", 1), x.num("max", 2)
		case "password":
			r.Confirm = x.tri("confirm")
		case "number":
			if sym.Flag(id + ".default") {
				r.Default = "7"
				x.set("default", "7")
			}
			r.Min, r.Max = x.num("min", -3), x.num("max", 9)
		}
		r.Line = x.line
		return r
	}
	r := babfile.ParallelRun{Mode: modes[sym.Choice(id+".mode", len(modes))]}
	x.first = false
	x.line = d.add(ind, "- parallel:")
	shape := sym.Choice(id+".items", 4)
	for i, k := range [][]int{{Cmd}, {Task, Cmd}, {Log}, {Cmd, Log, Task, Cmd, Task}}[shape] {
		c := id + "." + strconv.Itoa(i)
		var it babfile.RunItem
		if child {
			it = d.Item(ind+4, c, k, target, true)
		} else {
			it = d.plain(ind+4, k, target)
		}
		r.Items = append(r.Items, it)
		label := ""
		if shape == 3 && i%2 == 0 || shape < 3 && sym.Flag(c+".label") {
			label = d.text("label")
			v, alt := d.value(q(label))
			d.add2(ind+6, "label: "+v, "label: "+alt)
		}
		r.Labels = append(r.Labels, label)
	}
	if r.Mode != "" {
		x.set("mode", string(r.Mode))
	} else {
		r.Mode = "interleaved"
	}
	if sym.Flag(id + ".limit") {
		r.Limit = 2
		x.set("limit", "2")
	}
	r.When = x.opt("when")
	r.Color, r.Silent, r.Output, r.Platforms = x.tri("color"), x.tri("silent"), x.tri("output"), x.platforms()
	r.Line = x.line
	return r
}

func (d *Doc) plain(ind int, kind int, target string) babfile.RunItem {
	x := &item{d: d, ind: ind, first: true, id: "plain"}
	switch kind {
	case Cmd:
		t := "c" + d.text("main")
		d.add(ind, "- cmd: "+q(t))
		return babfile.CommandRun{Line: len(d.Lines), Cmd: t}
	case Task:
		d.add(ind, "- task: "+target)
		return babfile.TaskRun{Line: len(d.Lines), Task: target}
	}
	t := "l" + d.text("main")
	x.d.add(ind, "- log: "+q(t))
	return babfile.LogRun{Line: len(d.Lines), Log: t, Level: "info"}
}

// Task writes a task with any settings, below "tasks:".
func (d *Doc) Task(name string, aliases bool, dep string) *babfile.Task {
	t := &babfile.Task{Name: name}
	t.Line = d.add(2, name+":")
	x := &item{d: d, ind: 2, id: "task"}
	t.Desc, t.Dir, t.When = x.opt("desc"), x.opt("dir"), x.opt("when")
	if aliases {
		if sym.Flag("task.alias") {
			t.Alias = "al" // any name: C18
			x.set("alias", "al")
		}
		if sym.Flag("task.aliases") {
			t.Aliases = []string{"am", "an", "ao"}
			x.set("aliases", "[am, an, ao]")
		}
	}
	t.Env, t.Silent, t.Output = x.env(), x.tri("silent"), x.tri("output")
	if sym.Flag("task.vars") {
		v := d.text("var")
		t.Vars = babfile.VarMap{"v": v, "w": "${{ v }}", "x": ""}
		x.set("vars", "{v: "+q(v)+", w: '${{ v }}', x: ''}")
	}
	if dep != "" && sym.Flag("task.deps") {
		t.Deps = strings.Split(dep, ", ")
		t.DepsLine = len(d.Lines) + 1
		x.set("deps", "["+dep+"]")
	}
	return t
}

// Several writes some items of different kinds without further settings.
func (d *Doc) Several(ind int, target string) (r []babfile.RunItem) {
	for _, k := range []int{Log, Cmd, Task} {
		r = append(r, d.plain(ind, k, target))
	}
	return
}

// Begin starts the run list of a task.
func (d *Doc) Begin() { d.add(4, "run:") }

// Line adds a line.
func (d *Doc) Line(ind int, s string) int { return d.add(ind, s) }
