// Package h19: what the parser makes of a Babfile.
package h19

import (
	"strings"

	"github.com/bab-sh/bab/internal/babfile"
	"github.com/bab-sh/bab/internal/parser"
	"github.com/bab-sh/bab/internal/zzverif/gen"
	"github.com/bab-sh/bab/internal/zzverif/kit"
	"github.com/bab-sh/bab/internal/zzverif/model"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

func parse(doc string) (*parser.ParseResult, error) {
	model.Write(kit.Path(), doc)
	return parser.Parse(kit.Path())
}

// Fields: a task with any settings or an item of any kind with any settings, written
// directly, with aliases for its values, as an alias as a whole or through merge keys.
func Fields() {
	kit.Setup()
	how := sym.Choice("how", 5)
	d := &gen.Doc{Free: true, Anchors: how == 1}
	d.Line(0, "tasks:")
	d.Line(2, "a:")
	d.Line(4, "desc: d")
	d.Line(2, "b:")
	d.Line(4, "desc: d")
	kind := sym.Choice("part", 1+gen.Kinds)
	start := len(d.Lines)
	want := &babfile.Task{Name: "t"}
	if kind == 0 {
		want = d.Task("t", how == 0, "b, a")
		d.Begin()
		d.Line(6, "- cmd: c")
		want.Run = []babfile.RunItem{babfile.CommandRun{Cmd: "c"}}
	} else {
		d.Line(2, "t:")
		d.Begin()
		want.Run = []babfile.RunItem{d.Item(6, "item", kind-1, "a", sym.Param("child", 0) > 0)}
	}
	if kind > 0 && how < 2 {
		want.Run = append(want.Run, d.Several(6, "b")...)
	}
	second := "t"
	switch how {
	case 1: // a second task with aliases of the values of the first
		d.Lines = append(d.Lines, d.Alt[start:]...)
		d.Lines[len(d.Lines)-(len(d.Alt)-start)] = "  u:"
		second = "u"
	case 2: // the task or its run list as an alias
		if sym.Flag("list") && kind > 0 {
			d.Lines[start+1] = "    run: &r"
			d.Line(2, "u:")
			d.Line(4, "run: *r")
		} else {
			d.Lines[start] = "  t: &t"
			d.Line(2, "u: *t")
		}
		second = "u"
	case 3: // merged into a task or an item of its own
		if kind > 0 && sym.Flag("item") {
			d.Lines[start+2] = "      - &i\n        " + d.Lines[start+2][8:]
			d.Line(2, "u:")
			d.Begin()
			d.Line(6, "- <<: *i")
		} else {
			d.Lines[start] = "  t: &t"
			d.Line(2, "u:")
			d.Line(4, "<<: *t")
			if kind > 0 || want.Desc == "" {
				d.Line(4, "desc: mine")
				want.Desc = "mine"
			}
		}
		second = "u"
	case 4: // several merged, of which the first that has a key wins, after the task's own
		d.Lines[start] = "  t: &t"
		d.Line(2, "v: &v")
		d.Line(4, "desc: other")
		d.Line(4, "dir: other")
		d.Line(4, "run: []")
		d.Line(2, "u:")
		d.Line(4, "<<: [*t, *v]")
		d.Line(4, "when: own")
		want.When = "own"
		if want.Desc == "" {
			want.Desc = "other"
		}
		if want.Dir == "" {
			want.Dir = "other"
		}
		second = "u"
	}
	res, err := parse(d.String())
	sym.Assert(err == nil, "a valid Babfile is rejected: "+kit.Msg(err))
	want.Name = second
	gen.Same("task", res.Tasks[second], want, "")
}

// Enums: a setting that takes one of several words.
func Enums() {
	kit.Setup()
	words := []string{"debug", "info", "warn", "error"}
	lines := []string{"- log: l", "  level: "}
	switch sym.Choice("setting", 5) {
	case 1:
		words = []string{"linux", "darwin", "windows"}
		lines = []string{"- cmd: c", "  platforms: ["}
	case 2:
		words = []string{"linux", "darwin", "windows"}
		lines = []string{"- parallel:", "  - cmd: c", "  platforms: [linux, "}
	case 3:
		words = []string{"interleaved", "grouped"}
		lines = []string{"- parallel:", "  - cmd: c", "  mode: "}
	case 4:
		words = []string{"confirm", "input", "select", "multiselect", "password", "number"}
		lines = []string{"- prompt: p", "  message: m", "  type: "}
	}
	// any word of the length of one of them, or of another length
	n := sym.Choice("length", 13)
	v := sym.StrN("word", n, "abcdefghijklmnopqrstuvwxyzL ")
	last := lines[len(lines)-1]
	open := strings.Contains(last, "[")
	lines[len(lines)-1] = last + "'" + v + "'"
	if open {
		lines[len(lines)-1] += "]"
	}
	valid, seen := false, ""
	for _, w := range words {
		if v == w {
			valid, seen = true, w
		}
	}
	if words[0] == "confirm" && (seen == "select" || seen == "multiselect") {
		lines = append(lines, "  options: [o]")
	}
	if words[0] == "debug" && n == 0 {
		return // no level
	}
	if words[0] == "interleaved" && n == 0 {
		return
	}
	res, err := parse("tasks:\n  t:\n    run:\n      " + strings.Join(lines, "\n      ") + "\n")
	if words[0] == "interleaved" && v == "tabs" {
		return // undocumented
	}
	if !valid {
		sym.Assert(err != nil, "the word "+v+" is accepted")
		return
	}
	sym.Assert(err == nil, "the word "+seen+" is rejected: "+kit.Msg(err))
	it := res.Tasks["t"].Run[0]
	got := ""
	switch r := it.(type) {
	case babfile.LogRun:
		got = string(r.Level)
	case babfile.CommandRun:
		got = string(r.Platforms[0])
	case babfile.PromptRun:
		got = string(r.Type)
	case babfile.ParallelRun:
		got = string(r.Mode)
		if words[0] == "linux" {
			got = string(r.Platforms[1])
		}
	}
	sym.Assert(got == v, "the word "+seen+" becomes "+got)
}

// PromptNames: the variable a prompt sets has a name.
func PromptNames() {
	kit.Setup()
	n := sym.Str1("name", 3, "ab_Z09- .")
	ok := true
	for i := 0; i < len(n); i++ {
		c := n[i]
		letter := c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
		digit := c >= '0' && c <= '9'
		if !letter && (i == 0 || !digit) {
			ok = false
		}
	}
	_, err := parse("tasks:\n  t:\n    run:\n      - prompt: '" + n + "'\n        type: input\n        message: m\n")
	if ok {
		sym.Assert(err == nil, "a prompt name is rejected: "+kit.Msg(err))
	} else {
		sym.Assert(err != nil, "a prompt name is accepted")
	}
}

// Merges: an env, vars or tasks mapping with up to two settings of its own and the settings
// of one or two others, which may have the same names, also where a value spells a name.
func Merges() {
	kit.Setup()
	names := []string{"A", "B", "C"}
	word := func(n string) string { return sym.StrN(n, 1, "ABCz") }
	type kv struct{ k, v string }
	m := []([]kv){nil, nil, nil}
	sets := [][]int{{}, {0}, {1, 0}, {2}, {1, 2, 0}}
	for i := range m {
		for j, k := range sets[sym.Choice("set", []int{3, 3, 5}[i])] {
			v := "z" + string(rune('0'+i)) + string(rune('0'+j))
			if i < 2 && j == 0 || i == 2 {
				v = word("v")
			}
			m[i] = append(m[i], kv{names[k], v})
		}
	}
	how, at := sym.Choice("how", 4), sym.Choice("at", 3)
	in := []string{"env", "vars"}[sym.Choice("in", 2)]
	d := "tasks:\n"
	for i := 0; i < 2; i++ {
		d += "  b" + string(rune('0'+i)) + ":\n    desc: d\n    " + in + ": &m" + string(rune('0'+i)) + "\n"
		for _, e := range m[i] {
			d += "      " + e.k + ": " + e.v + "\n"
		}
		if how == 3 && i == 1 {
			d += "      <<: *m0\n"
		} else if len(m[i]) == 0 {
			d = d[:len(d)-1] + " {}\n"
		}
	}
	merge := []string{"*m0", "[*m0, *m1]", "[*m1, *m0]", "*m1"}[how]
	d += "  t:\n    desc: d\n    " + in + ":\n"
	for j, e := range m[2] {
		if j == at {
			d += "      <<: " + merge + "\n"
		}
		d += "      " + e.k + ": " + e.v + "\n"
	}
	if at >= len(m[2]) {
		d += "      <<: " + merge + "\n"
	}
	want := map[string]string{}
	for _, i := range [][]int{{2, 0}, {2, 0, 1}, {2, 1, 0}, {2, 1, 0}}[how] {
		for _, e := range m[i] {
			if _, ok := want[e.k]; !ok {
				want[e.k] = e.v
			}
		}
	}
	res, err := parse(d)
	sym.Assert(err == nil, "merged settings are rejected: "+kit.Msg(err))
	for _, k := range names {
		v, ok := res.Tasks["t"].Env[k]
		if in == "vars" {
			v, ok = res.Tasks["t"].Vars[k]
		}
		w, has := want[k]
		sym.Assert(ok == has, "a merged setting is lost or invented")
		sym.Assert(v == w, "a merged setting has the value of another")
	}
}
