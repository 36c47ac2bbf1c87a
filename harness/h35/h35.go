// Package h35: what commands and logs say.
package h35

import (
	"context"
	"path/filepath"
	"strings"

	"github.com/bab-sh/bab/internal/zzverif/kit"
	"github.com/bab-sh/bab/internal/zzverif/model"
	"github.com/bab-sh/bab/internal/zzverif/modelrun"
	"github.com/bab-sh/bab/internal/zzverif/modelui"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

// part is a piece of a text as it is written and as it is meant.
type part struct{ written, meant string }

func same(s string) part { return part{s, s} }

var parts = []part{
	same("echo"), same("a  b"), same(" "), same("'q'"), same("\"q\""), same("$HOME"), same("$$"), same("a\\nb"), same("a\nb"),
	same("a\n\n  b\n"), same("\tt"), same("# no"), same("- x"), same("%s%d"), same("é漢"), same("{{ v }}"), same("${v}"), same("a; b && c | d > e &"),
	{"${{ v }}", "VAL"}, {"${{v}}${{ w }}", "VAL$1 'x'"}, {"$${{ v }}", "${{ v }}"}, {"${{ env.HOME }}", "home"},
}

// text is any text for an item: one part or two with any two characters between, or a long one.
func text() part {
	i := sym.Choice("text", len(parts)+2)
	switch i {
	case len(parts):
		m := sym.StrN("between", sym.Param("free", 2), "")
		for j := 0; j < len(m); j++ {
			sym.Assume(m[j] >= ' ' && m[j] < 0x7f && m[j] != '\'' && m[j] != '"' && m[j] != '\\' && m[j] != '$' && m[j] != '{')
		}
		return part{"x" + m + "${{ w }}" + m + "y", "x" + m + "$1 'x'" + m + "y"}
	case len(parts) + 1:
		n := []int{80, 200, 1024, 4096, 5000}[sym.Choice("long", 5)]
		return part{strings.Repeat("echo ", n/5) + "${{ v }}", strings.Repeat("echo ", n/5) + "VAL"}
	}
	a := parts[i]
	if sym.Flag("further") {
		b := parts[(i*7+3)%len(parts)]
		return part{a.written + " " + b.written, a.meant + " " + b.meant}
	}
	return a
}

// file puts the items somewhere: directly in the task that is run, in a dependency, in a
// referenced task, in a parallel block, in an included file.
func file(items []spec.Item) (f spec.File, inBlock bool) {
	vars := []spec.KV{{K: "v", V: "VAL"}, {K: "w", V: "$1 'x'"}}
	f = spec.File{Vars: vars}
	switch sym.Choice("place", 6) {
	case 0:
		f.Tasks = []spec.Task{{Name: "t", Run: items}}
	case 1:
		f.Tasks = []spec.Task{{Name: "t", Deps: []string{"d"}, Run: []spec.Item{{Cmd: "last"}}}, {Name: "d", Run: items}}
	case 2:
		f.Tasks = []spec.Task{{Name: "t", Run: []spec.Item{{Cmd: "first"}, {Task: "d"}}}, {Name: "d", Run: items}}
	case 3:
		f.Tasks = []spec.Task{{Name: "t", Run: []spec.Item{{Parallel: items, Limit: 1}}}}
		inBlock = true
	case 4:
		f.Tasks = []spec.Task{{Name: "t", Run: []spec.Item{{Parallel: []spec.Item{{Task: "d"}}}}}, {Name: "d", Run: items}}
		inBlock = true
	case 5:
		f = spec.File{Vars: []spec.KV{{K: "v", V: "other"}}, Tasks: []spec.Task{{Name: "t", Run: []spec.Item{{Task: "n:t"}}}}}
		f.Includes = []spec.Include{{NS: "n", Path: "lib/lib.yml", File: &spec.File{Vars: vars, Tasks: []spec.Task{{Name: "t", Run: items}}}}}
	}
	return f, inBlock
}

// Commands: a command with any text, reached in any way.
func Commands() {
	kit.Setup()
	_ = model.Setenv("HOME", "home")
	p := text()
	it := spec.Item{Cmd: p.written}
	hidden := false
	if sym.Flag("output") {
		it.Output = spec.No
		hidden = true
	}
	if sym.Flag("silent") {
		it.Silent = spec.Yes
	}
	f, inBlock := file([]spec.Item{it})
	kit.LoadAs(f)
	err := kit.Run(context.Background(), "t", false)
	if strings.TrimSpace(p.meant) == "" {
		sym.Assert(err != nil, "a command of blanks is not an error")
		return
	}
	sym.Assert(err == nil, "a task with a command fails: "+kit.Msg(err))
	n := 0
	for _, e := range modelrun.Events() {
		if e.Kind != "start" || e.Cmd == "first" || e.Cmd == "last" {
			continue
		}
		n++
		sym.Log("text", e.Cmd)
		sym.Assert(len(e.Args) == 3, "a command is not started as one text for the shell")
		sym.Assert(filepath.Base(e.Args[0]) == "sh" && e.Args[1] == "-c", "a command is not started with sh -c")
		sym.Assert(e.Args[2] == p.meant, "the shell is given "+e.Args[2]+", not "+p.meant)
		if sym.Symbolic() {
			kit.Assert(inBlock || hidden || e.Direct == [3]bool{true, true, true}, "a command that is run directly does not have bab's own input and output")
			kit.Assert(!inBlock || !e.Direct[1] && !e.Direct[2], "a command of a parallel block writes past its label")
			kit.Assert(!inBlock || !e.Direct[0], "a command of a parallel block reads bab's input")
		}
	}
	sym.Assert(n == 1, "a command is not started once")
}

// Logs: a log with any text and level, reached in any way.
func Logs() {
	kit.Setup()
	_ = model.Setenv("HOME", "home")
	p := text()
	sym.Assume(strings.TrimSpace(p.meant) != "")
	level := []string{"", "debug", "info", "warn", "error"}[sym.Choice("level", 5)]
	want := level
	if want == "" {
		want = "info"
	}
	label := "d"
	f, inBlock := file([]spec.Item{{Log: p.written, Level: level}})
	if b := f.Tasks[0].Run[0].Parallel; len(b) == 1 && b[0].Log != "" {
		label = "my label"
		b[0].Label = label
	}
	kit.LoadAs(f)
	model.Chdir(model.Root())
	args := []string{"t"}
	verbose := sym.Flag("verbose")
	if verbose {
		args = []string{"t", "-v"}
	}
	code := kit.Bab(args...)
	sym.Assert(code == 0, "a task with a log fails")
	if inBlock {
		// a label, the level and the first line of the text; further lines behind the label
		out := ""
		for _, l := range strings.Split(strings.TrimSuffix(modelui.Plain(model.Stdout()), "\n"), "\n") {
			rest := strings.TrimPrefix(l, "["+label+"] ")
			sym.Assert(rest != l, "a line of a log in a parallel block has no label: "+l)
			out += rest + "\n"
		}
		sym.Log("block", out)
		w := strings.ToUpper(want) + " " + p.meant + "\n"
		sym.Assert(out == w, "a parallel block logs "+out+", not "+w)
		return
	}
	if !sym.Symbolic() && strings.ContainsAny(p.meant, "\n\t") {
		return // how the log library breaks lines and shows tabs is not looked into
	}
	n := 0
	for _, l := range []string{"debug", "info", "warn", "error"} {
		for _, m := range kit.Reported(l) {
			if l == "debug" && (want != "debug" || m != p.meant) {
				continue // bab's own
			}
			n++
			if !strings.ContainsAny(p.meant, "\n\t") {
				sym.Log("msg", m)
			}
			sym.Assert(l == want, "a "+want+" log is reported as "+l)
			sym.Assert(m == p.meant, "the log shows "+m+", not "+p.meant)
		}
	}
	if want == "debug" && !verbose {
		sym.Assert(n == 0, "a debug log shows without --verbose")
	} else {
		sym.Assert(n == 1, "a log does not show once")
	}
}

// Input: a command that reads its input, which is a terminal or not.
func Input() {
	kit.Setup()
	term := sym.Flag("terminal")
	modelrun.Terminal(term, true, true)
	it := spec.Item{Cmd: "ask"}
	if sym.Flag("silent") {
		it.Silent = spec.Yes
	}
	f, _ := file([]spec.Item{it})
	kit.LoadAs(f)
	modelrun.Command("ask", modelrun.Cmd{Echo: true, Reads: true})
	err := kit.Run(context.Background(), "t", false)
	sym.AssertKnown(len(modelrun.Stopped) == 0, "a command that reads from the terminal is stopped and the run never ends", "terminal-input")
	sym.Assert(err == nil, "a task with a command that reads its input fails: "+kit.Msg(err))
}
