// Package h11: platforms and when decide what runs, wherever an item stands.
package h11

import (
	"context"
	"runtime"
	"sort"
	"strings"

	"github.com/bab-sh/bab/internal/zzverif/kit"
	"github.com/bab-sh/bab/internal/zzverif/model"
	"github.com/bab-sh/bab/internal/zzverif/modelrun"
	"github.com/bab-sh/bab/internal/zzverif/modeltea"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

func other() string {
	if runtime.GOOS == "linux" {
		return "darwin"
	}
	return "linux"
}

func platforms(n string) []string {
	switch sym.Choice("platforms."+n, 4) {
	case 1:
		return []string{runtime.GOOS}
	case 2:
		return []string{other()}
	case 3:
		return []string{other(), runtime.GOOS}
	}
	return nil
}

func when(n, v string) string {
	switch sym.Choice("when."+n, 3) {
	case 1:
		return "${{ " + v + " }} == 'a'"
	case 2:
		return "${{ " + v + " }} != 'a'"
	}
	return ""
}

// gate decorates an item with platforms and a condition.
func gate(n string, it spec.Item) spec.Item {
	it.Platforms = platforms(n)
	it.When = when(n, "v")
	return it
}

func item(n string, kinds int) spec.Item {
	switch sym.Choice("kind."+n, kinds) {
	case 1:
		return spec.Item{Task: "r" + n}
	case 2:
		return spec.Item{Log: "log " + n}
	case 3:
		return spec.Item{Prompt: "p", Raw: []string{"type: input", "message: m", "default: new" + n}}
	}
	return spec.Item{Cmd: "c" + n}
}

func ref(n string) spec.Task {
	return spec.Task{Name: "r" + n, Deps: []string{"d"}, Run: []spec.Item{{Cmd: "cr" + n}}}
}

func run(f spec.File, name string, included bool) {
	v := sym.StrN("v", 1, "ab")
	vars := []spec.KV{{K: "v", V: v}, {K: "p", V: "old"}}
	root := f
	root.Vars = vars
	if included {
		if sym.Flag("libvars") {
			f.Vars = vars
			root.Vars = nil
		}
		lib := f
		root.Includes = []spec.Include{{NS: "n", Path: "lib/babfile.yml", File: &lib}}
		root.Tasks = []spec.Task{{Name: "x", Run: []spec.Item{{Cmd: "x"}}}}
		name = "n:" + name
	}
	kit.Load(root)
	x := kit.New(root)
	err := kit.Run(context.Background(), name, false)
	x.Main(name)
	got, want := modelrun.Started(), x.Commands()
	sort.Strings(got)
	sort.Strings(want)
	g, w := strings.Join(got, ", "), strings.Join(want, ", ")
	sym.Log("started", g)
	sym.Log("err", kit.Msg(err))
	sym.Assert(g == w, "the commands started are "+g+", not "+w)
	if x.Error {
		sym.Assert(err != nil, "a task without an item for this platform succeeds")
	} else {
		sym.Assert(err == nil, "the run failed: "+kit.Msg(err))
	}
	// logs: direct ones go to the logger, those of parallel items to standard output
	gl := ""
	for _, e := range modelrun.Events() {
		if e.Kind == "log" {
			gl += e.Msg + ";"
		}
	}
	gl += model.Stdout()
	viewed := modeltea.Runs > 0 // the text is in the view, see C07 and C27
	for _, s := range x.Steps {
		if s.Kind == "log" {
			n := strings.Count(gl, s.Text+";") + strings.Count(gl, s.Text+"\n")
			sym.Assert(viewed || n == 1, "log item "+s.Text+" was not executed")
		}
	}
	for _, l := range []string{"log 1", "log 2"} {
		due := false
		for _, s := range x.Steps {
			due = due || s.Kind == "log" && s.Text == l
		}
		sym.Assert(due || !strings.Contains(gl, l), "log item "+l+" was executed")
	}
}

// Items: two items of a task, each of any kind, with any platforms and condition.
func Items() {
	kit.Setup()
	included := sym.Flag("included")
	t := spec.Task{Name: "t"}
	t.Run = append(t.Run, gate("1", item("1", 4)))
	if sym.Param("two", 0) > 0 {
		t.Run = append(t.Run, gate("2", item("2", 4)))
	}
	if sym.Flag("more") {
		t.Run = append(t.Run, spec.Item{Cmd: "end ${{ p }}"})
	}
	f := spec.File{Tasks: []spec.Task{t, ref("1"), ref("2"), {Name: "d", Run: []spec.Item{{Cmd: "cd"}}}}}
	run(f, "t", included)
}

// Block: a parallel block with platforms and condition whose items have some, too.
func Block() {
	kit.Setup()
	included := sym.Flag("included")
	b := spec.Item{}
	switch sym.Choice("mode", 3) {
	case 1:
		b.Mode = "grouped"
		modelrun.Terminal(false, true, true)
	case 2:
		b.Limit = 1
	}
	b.Parallel = append(b.Parallel, gate("1", item("1", 3)))
	if sym.Param("two", 0) > 0 {
		b.Parallel = append(b.Parallel, gate("2", item("2", 3)))
	} else {
		b.Parallel = append(b.Parallel, spec.Item{Cmd: "c2"})
	}
	if sym.Param("blockgate", 1) > 0 {
		b = gate("b", b)
	}
	t := spec.Task{Name: "t", Run: []spec.Item{b, {Cmd: "end"}}}
	f := spec.File{Tasks: []spec.Task{t, ref("1"), ref("2"), {Name: "d", Run: []spec.Item{{Cmd: "cd"}}}}}
	run(f, "t", included)
}

// Tasks: a task with a condition, reached as main task, dependency, reference or parallel item,
// with a dependency of its own.
func Tasks() {
	kit.Setup()
	included := sym.Flag("included")
	t := spec.Task{Name: "t", When: when("t", "v"), Deps: []string{"d"}, Run: []spec.Item{{Cmd: "ct"}}}
	d := spec.Task{Name: "d", When: when("d", "v"), Run: []spec.Item{{Cmd: "cd"}}}
	if sym.Flag("empty") {
		t.Run = nil
	}
	m := spec.Task{Name: "m", When: when("m", "v")}
	name := "m"
	switch sym.Choice("via", 5) {
	case 0:
		name = "t"
		m.Run = []spec.Item{{Cmd: "x"}}
	case 1:
		m.Deps = []string{"t"}
		m.Run = []spec.Item{{Cmd: "cm"}, {Task: "t"}}
	case 2:
		m.Run = []spec.Item{{Task: "t"}, {Cmd: "cm"}, {Task: "t"}}
	case 3:
		m.Run = []spec.Item{{Parallel: []spec.Item{{Task: "t"}, {Cmd: "cp"}}}, {Cmd: "cm"}}
	case 4:
		m.Deps = []string{"t", "d"}
	}
	f := spec.File{Tasks: []spec.Task{m, t, d}}
	run(f, name, included)
}

// Undefined: a condition over a variable nothing defines, on a task, an item, a block or an item
// of a block, however that is reached: what it decides about is not run, the run fails, and
// nothing of what comes after it is started.
func Undefined() {
	kit.Setup()
	bad := []string{"${{ nope }}", "${{ nope }} == 'a'", "${{ nope }} != 'a'", "${{ v }}${{ nope }}"}[sym.Choice("when", 4)]
	t := spec.Task{Name: "t", Run: []spec.Item{{Cmd: "ct"}}}
	d := spec.Task{Name: "d", Run: []spec.Item{{Cmd: "cd"}}}
	m := spec.Task{Name: "m"}
	// commands that must not be started
	never := []string{"ct", "late"}
	switch sym.Choice("on", 5) {
	case 0:
		t.When = bad
		t.Deps = []string{"d"}
		if sym.Flag("empty") {
			t.Run = nil
		}
	case 1:
		t.Run[0].When = bad
	case 2:
		t.Run = []spec.Item{{Task: "d", When: bad}, {Cmd: "late"}}
		never = append(never, "cd")
	case 3:
		t.Run = []spec.Item{{Parallel: []spec.Item{{Cmd: "cx"}, {Cmd: "cd"}}, When: bad}, {Cmd: "late"}}
		never = append(never, "cx", "cd")
	case 4:
		t.Run = []spec.Item{{Parallel: []spec.Item{{Cmd: "cx"}, {Cmd: "ct", When: bad}}}, {Cmd: "late"}}
	}
	t.Run = append(t.Run, spec.Item{Cmd: "late"})
	if t.When == "" {
		// what runs or is skipped before it makes no difference
		before := [][]spec.Item{nil, {{Cmd: "early"}}, {{Cmd: "never", When: "v == 'w'"}}, {{Cmd: "never", When: "false"}, {Log: "early"}}}
		t.Run = append(before[sym.Choice("before", 4)], t.Run...)
		never = append(never, "never")
	}
	if t.When != "" && len(t.Run) == 1 {
		t.Run = nil
	}
	name := "m"
	switch sym.Choice("via", 5) {
	case 0:
		name = "t"
		m.Run = []spec.Item{{Cmd: "x"}}
	case 1:
		m.Deps = []string{"t"}
		m.Run = []spec.Item{{Cmd: "late"}}
	case 2:
		m.Run = []spec.Item{{Cmd: "first"}, {Task: "t"}, {Cmd: "late"}}
	case 3:
		m.Run = []spec.Item{{Parallel: []spec.Item{{Task: "t"}, {Cmd: "cp"}}}, {Cmd: "late"}}
	case 4:
		u := spec.Task{Name: "u", Run: []spec.Item{{Task: "t"}, {Cmd: "late"}}}
		m.Run = []spec.Item{{Task: "u"}, {Cmd: "late"}}
		m.Deps = nil
		f := spec.File{Vars: []spec.KV{{K: "v", V: "a"}}, Tasks: []spec.Task{m, u, t, d}}
		fails(f, name, never)
		return
	}
	f := spec.File{Vars: []spec.KV{{K: "v", V: "a"}}, Tasks: []spec.Task{m, t, d}}
	if sym.Flag("included") {
		lib := f
		f = spec.File{Includes: []spec.Include{{NS: "n", Path: "lib/babfile.yml", File: &lib}}, Tasks: []spec.Task{{Name: "x", Run: []spec.Item{{Cmd: "x"}}}}}
		name = "n:" + name
	}
	fails(f, name, never)
}

func fails(f spec.File, name string, never []string) {
	kit.LoadAs(f)
	err := kit.Run(context.Background(), name, false)
	started := modelrun.Started()
	sym.Log("started", strings.Join(started, ", "))
	sym.Assert(err != nil, "a condition over an undefined variable is not an error")
	for _, c := range started {
		for _, n := range never {
			sym.Assert(c != n, "command "+c+" was started although a condition could not be decided")
		}
	}
}
