// Package h05: parallel branches that share tasks.
package h05

import (
	"context"
	"strconv"
	"strings"

	"github.com/bab-sh/bab/internal/zzverif/kit"
	"github.com/bab-sh/bab/internal/zzverif/modelrun"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

type prog struct {
	f     spec.File
	limit int
	items int
	waits [][2]string // task x waits for task y
	fails spec.Outcome
}

// build makes a file whose task m runs two or three branches that share tasks c and d.
func build(mayFail bool) *prog {
	p := &prog{}
	steps := 1
	for _, c := range []string{"ca", "cb", "cc", "cd", "cx"} {
		modelrun.Command(c, modelrun.Cmd{Steps: steps, Echo: true})
	}
	if mayFail {
		e := sym.Int("exit.cc", 0, 1)
		g := sym.Int("exit.ca", 0, 1)
		modelrun.Command("cc", modelrun.Cmd{Steps: steps, Echo: true, Exit: e})
		modelrun.Command("ca", modelrun.Cmd{Steps: steps, Echo: true, Exit: g})
		p.fails = func(c string) bool { return c == "cc" && e != 0 || c == "ca" && g != 0 }
	}
	edge := func(t *spec.Task, to string) {
		switch sym.Choice("edge."+t.Name+"."+to, sym.Param("edges", 4)) {
		case 1:
			t.Deps = append(t.Deps, to)
		case 2:
			t.Run = append(t.Run, spec.Item{Task: to})
		case 3:
			t.Run = append(t.Run, spec.Item{Parallel: []spec.Item{{Task: to}}})
		default:
			return
		}
		p.waits = append(p.waits, [2]string{t.Name, to})
	}
	a, b, c, d := spec.Task{Name: "a"}, spec.Task{Name: "b"}, spec.Task{Name: "c"}, spec.Task{Name: "d"}
	edge(&a, "c")
	edge(&b, "c")
	if sym.Param("deep", 0) > 0 {
		edge(&c, "d")
		edge(&b, "d")
	}
	for _, t := range []*spec.Task{&a, &b, &c, &d} {
		t.Run = append(t.Run, spec.Item{Cmd: "c" + t.Name})
	}
	m := spec.Task{Name: "m"}
	p.items = sym.Param("items", 2)
	p.limit = sym.Choice("limit", p.items)
	par := spec.Item{Limit: p.limit}
	par.Parallel = append(par.Parallel, spec.Item{Task: "a"})
	switch sym.Choice("second", 3) {
	case 0:
		par.Parallel = append(par.Parallel, spec.Item{Task: "b"})
	case 1:
		par.Parallel = append(par.Parallel, spec.Item{Task: "c"})
	case 2:
		par.Parallel = append(par.Parallel, spec.Item{Task: "a"})
	}
	for i := 2; i < p.items; i++ {
		if i == 2 {
			par.Parallel = append(par.Parallel, spec.Item{Cmd: "cx"})
		} else {
			par.Parallel = append(par.Parallel, spec.Item{Task: "c"})
		}
	}
	m.Run = []spec.Item{par}
	p.f.Tasks = []spec.Task{m, a, b, c, d}
	kit.Load(p.f)
	return p
}

func count(cmd, kind string) int {
	n := 0
	for _, e := range modelrun.Events() {
		if e.Kind == kind && e.Cmd == cmd {
			n++
		}
	}
	return n
}

func at(cmd, kind string) int {
	for i, e := range modelrun.Events() {
		if e.Kind == kind && e.Cmd == cmd {
			return i
		}
	}
	return -1
}

// reach is the set of commands a successful run executes.
func (p *prog) reach() map[string]bool {
	r := map[string]bool{}
	x := kit.New(p.f)
	x.Main("m")
	for _, c := range x.Commands() {
		r[c] = true
	}
	return r
}

var all = []string{"ca", "cb", "cc", "cd", "cx"}

// Once: no task runs twice; in a successful run every reachable one has run.
func Once() {
	kit.Setup()
	p := build(true)
	err := kit.Run(context.Background(), "m", false)
	want := p.reach()
	failed := false
	for _, c := range all {
		n := count(c, "start")
		sym.Assert(n <= 1, "command "+c+" ran "+strconv.Itoa(n)+" times in one invocation")
		sym.Assert(n == 0 || want[c], "command "+c+" ran although nothing reaches it")
		if err == nil {
			sym.Assert(n == 1 || !want[c], "command "+c+" did not run in a successful run")
		}
		if n > 0 && p.fails(c) {
			failed = true
		}
	}
	sym.Assert((err != nil) == failed, "the result of the run does not tell whether a command failed: "+kit.Msg(err))
}

// Schedules: the outcome depends on the commands alone.
func Schedules() {
	kit.Setup()
	sym.Races(true)
	p := build(true)
	p.outcome(kit.Run(context.Background(), "m", false))
}

// outcome is what every schedule has to lead to.
func (p *prog) outcome(err error) {
	failed := false
	for _, c := range all {
		if count(c, "end") > 0 && p.fails(c) {
			failed = true
		}
	}
	if !failed {
		sym.Assert(err == nil, "a run whose commands all succeeded failed: "+kit.Msg(err))
		for c := range p.reach() {
			sym.Assert(count(c, "end") == 1, "the run ended before "+c+" was finished")
		}
	} else {
		sym.Assert(err != nil, "a run with a failing command succeeded")
		sym.Assert(!strings.Contains(err.Error(), "circular"), "a failure is reported as a circular dependency")
	}
	for _, w := range p.waits {
		s, e := at("c"+w[0], "start"), at("c"+w[1], "end")
		if s >= 0 {
			sym.Assert(e >= 0 && e < s, "task "+w[0]+" went on before "+w[1]+" was finished")
			sym.Assert(!p.fails("c"+w[1]), "task "+w[0]+" went on although "+w[1]+" failed")
		}
	}
	sym.Quiesce()
	kit.NoneLeft()
}

// Settings: a task reached several times, whatever the references to it say, by name or alias.
func Settings() {
	kit.Setup()
	set := func(n string) spec.Tri { return spec.Tri(sym.Choice(n, 3)) }
	refer := func(n string, t *spec.Task, to string) {
		i := spec.Item{Task: to}
		k := sym.Choice(n, 4)
		if k > 1 {
			i.Silent, i.Output = set(n+".silent"), set(n+".output")
		}
		switch k {
		case 1:
			t.Deps = append(t.Deps, to)
		case 2:
			t.Run = append(t.Run, i)
		case 3:
			t.Run = append(t.Run, spec.Item{Parallel: []spec.Item{i}})
		}
	}
	m := spec.Task{Name: "m", Alias: "x"}
	a, b := spec.Task{Name: "a_b", Alias: "y"}, spec.Task{Name: "a-b"}
	c := spec.Task{Name: "c", Deps: []string{"C"}, Run: []spec.Item{{Cmd: "cc"}}}
	d := spec.Task{Name: "C", Alias: "z", Run: []spec.Item{{Cmd: "cd"}}}
	d.Silent, d.Output = set("silent"), set("output")
	refer("m.c", &m, "c")
	refer("a.c", &a, "c")
	if sym.Flag("b.d") {
		b.Deps = []string{"C"}
	}
	m.Deps = append(m.Deps, "a_b")
	m.Run = append(m.Run, spec.Item{Task: "a-b"}, spec.Item{Cmd: "cm"})
	a.Run = append(a.Run, spec.Item{Cmd: "ca"})
	b.Run = append(b.Run, spec.Item{Cmd: "cb"})
	f := spec.File{Tasks: []spec.Task{m, a, b, c, d}}
	kit.Load(f)
	err := kit.Run(context.Background(), []string{"m", "x"}[sym.Choice("name", 2)], false)
	sym.Assert(err == nil, "the run fails: "+kit.Msg(err))
	p := &prog{f: f}
	want := p.reach()
	for _, c := range []string{"ca", "cb", "cc", "cd", "cm"} {
		n := count(c, "start")
		sym.Assert(n <= 1, "command "+c+" ran "+strconv.Itoa(n)+" times in one invocation")
		sym.Assert(n == 1 == want[c], "command "+c+" ran "+strconv.Itoa(n)+" times")
	}
}
