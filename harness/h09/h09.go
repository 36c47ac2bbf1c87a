// Package h09: what a cancellation does.
package h09

import (
	"context"
	"errors"

	"github.com/bab-sh/bab/internal/runner"
	"github.com/bab-sh/bab/internal/tui"
	"github.com/bab-sh/bab/internal/zzverif/kit"
	"github.com/bab-sh/bab/internal/zzverif/model"
	"github.com/bab-sh/bab/internal/zzverif/modelrun"
	"github.com/bab-sh/bab/internal/zzverif/modeltea"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

// stopper cancels the run and remembers what had been started by then.
type stopper struct {
	ctx    context.Context
	cancel context.CancelFunc
	fired  bool
	n      int
}

func newStopper() *stopper {
	s := &stopper{}
	s.ctx, s.cancel = context.WithCancel(context.Background())
	return s
}

func (s *stopper) fire() {
	s.cancel()
	s.n = len(modelrun.Started())
	s.fired = true
}

// check asserts what holds after a run that was cancelled; complete says that nothing was
// left to do and nothing was killed.
func (s *stopper) check(err error, complete bool) {
	sym.Log("err", kit.Msg(err))
	started := modelrun.Started()
	if s.fired {
		for _, c := range started[s.n:] {
			sym.Assert(false, "command "+c+" was started after the cancellation")
		}
		if !complete {
			sym.Assert(err != nil, "a cancelled run is reported as success")
			sym.Assert(errors.Is(err, context.Canceled), "the error of a cancelled run is another one: "+kit.Msg(err))
		}
	}
	sym.Assert(!modelrun.SelfKilled, "bab signalled its own process group")
	sym.Assert(modelrun.Alive() == 0, "processes are left over")
	for _, e := range modelrun.Events() {
		if e.Kind == "start" {
			sym.Assert(e.Group == e.Pid, "command "+e.Cmd+" does not run in a process group of its own")
		}
	}
	sym.Quiesce()
	kit.NoneLeft()
}

func killed(cmd string) bool {
	for _, e := range modelrun.Events() {
		if e.Kind == "end" && e.Cmd == cmd {
			return e.Kill
		}
	}
	return true
}

func ended(cmd string) bool {
	for _, e := range modelrun.Events() {
		if e.Kind == "end" && e.Cmd == cmd {
			return true
		}
	}
	return false
}

func file() (spec.File, []string) {
	m := spec.Task{Name: "m", Deps: []string{"d", "d2"}, Run: []spec.Item{
		{Cmd: "c0"}, {Log: "l"}, {Task: "r"}, {Cmd: "c1"}}}
	if sym.Flag("quiet") {
		m.Output = spec.No // no pipe or terminal to hold open
	}
	f := spec.File{Tasks: []spec.Task{m,
		{Name: "d", Run: []spec.Item{{Cmd: "cd"}}},
		{Name: "d2", Deps: []string{"e"}},
		{Name: "e", Run: []spec.Item{{Cmd: "ce"}}},
		{Name: "r", Deps: []string{"e2"}, Run: []spec.Item{{Cmd: "cr"}}},
		{Name: "e2", Run: []spec.Item{{Cmd: "ce2"}}}}}
	kit.Load(f)
	return f, []string{"cd", "ce", "c0", "ce2", "cr", "c1"}
}

// Sequence: the cancellation comes while any command of a sequence runs, which then ends by
// itself or runs until killed, with a child of its own or not.
func Sequence() {
	kit.Setup()
	_, cmds := file()
	s := newStopper()
	at := sym.Choice("at", len(cmds))
	k := modelrun.Cmd{Echo: true, Block: sym.Flag("block"), Exit: sym.Int("exit", 0, 1)}
	k.Late = !k.Block && sym.Flag("late")
	// what a command leaves behind that ends before the cancellation takes effect may stay
	k.Child = (k.Block || k.Late) && sym.Flag("child")
	k.Stubborn = k.Block && sym.Flag("stubborn")
	k.OnRun = s.fire
	modelrun.Command(cmds[at], k)
	err := kit.Run(s.ctx, "m", false)
	complete := at == len(cmds)-1 && !k.Block && !k.Late && k.Exit == 0
	s.check(err, complete)
	for i, c := range cmds {
		if i <= at {
			sym.Assert(ended(c), "command "+c+" was not started or did not end")
		}
	}
	if k.Block {
		sym.Assert(killed(cmds[at]), "the running command was not killed")
	}
}

// Kill: the same with a command that only ends when killed, and a child that does so, too.
func Kill() {
	kit.Setup()
	_, cmds := file()
	s := newStopper()
	at := sym.Choice("at", len(cmds))
	modelrun.Command(cmds[at], modelrun.Cmd{Echo: true, Block: true, Child: sym.Flag("child"), Stubborn: sym.Flag("stubborn"), OnRun: s.fire})
	s.check(kit.Run(s.ctx, "m", false), false)
	sym.Assert(killed(cmds[at]), "the running command was not killed")
}

// Before: a run that is cancelled before it starts.
func Before() {
	kit.Setup()
	s := newStopper()
	var it spec.Item
	switch sym.Choice("kind", 4) {
	case 0:
		it = spec.Item{Cmd: "c0"}
	case 1:
		it = spec.Item{Task: "r"}
	case 2:
		it = spec.Item{Parallel: []spec.Item{{Cmd: "c0"}, {Task: "r"}}}
	case 3:
		it = spec.Item{Parallel: []spec.Item{{Cmd: "c0"}, {Task: "r"}}, Limit: 1}
	}
	m := spec.Task{Name: "m", Run: []spec.Item{it}}
	if sym.Flag("dep") {
		m.Deps = []string{"r"}
	}
	kit.Load(spec.File{Tasks: []spec.Task{m, {Name: "r", Run: []spec.Item{{Cmd: "cr"}}}}})
	s.fire()
	s.check(kit.Run(s.ctx, "m", false), false)
}

// Block: the cancellation comes while any command below a parallel block runs.
func Block() {
	kit.Setup()
	s := newStopper()
	par := spec.Item{Limit: sym.Choice("limit", sym.Param("limits", 2))}
	switch sym.Choice("mode", sym.Param("modes", 3)) {
	case 1:
		par.Mode = "grouped"
	case 2:
		par.Mode = "tabs"
	}
	modelrun.Terminal(false, true, par.Mode != "")
	par.Parallel = []spec.Item{{Cmd: "c0"}, {Task: "r"}}
	r := spec.Task{Name: "r", Deps: []string{"d"}}
	cmds := []string{"cd", "c0"}
	if sym.Flag("nested") {
		r.Run = []spec.Item{{Parallel: []spec.Item{{Cmd: "c1"}, {Cmd: "c2"}}, Mode: par.Mode}, {Cmd: "c3"}}
		cmds = append(cmds, "c1", "c2", "c3")
	} else {
		r.Run = []spec.Item{{Cmd: "c1"}, {Cmd: "c2"}}
		cmds = append(cmds, "c1", "c2")
	}
	kit.Load(spec.File{Tasks: []spec.Task{
		{Name: "m", Run: []spec.Item{par, {Cmd: "after"}}}, r,
		{Name: "d", Run: []spec.Item{{Cmd: "cd"}}}}})
	at := sym.Choice("at", len(cmds))
	late := sym.Flag("late")
	for i, c := range cmds {
		k := modelrun.Cmd{Echo: true, Late: late}
		if i == at {
			k.Block = sym.Flag("block")
			k.Stubborn = k.Block
			k.OnRun = s.fire
		}
		modelrun.Command(c, k)
	}
	err := kit.Run(s.ctx, "m", false)
	sym.Assert(s.fired, "command "+cmds[at]+" was not started")
	s.check(err, false)
}

// Left: a command has ended but left a child that holds its output open, so that bab still waits for
// it, when the cancellation comes.
func Left() {
	kit.Setup()
	s := newStopper()
	m := spec.Task{Name: "m"}
	left := spec.Item{Cmd: "c0"}
	where := sym.Choice("where", 5)
	switch where {
	case 0:
		left.Output = spec.No
		m.Run = []spec.Item{left}
	case 1:
		m.Run = []spec.Item{{Parallel: []spec.Item{left}}}
	case 2:
		m.Run = []spec.Item{{Parallel: []spec.Item{left, {Cmd: "c1"}}, Limit: 1}}
	case 3:
		m.Run = []spec.Item{{Parallel: []spec.Item{left}, Mode: []string{"grouped", "tabs"}[sym.Choice("mode", 2)]}}
	case 4:
		m.Run = []spec.Item{{Task: "r"}}
	}
	modelrun.Terminal(false, true, where == 3)
	if sym.Flag("further") {
		m.Run = append(m.Run, spec.Item{Cmd: "c2"})
	}
	kit.Load(spec.File{Tasks: []spec.Task{m, {Name: "r", Run: []spec.Item{{Parallel: []spec.Item{left}}}}}})
	modelrun.Command("c0", modelrun.Cmd{Echo: true, Child: true, Stubborn: sym.Flag("stubborn"), Exit: sym.Int("exit", 0, 1)})
	go s.fire()
	err := kit.Run(s.ctx, "m", false)
	sym.Assert(s.fired, "the run ends although a process holds the output of its command open")
	s.check(err, false)
}

// Prompt: the cancellation comes at any moment of a task with a prompt.
func Prompt() {
	kit.Setup()
	modelrun.Terminal(true, true, true)
	s := newStopper()
	types := [][]string{{"type: input"}, {"type: confirm"}, {"type: select", "options: [a, b]"},
		{"type: multiselect", "options: [a, b]"}, {"type: password"}, {"type: number", "default: \"1\""}}
	typ := sym.Choice("type", len(types))
	p := spec.Item{Prompt: "v", Raw: append(types[typ], "message: m")}
	kit.Load(spec.File{Tasks: []spec.Task{{Name: "m", Run: []spec.Item{{Cmd: "c0"}, p, {Cmd: "c1"}}}}})
	switch sym.Choice("keys", 2) {
	case 1:
		modeltea.Type("enter")
	}
	go s.fire()
	err := kit.Run(s.ctx, "m", false)
	s.check(err, ended("c1") && !killed("c1"))
}

// Picker: the cancellation comes at any moment while a task is picked.
func Picker() {
	kit.Setup()
	modelrun.Terminal(true, true, true)
	s := newStopper()
	kit.LoadAs(spec.File{Tasks: []spec.Task{{Name: "a", Run: []spec.Item{{Cmd: "ca"}}}, {Name: "b", Run: []spec.Item{{Cmd: "cb"}}}}})
	model.Chdir(model.Root())
	r, err := runner.LoadTasks("")
	if err != nil {
		panic(err)
	}
	enter := false
	for i := sym.Choice("keys", 3); i > 0; i-- {
		k := []string{"down", "b", "enter"}[sym.Choice("key", 3)]
		enter = enter || k == "enter"
		modeltea.Type(k)
	}
	if sym.Flag("before") {
		s.fire()
	} else {
		go s.fire()
	}
	t, err := tui.PickTask(s.ctx, r.Tasks)
	if err != nil {
		sym.Assert(errors.Is(err, context.Canceled), "the error of a cancelled picker is another one: "+kit.Msg(err))
		sym.Assert(t == nil, "a cancelled picker returns a task")
		sym.Assert(s.fired, "the picker is cancelled although nothing was")
		sym.Assert(len(modelrun.Started()) == 0, "the picker starts a command")
		return
	}
	sym.Assert(enter, "the picker ends although nothing was picked or cancelled")
}
