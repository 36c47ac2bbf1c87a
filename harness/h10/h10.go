// Package h10: what executes nothing.
package h10

import (
	"context"
	"strings"

	"github.com/bab-sh/bab/internal/zzverif/kit"
	"github.com/bab-sh/bab/internal/zzverif/model"
	"github.com/bab-sh/bab/internal/zzverif/modelrun"
	"github.com/bab-sh/bab/internal/zzverif/modeltea"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

func nothing(picker int) {
	sym.Assert(len(modelrun.Started()) == 0, "commands are started: "+strings.Join(modelrun.Started(), ", "))
	sym.Assert(modeltea.Runs == picker, "a prompt is shown")
	for _, e := range modelrun.Events() {
		sym.Assert(e.Kind != "log" || e.Msg != "hello", "a log item is executed")
	}
	for _, n := range model.Names(model.Root()) {
		sym.Assert(n == "Babfile.yml" || n == "lib", "the file "+n+" appears")
	}
}

// item is any kind of item; one of it may use a variable that is nowhere defined.
func item(name string, bad bool) spec.Item {
	v := "${{ v }}"
	if bad {
		v = "${{ undefined }}"
	}
	switch sym.Choice(name, 15) {
	case 1:
		return spec.Item{Cmd: "c " + v}
	case 2:
		return spec.Item{Cmd: "c", Env: []spec.KV{{K: "E", V: v}}}
	case 3:
		return spec.Item{Cmd: "c", Dir: "lib"}
	case 4:
		return spec.Item{Cmd: "c", When: v + " == 'x'"}
	case 5:
		return spec.Item{Log: "hello"}
	case 6:
		return spec.Item{Log: "a " + v, Level: "warn"}
	case 7:
		return spec.Item{Prompt: "p", Raw: []string{"type: input", "message: 'm " + v + "'", "default: x"}}
	case 8:
		return spec.Item{Task: "r"}
	case 9:
		return spec.Item{Parallel: []spec.Item{{Cmd: "c1"}, {Task: "r"}}, Mode: []string{"", "grouped", "tabs"}[sym.Choice(name+".mode", 3)]}
	case 11:
		return spec.Item{Prompt: "p", Raw: []string{"type: select", "message: m", "options: [a, b]", "default: b"}}
	case 12:
		return spec.Item{Prompt: "p", Raw: []string{"type: multiselect", "message: m", "options: [a, b]", "defaults: [b]"}}
	case 13:
		k := sym.Choice(name+".type", 2)
		return spec.Item{Prompt: "p", Raw: []string{"type: " + []string{"number", "confirm"}[k], "message: m", "default: " + []string{"1", "true"}[k]}}
	case 14:
		return spec.Item{Prompt: "p", Raw: []string{"type: password", "message: m"}, When: "${{ v }} == 'x'"}
	case 10:
		return spec.Item{Cmd: "c", Platforms: []string{"windows"}}
	}
	return spec.Item{Prompt: "p", Raw: []string{"type: confirm", "message: m"}}
}

// uses says whether an item of item does something the fault shows in.
func uses(it spec.Item) bool {
	t := it.Cmd + it.When + it.Log + strings.Join(it.Raw, " ")
	for _, e := range it.Env {
		t += e.V
	}
	return strings.Contains(t, "undefined")
}

// DryRun: a task with three items of any kind, dependencies and faults, run in the engine's
// terminal or without one.
func DryRun() {
	kit.Setup()
	term := sym.Flag("term")
	modelrun.Terminal(term, term, term)
	bad := sym.Choice("bad", 4)
	m := spec.Task{Name: "m", Deps: []string{"d"}}
	for i := 0; i < sym.Param("items", 2); i++ {
		m.Run = append(m.Run, item("item"+string(rune('0'+i)), bad == i+1))
	}
	d := spec.Task{Name: "d", Run: []spec.Item{{Cmd: "cd"}}}
	if bad == 3 {
		d.Run[0].Cmd = "cd ${{ undefined }}"
	}
	f := spec.File{Vars: []spec.KV{{K: "v", V: "x"}}, Tasks: []spec.Task{m, d,
		{Name: "r", Deps: []string{"d"}, Run: []spec.Item{{Cmd: "cr"}}}}}
	kit.Load(f)
	model.Mkdir(model.P("lib"))
	model.Chdir(model.Root())
	code := kit.Bab([]string{"-n", "--dry-run"}[sym.Choice("option", 2)], "m")
	nothing(0)
	fault := bad == 3
	ran := false
	for _, it := range m.Run {
		fault = fault || uses(it)
		ran = ran || len(it.Platforms) == 0
	}
	if fault || !ran {
		sym.Assert(code == 1 && len(kit.Reported("error")) >= 1, "a fault is not reported by a dry run")
	} else {
		sym.Assert(code == 0, "a dry run of a task without fault fails: "+strings.Join(kit.Reported("error"), "; "))
	}
}

// Answer: what a prompt would set is used by what follows.
func Answer() {
	kit.Setup()
	modelrun.Terminal(true, true, true)
	p := spec.Item{Prompt: "p", Raw: []string{"type: input", "message: m"}}
	use := spec.Item{Cmd: "c ${{ p }}"}
	switch sym.Choice("use", 7) {
	case 1:
		use = spec.Item{Cmd: "c", Env: []spec.KV{{K: "E", V: "${{ p }}"}}}
	case 2:
		use = spec.Item{Log: "a ${{ p }}"}
	case 3:
		use = spec.Item{Cmd: "c", When: "${{ p }}"}
	case 4:
		use = spec.Item{Cmd: "c", When: "${{ p }} == 'yes'"}
	case 5:
		use = spec.Item{Parallel: []spec.Item{{Cmd: "c ${{ p }}"}, {Cmd: "c", When: "${{ p }} == 'a'"}}}
	case 6:
		use = spec.Item{Prompt: "p2", Raw: []string{"type: input", "message: 'm ${{ p }}'", "default: '${{ p }}'"}}
	}
	m := spec.Task{Name: "m", Run: []spec.Item{p, use}}
	if sym.Flag("other") {
		m.Run[0].Prompt = "q"
	}
	kit.Load(spec.File{Tasks: []spec.Task{m}})
	err := kit.Run(context.Background(), "m", true)
	nothing(0)
	if m.Run[0].Prompt == "q" && len(use.Parallel) == 0 {
		sym.Assert(err != nil, "an undefined variable is not reported by a dry run")
	} else if m.Run[0].Prompt == "p" {
		sym.Assert(err == nil, "a dry run does not know the variable its prompt sets: "+kit.Msg(err))
	}
}

// Options: every combination of what does not execute with a task and each other.
func Options() {
	kit.Setup()
	modelrun.Terminal(true, true, true)
	f := spec.File{
		Includes: []spec.Include{{NS: "n", Path: "lib/lib.yml", File: &spec.File{Tasks: []spec.Task{{Name: "x", Run: []spec.Item{{Cmd: "cx"}}}}}}},
		Tasks: []spec.Task{{Name: "t", Alias: "list", Deps: []string{"n:x"}, Run: []spec.Item{{Cmd: "c"},
			{Prompt: "p", Raw: []string{"type: input", "message: m"}}, {Parallel: []spec.Item{{Cmd: "c1"}, {Task: "n:x"}}}, {Log: "hello"}}}}}
	kit.Load(f)
	model.Chdir(model.Root())
	var args []string
	if sym.Flag("verbose") {
		args = append(args, "-v")
	}
	task := sym.Choice("task", 4)
	last := sym.Flag("last")
	name := []string{"", "t", "list", "n:x"}[task]
	if task > 0 && !last {
		args = append(args, name)
	}
	safe, picker := 0, 0
	for _, o := range []string{"-n", "-l", "--validate"} {
		if sym.Flag(o) {
			args = append(args, o)
			safe++
			if o != "-n" {
				picker--
			}
		}
	}
	if sym.Flag("-c") {
		args = append(args, "-c", "bash")
		safe++
		picker--
	}
	sym.Assume(safe > 0)
	if task > 0 && last {
		args = append(args, name)
	}
	runs := 0
	if picker == 0 && task == 0 {
		// the picker is shown, and what is picked is run dry
		runs = 1
		modeltea.Type("enter")
	}
	code := kit.Bab(args...)
	nothing(runs)
	sym.Assert(code == 0, "it fails: "+strings.Join(kit.Reported("error"), "; "))
}

// Faulty: the same with a Babfile that is faulty or missing.
func Faulty() {
	kit.Setup()
	if sym.Flag("there") {
		kit.Load(spec.File{Tasks: []spec.Task{{Name: "t", Deps: []string{"gone"}, Run: []spec.Item{{Cmd: "c"}}}}})
	}
	model.Chdir(model.Root())
	code := kit.Bab([][]string{{"-n", "t"}, {"-l"}, {"--validate"}, {"-l", "t"}, {"-n", "gone"}, {"--validate", "t"}}[sym.Choice("args", 6)]...)
	nothing(0)
	sym.Assert(code == 1 && len(kit.Reported("error")) == 1, "a faulty or missing Babfile is not reported")
}
