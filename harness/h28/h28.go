// Package h28: the exit status.
package h28

import (
	"errors"
	"strings"

	"github.com/bab-sh/bab/internal/zzverif/kit"
	"github.com/bab-sh/bab/internal/zzverif/model"
	"github.com/bab-sh/bab/internal/zzverif/modelrun"
	"github.com/bab-sh/bab/internal/zzverif/modeltea"
	"github.com/bab-sh/bab/internal/zzverif/modelui"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

// success asserts the exit status of a run and that a failure is reported.
func success(code int, ok bool) {
	if ok {
		sym.Assert(code == 0, "a run in which nothing failed does not exit with 0")
		sym.Assert(len(kit.Reported("error")) == 0, "a run in which nothing failed reports an error")
		return
	}
	sym.Assert(code != 0, "a failure exits with 0")
	sym.Assert(code == 1, "a failure exits with another status than 1")
	sym.Assert(len(kit.Reported("error")) > 0, "a failure is not reported")
}

var exits = []int{1, 2, 126, 127, 128, 130, 137, 143, 255, -1}

func tree(block spec.Item) (spec.File, []string) {
	f := spec.File{Tasks: []spec.Task{
		{Name: "t", Alias: "al", Deps: []string{"d", "d2"}, Run: []spec.Item{
			{Cmd: "c0"}, {Log: "l"}, {Task: "r"}, block, {Cmd: "c1"}}},
		{Name: "d", Run: []spec.Item{{Cmd: "cd"}}},
		{Name: "d2", Deps: []string{"e"}},
		{Name: "e", Run: []spec.Item{{Cmd: "ce"}}},
		{Name: "r", Deps: []string{"e2"}, Run: []spec.Item{{Cmd: "cr"}}},
		{Name: "e2", Run: []spec.Item{{Cmd: "ce2"}}},
		{Name: "p", Deps: []string{"e3"}, Run: []spec.Item{{Cmd: "cp"}}},
		{Name: "e3", Run: []spec.Item{{Cmd: "ce3"}}}}}
	return f, []string{"cd", "ce", "c0", "ce2", "cr", "ce3", "cp", "cq", "c1"}
}

// Commands: any one command of a run fails, in any way, or none does.
func Commands() {
	kit.Setup()
	block := spec.Item{Parallel: []spec.Item{{Task: "p"}, {Cmd: "cq"}}, Limit: sym.Choice("limit", 2)}
	if sym.Flag("reverse") {
		block.Parallel[0], block.Parallel[1] = block.Parallel[1], block.Parallel[0]
	}
	f, cmds := tree(block)
	if sym.Flag("output") {
		f.Tasks[0].Output = spec.No
		f.Tasks[6].Output = spec.No
	}
	kit.Load(f)
	at := sym.Choice("at", len(cmds)+1)
	if at < len(cmds) {
		modelrun.Command(cmds[at], modelrun.Cmd{Echo: true, Exit: exits[sym.Choice("exit", len(exits))]})
	}
	name := []string{"t", "al"}[sym.Choice("name", 2)]
	success(kit.Bab(name), at == len(cmds))
	for _, c := range modelrun.Started() {
		sym.Assert(c != "c1" || at >= len(cmds)-1, "the run goes on after a failure")
	}
}

// Several: any commands fail.
func Several() {
	kit.Setup()
	f, cmds := tree(spec.Item{Parallel: []spec.Item{{Task: "p"}, {Cmd: "cq"}}})
	kit.Load(f)
	fails := kit.Fails(cmds...)
	x := kit.New(f)
	x.Fails = fails
	x.Main("t")
	success(kit.Bab("t"), !x.Failed && !x.Error)
}

// Options: what else the program can be asked for, on a Babfile that is fine, faulty or missing.
func Options() {
	kit.Setup()
	file := sym.Choice("file", 5)
	text := "tasks:\n  t:\n    run:\n      - cmd: c\n      - when: 'true'\n        log: x\n"
	switch file {
	case 0:
	case 1:
		text = strings.Replace(text, "t:\n    run", "t:\n    deps: [gone]\n    run", 1)
	case 2:
		text = "tasks: [t\n"
	case 3:
		text += "      - nothing: 1\n"
	case 4:
		text = ""
	}
	path := "Babfile"
	var args []string
	if sym.Flag("b") {
		path = "other.yml"
		args = []string{[]string{"-b", "--babfile"}[sym.Choice("long", 2)], path}
	}
	if file != 4 {
		model.Write(model.P(path), text)
	}
	model.Chdir(model.Root())
	ok := file == 0
	switch sym.Choice("what", 10) {
	case 0:
		args = append(args, "t")
	case 1:
		args = append(args, "gone")
		ok = false
	case 2:
		args = append(args, "-n", "t")
	case 3:
		args = append(args, "--list")
	case 4:
		args = append(args, "--validate")
	case 5:
		args = append(args, "t", "--nonsense")
		ok = false
	case 6:
		args = append(args, "t", "x")
	case 7:
		args = append(args, "--dry-run=maybe", "t")
		ok = false
	case 8:
		args = append(args, "-n", "gone")
		ok = false
	case 9:
		args = append(args, "-c", sym.Str1("shell", 2, ""))
		ok = false
	}
	success(kit.Bab(args...), ok)
}

// Picker: bab without arguments, where the picker cannot be shown, is left, or runs a task.
func Picker() {
	kit.Setup()
	f := spec.File{Tasks: []spec.Task{{Name: "t", Run: []spec.Item{{Cmd: "c"}}}}}
	kit.LoadAs(f)
	model.Chdir(model.Root())
	exit := sym.Int("exit", 0, 255)
	modelrun.Command("c", modelrun.Cmd{Exit: exit})
	ok := true
	switch sym.Choice("picker", 5) {
	case 0:
		modeltea.Fault = errors.New("could not open a new TTY")
		ok = false
	case 1:
		modeltea.Type("enter")
		ok = exit == 0
	case 2:
		modeltea.Type("esc")
	case 3:
		modeltea.Type("ctrl+c")
	case 4:
		model.Write(kit.Path(), "tasks: {t: {run: [{cmd: c, nope}]}")
		ok = false
	}
	success(kit.Bab(), ok)
}

// Completion: the script of a known shell.
func Completion() {
	kit.Setup()
	shell := []string{"bash", "zsh", "fish", "powershell", "sh", "Bash", "fishy", ""}[sym.Choice("shell", 8)]
	if shell == "" {
		return // no shell named, like no option
	}
	success(kit.Bab("--completion", shell), shell == "bash" || shell == "zsh" || shell == "fish" || shell == "powershell")
}

// Interrupted: the user interrupts while any of the commands runs.
func Interrupted() {
	kit.Setup()
	f, cmds := tree(spec.Item{Parallel: []spec.Item{{Task: "p"}, {Cmd: "cq"}}})
	kit.Load(f)
	at := sym.Choice("at", len(cmds))
	fired := false
	modelrun.Command(cmds[at], modelrun.Cmd{Echo: true, Block: true, OnRun: func() { modelrun.Interrupt(); fired = true }})
	code := kit.Bab("t")
	sym.Assert(fired, "the command was not started")
	sym.Assert(code == 0, "a run cancelled by the user does not exit with 0")
	sym.Assert(len(kit.Reported("error")) == 0, "a run cancelled by the user reports an error")
	for _, c := range modelrun.Started() {
		sym.Assert(c != "c1" || at >= len(cmds)-1, "the run goes on after the interruption")
	}
	sym.Assert(modelrun.Alive() == 0, "processes are left over")
}

// end says how a command ended: started or not, exit code, killed.
func end(cmd string) (started, ended bool, exit int, killed bool) {
	for _, e := range modelrun.Events() {
		if e.Cmd != cmd {
			continue
		}
		if e.Kind == "start" {
			started = true
		}
		if e.Kind == "end" {
			ended, exit, killed = true, e.Exit, e.Kill
		}
	}
	return
}

// Summary: the line after a parallel block in the interface.
func Summary() {
	kit.Setup()
	modelrun.Terminal(true, true, true)
	cmds := []string{"ca", "cb", "ct"}
	labels := []string{"la", "cb", "t"}
	items := []spec.Item{{Cmd: "ca", Label: "la"}, {Cmd: "cb"}, {Task: "t"}}
	order := sym.Choice("order", 3)
	mode, limit := "grouped", 0
	if n := sym.Param("limits", 3); n > 0 {
		mode, limit = []string{"grouped", "tabs"}[sym.Choice("mode", 2)], sym.Choice("limit", n)
	} else if order == 1 {
		mode = "tabs"
	} else if order == 2 {
		limit = 1
	}
	for i := order; i > 0; i-- {
		items = append(items[1:], items[0])
		labels = append(labels[1:], labels[0])
		cmds = append(cmds[1:], cmds[0])
	}
	if n := sym.Param("free", 3); n < 3 {
		items, labels, cmds = items[:n], labels[:n], cmds[:n]
	}
	kit.Load(spec.File{Tasks: []spec.Task{
		{Name: "m", Run: []spec.Item{{Parallel: items, Mode: mode, Limit: limit}}},
		{Name: "t", Run: []spec.Item{{Cmd: "ct"}}}}})
	stop := sym.Choice("stop", len(cmds)+1)
	over := false
	var before []string // ended before the user quit
	for i, c := range cmds {
		k := modelrun.Cmd{Echo: true, Exit: sym.Int("exit."+c, 0, 1)}
		if stop == i {
			k.Block = sym.Flag("block")
			k.OnRun = func() {
				for _, d := range cmds {
					if _, e, _, _ := end(d); e {
						before = append(before, d)
					}
				}
				over = true
				modeltea.Press("ctrl+c")
			}
		}
		modelrun.Command(c, k)
	}
	code := kit.Bab("m")
	shown := modelui.Plain(model.Stderr())
	i := strings.Index(shown, "Parallel [")
	sym.Assert(i >= 0, "there is no summary: "+shown)
	line := shown[i+len("Parallel ["):]
	line = line[:strings.Index(line, "]")]
	sym.Log("summary", line)
	got := strings.Split(line, "  ")
	sym.Assert(len(got) == len(labels), "the summary does not list the items: "+line)
	failed := false
	for i, l := range labels {
		m, has := strings.CutPrefix(got[i], l+" ")
		sym.Assert(has, "the summary does not list item "+l+": "+line)
		st, en, ex, killed := end(cmds[i])
		early := false
		for _, b := range before {
			early = early || b == cmds[i]
		}
		switch {
		case !st || killed || !en:
			sym.Assert(m == "⊘", "an item that was cancelled is marked "+m)
			sym.Assert(over, "an item was not run")
		case ex == 0:
			sym.Assert(m == "✓" || over && !early && m == "⊘", "an item that succeeded is marked "+m)
		default:
			failed = failed || !over || early
			sym.Assert(m == "✗" || over && !early && m == "⊘", "an item that failed is marked "+m)
		}
	}
	if !over {
		success(code, !failed)
	}
}
