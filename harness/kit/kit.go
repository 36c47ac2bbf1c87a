// Package kit runs a Babfile the way the command line does and compares what happened with
// the reference model.
package kit

import (
	"context"
	"runtime"
	"strings"

	"github.com/bab-sh/bab/internal/runner"
	"github.com/bab-sh/bab/internal/zzverif/model"
	"github.com/bab-sh/bab/internal/zzverif/modelrun"
	"github.com/bab-sh/bab/internal/zzverif/modelui"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

// Path is where the root Babfile of a harness lies.
func Path() string { return model.P("Babfile.yml") }

// Setup prepares the process models.
func Setup() {
	modelrun.Setup()
	modelrun.Others(modelrun.Cmd{Echo: true})
	model.Capture()
}

// Load writes the root Babfile, decorated with settings that change nothing of which
// commands are run if the parameter deco says so (-1: settings of every kind here and there).
func Load(f spec.File) { LoadAs(Deco(f)) }

// LoadAs writes the root Babfile as it is.
func LoadAs(f spec.File) { load(&f, "Babfile.yml") }

// Deco returns the file with the settings Load would add.
func Deco(f spec.File) spec.File {
	switch n := sym.Param("deco", 0); {
	case n < 0:
		return spec.Decorate(f, spec.Decorations-1)
	case n > 0:
		return spec.Decorate(f, sym.Choice("deco", n))
	}
	return f
}

func load(f *spec.File, path string) {
	model.Write(model.P(path), f.YAML())
	for _, i := range f.Includes {
		if i.File == nil {
			continue
		}
		p := i.Path
		if j := strings.LastIndex(path, "/"); j >= 0 {
			p = path[:j+1] + p
		}
		if j := strings.LastIndex(p, "/"); j >= 0 {
			model.Mkdir(model.P(p[:j]))
		}
		load(i.File, p)
	}
}

// extra are the variables bab may add for commands whose output it captures.
var extra = []string{"FORCE_COLOR", "TERM", "NO_COLOR"}

func key(kv string) string {
	if i := strings.Index(kv, "="); i >= 0 {
		return kv[:i]
	}
	return kv
}

func in(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// Env asserts what every command saw in its environment: base overlaid with what the
// reference says. Commands are told apart by their text.
func Env(x *spec.Exec, base []string, piped bool) {
	for _, e := range modelrun.Events() {
		if e.Kind != "start" {
			continue
		}
		var st *spec.Step
		for i := range x.Steps {
			if x.Steps[i].Kind == "start" && x.Steps[i].Text == e.Cmd {
				st = &x.Steps[i]
			}
		}
		if st == nil {
			continue
		}
		for _, b := range base {
			if _, over := spec.Get(st.Env, key(b)); over || key(b) == "PWD" || piped && in(extra, key(b)) {
				continue
			}
			v, ok := e.Getenv(key(b))
			sym.Assert(ok && key(b)+"="+v == b, "command "+e.Cmd+" sees "+key(b)+"="+v+" instead of "+b)
		}
		for _, kv := range st.Env {
			v, ok := e.Getenv(kv.K)
			sym.Log("env "+e.Cmd+" "+kv.K, v)
			sym.Assert(ok && v == kv.V, "command "+e.Cmd+" sees "+kv.K+"="+v+", not "+kv.V)
		}
		for _, kv := range e.Env {
			k := key(kv)
			if _, ok := spec.Get(st.Env, k); ok || k == "PWD" || piped && in(extra, k) {
				continue
			}
			known := false
			for _, b := range base {
				known = known || key(b) == k
			}
			sym.Assert(known, "command "+e.Cmd+" sees "+kv+", which nothing declares for it")
		}
	}
}

// Dirs asserts the directory every command ran in.
func Dirs(x *spec.Exec) {
	for _, e := range modelrun.Events() {
		if e.Kind != "start" {
			continue
		}
		for _, s := range x.Steps {
			if s.Kind == "start" && s.Text == e.Cmd {
				sym.Log("dir "+e.Cmd, model.Rel(e.Dir))
				sym.Assert(e.Dir == s.Dir, "command "+e.Cmd+" runs in "+model.Rel(e.Dir)+", not "+model.Rel(s.Dir))
			}
		}
	}
}

// New is the reference run of the file.
func New(f spec.File) *spec.Exec {
	return &spec.Exec{File: f, Dir: model.Root(), OS: runtime.GOOS}
}

// Run runs a task of the root Babfile.
func Run(ctx context.Context, task string, dry bool) error {
	return runner.New(dry, Path()).Run(ctx, task)
}

// Fails declares commands that may fail and returns the outcome for the reference.
func Fails(cmds ...string) spec.Outcome {
	exits := make([]int, len(cmds))
	for i, c := range cmds {
		exits[i] = sym.Int("exit."+c, 0, 1)
		modelrun.Command(c, modelrun.Cmd{Echo: true, Exit: exits[i]})
	}
	return func(cmd string) bool {
		for i, c := range cmds {
			if c == cmd {
				return exits[i] != 0
			}
		}
		return false
	}
}

func join(l []string) string { return strings.Join(l, ", ") }

// Msg is an error's text without the scratch directory.
func Msg(err error) string {
	if err == nil {
		return ""
	}
	return model.Rel(err.Error())
}

// Order asserts that exactly the reference's commands were started, in its order, and that
// the error says whether something failed.
func Order(x *spec.Exec, err error) {
	got, want := modelrun.Started(), x.Commands()
	sym.Log("started", join(got))
	sym.Log("err", Msg(err))
	sym.Assert(len(got) <= len(want) || !x.Failed, "a command was started after a failure")
	sym.Assert(join(got) == join(want), "the commands started are "+join(got)+", not "+join(want))
	if x.Failed || x.Error {
		sym.Assert(err != nil, "a failed run is reported as success")
	} else {
		sym.Assert(err == nil, "a run in which nothing failed reports an error")
	}
}

// Headers asserts the lines printed for tasks and commands.
func Headers(x *spec.Exec) {
	got := modelui.Plain(model.Stderr())
	sym.Log("stderr", got)
	sym.Assert(got == x.Stderr(), "standard error shows "+quote(got)+", not "+quote(x.Stderr()))
}

// Output asserts that exactly the output that is to be shown is shown.
func Output(x *spec.Exec) {
	want := ""
	for _, s := range x.Steps {
		if s.Kind == "start" && s.Show {
			want += s.Text + "\n"
		}
	}
	got := model.Stdout()
	sym.Log("stdout", got)
	sym.Assert(got == want, "standard output shows "+quote(got)+", not "+quote(want))
}

func quote(s string) string { return "\"" + strings.ReplaceAll(s, "\n", "\\n") + "\"" }

// Logs asserts the log items.
func Logs(x *spec.Exec) {
	got, want := "", ""
	for _, e := range modelrun.Events() {
		if e.Kind == "log" {
			got += e.Level + " " + e.Msg + "; "
		}
	}
	for _, s := range x.Steps {
		if s.Kind == "log" && s.Level != "debug" {
			want += s.Level + " " + s.Text + "; "
		}
	}
	sym.Log("logs", got)
	sym.Assert(got == want, "the log shows "+quote(got)+", not "+quote(want))
}

// Assert is an assertion over what only the engine can see.
func Assert(c bool, msg string) {
	if !c {
		sym.Virtual()
	}
	sym.Assert(c, msg)
}

// NoneLeft asserts that no goroutine but the main one is left over.
func NoneLeft() { Assert(sym.Goroutines() <= 1, "goroutines are left over") }
