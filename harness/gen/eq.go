package gen

import (
	"sort"
	"strings"

	"github.com/bab-sh/bab/internal/babfile"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

type cmp struct {
	where, prefix string
}

func (c cmp) str(what, got, want string) {
	sym.Assert(got == want, c.where+": "+what+" is "+got+", not "+want)
}

func (c cmp) tri(what string, got, want *bool) {
	show := func(b *bool) string {
		switch {
		case b == nil:
			return "unset"
		case *b:
			return "true"
		}
		return "false"
	}
	c.str(what, show(got), show(want))
}

func (c cmp) num(what string, got, want *int) {
	sym.Assert((got == nil) == (want == nil) && (got == nil || *got == *want), c.where+": "+what+" differs")
}

func (c cmp) list(what string, got, want []string) {
	sym.Assert(len(got) == len(want), c.where+": "+what+" has "+strings.Join(got, ",")+", not "+strings.Join(want, ","))
	for i := range want {
		c.str(what, got[i], want[i])
	}
}

func (c cmp) set(what string, got, want map[string]string) {
	var g, w []string
	for k := range got {
		g = append(g, k)
	}
	for k := range want {
		w = append(w, k)
	}
	sort.Strings(g)
	sort.Strings(w)
	c.list(what, g, w)
	for _, k := range w {
		c.str(what+" "+k, got[k], want[k])
	}
}

func platforms(l []babfile.Platform) string {
	r := ""
	for _, p := range l {
		r += string(p) + " "
	}
	return r
}

// Same asserts that the parser made want of a task, with the names of other tasks prefixed.
func Same(where string, got, want *babfile.Task, prefix string) {
	c := cmp{where, prefix}
	if got == nil {
		sym.Assert(false, where+" is not there")
		return
	}
	c.str("name", got.Name, prefix+want.Name)
	c.str("desc", got.Desc, want.Desc)
	if prefix == "" || want.Dir != "" {
		c.str("dir", got.Dir, want.Dir)
	}
	c.str("when", got.When, want.When)
	names := func(l []string) []string {
		var r []string
		for _, s := range l {
			r = append(r, prefix+s)
		}
		return r
	}
	c.list("deps", got.Deps, names(want.Deps))
	c.list("aliases", got.GetAllAliases(), names(want.GetAllAliases()))
	c.set("vars", got.Vars, want.Vars)
	c.set("env", got.Env, want.Env)
	c.tri("silent", got.Silent, want.Silent)
	c.tri("output", got.Output, want.Output)
	c.items(got.Run, want.Run)
}

func (c cmp) items(got, want []babfile.RunItem) {
	sym.Assert(len(got) == len(want), c.where+": the number of items differs")
	for i := range want {
		c.item(got[i], want[i])
	}
}

func (c cmp) item(got, want babfile.RunItem) {
	switch w := want.(type) {
	case babfile.CommandRun:
		g, ok := got.(babfile.CommandRun)
		sym.Assert(ok, c.where+": a command is something else")
		c.where += " cmd"
		c.str("cmd", g.Cmd, w.Cmd)
		c.str("dir", g.Dir, w.Dir)
		c.str("when", g.When, w.When)
		c.set("env", g.Env, w.Env)
		c.tri("silent", g.Silent, w.Silent)
		c.tri("output", g.Output, w.Output)
		c.str("platforms", platforms(g.Platforms), platforms(w.Platforms))
	case babfile.TaskRun:
		g, ok := got.(babfile.TaskRun)
		sym.Assert(ok, c.where+": a task reference is something else")
		c.where += " task"
		c.str("task", g.Task, c.prefix+w.Task)
		c.str("when", g.When, w.When)
		c.tri("silent", g.Silent, w.Silent)
		c.tri("output", g.Output, w.Output)
		c.str("platforms", platforms(g.Platforms), platforms(w.Platforms))
	case babfile.LogRun:
		g, ok := got.(babfile.LogRun)
		sym.Assert(ok, c.where+": a log is something else")
		c.where += " log"
		c.str("log", g.Log, w.Log)
		c.str("level", string(g.Level), string(w.Level))
		c.str("when", g.When, w.When)
		c.str("platforms", platforms(g.Platforms), platforms(w.Platforms))
	case babfile.PromptRun:
		g, ok := got.(babfile.PromptRun)
		sym.Assert(ok, c.where+": a prompt is something else")
		c.where += " prompt"
		c.str("prompt", g.Prompt, w.Prompt)
		c.str("type", string(g.Type), string(w.Type))
		c.str("message", g.Message, w.Message)
		c.str("when", g.When, w.When)
		c.str("default", g.Default, w.Default)
		c.str("placeholder", g.Placeholder, w.Placeholder)
		c.str("validate", g.Validate, w.Validate)
		c.list("defaults", g.Defaults, w.Defaults)
		c.list("options", g.Options, w.Options)
		c.num("min", g.Min, w.Min)
		c.num("max", g.Max, w.Max)
		c.tri("confirm", g.Confirm, w.Confirm)
		c.str("platforms", platforms(g.Platforms), platforms(w.Platforms))
	case babfile.ParallelRun:
		g, ok := got.(babfile.ParallelRun)
		sym.Assert(ok, c.where+": a parallel block is something else")
		c.where += " parallel"
		c.str("mode", string(g.Mode), string(w.Mode))
		sym.Assert(g.Limit == w.Limit, c.where+": limit differs")
		c.str("when", g.When, w.When)
		c.tri("color", g.Color, w.Color)
		c.tri("silent", g.Silent, w.Silent)
		c.tri("output", g.Output, w.Output)
		c.str("platforms", platforms(g.Platforms), platforms(w.Platforms))
		c.items(g.Items, w.Items)
		for i := range w.Items {
			if w.Labels[i] != "" {
				c.str("label", g.ItemLabel(i), w.Labels[i])
			}
		}
	}
}
