// Package h02: variables resolve independently of order; cycles and gaps are errors.
package h02

import (
	"errors"

	"github.com/bab-sh/bab/internal/errs"
	"github.com/bab-sh/bab/internal/interpolate"
	"github.com/bab-sh/bab/internal/zzverif/model"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

type ref struct {
	text, name string // name "" = no reference
	lit        string // what it becomes when it is no reference
}

func pick(tag string, vals []ref, n int) ref { return vals[sym.Choice(tag, n)] }

type piece struct {
	pre string
	r   []ref
}

func (p piece) text() string {
	s := p.pre
	for _, r := range p.r {
		s += r.text
	}
	return s
}

type world struct {
	defs   map[string]piece
	parent map[string]string
}

const (
	okR = iota
	cycR
	missR
)

// eval is the reference semantics: substitute recursively.
func (w *world) eval(name string, stack []string, bad map[string]int) (string, int) {
	for _, s := range stack {
		if s == name {
			bad[name] |= cycR
			return "", cycR
		}
	}
	p, ok := w.defs[name]
	if !ok {
		if v, ok := w.parent[name]; ok {
			return v, okR
		}
		bad[name] |= missR
		return "", missR
	}
	out := p.pre
	worst := okR
	for _, r := range p.r {
		if r.name == "" {
			out += r.lit
			continue
		}
		v, st := w.eval(r.name, append(append([]string{}, stack...), name), bad)
		if st != okR && worst == okR {
			worst = st
		}
		out += v
	}
	return out, worst
}

func check(w *world) {
	vars := map[string]string{}
	keep := map[string]string{}
	for k, p := range w.defs {
		vars[k] = p.text()
		keep[k] = p.text()
	}
	var parent, pkeep map[string]string
	if w.parent != nil {
		parent, pkeep = map[string]string{}, map[string]string{}
		for k, v := range w.parent {
			parent[k], pkeep[k] = v, v
		}
	}
	sym.MapOrder(true)
	got, err := interpolate.ResolveVars(vars, parent)
	sym.MapOrder(false)
	bad := map[string]int{}
	want := map[string]string{}
	fail := false
	for k, v := range w.parent {
		want[k] = v
	}
	for _, k := range []string{"a", "b", "c", "d"} {
		if _, ok := w.defs[k]; !ok {
			continue
		}
		v, st := w.eval(k, nil, bad)
		if st != okR {
			fail = true
		}
		want[k] = v
	}
	if fail {
		sym.Assert(err != nil, "a cyclic or undefined reference was resolved without an error")
		var ce *errs.VarCycleError
		var ne *errs.VarNotFoundError
		switch {
		case errors.As(err, &ce):
			sym.Cover("cycle")
			sym.Assert(bad[ce.Name]&cycR != 0, "the reported cycle does not go through the named variable")
			n := len(ce.Chain)
			sym.Assert(n >= 2 && ce.Chain[n-1] == ce.Name, "the reported chain does not end in the cyclic variable")
			for i := 0; i+1 < n; i++ {
				sym.Assert(w.refers(ce.Chain[i], ce.Chain[i+1]), "the reported chain is not a chain of references")
			}
		case errors.As(err, &ne):
			sym.Cover("undefined")
			sym.Assert(bad[ne.Name]&missR != 0, "the variable reported as undefined is not an undefined reference")
		default:
			sym.Assert(false, "neither a cycle nor an undefined variable is reported")
		}
	} else {
		sym.Assert(err == nil, "an acyclic, completely defined set of variables was refused")
		sym.Cover("ok")
		sym.Assert(len(got) == len(want), "resolution added or lost variables")
		for k, v := range want {
			g, ok := got[k]
			sym.Assert(ok && g == v, "a variable resolved to a wrong value")
		}
		if err == nil {
			sym.Log("a", got["a"])
		}
	}
	sym.Assert(len(vars) == len(keep) && len(parent) == len(pkeep), "the caller's variables were modified")
	for k, v := range keep {
		sym.Assert(vars[k] == v, "the caller's variables were modified")
	}
	for k, v := range pkeep {
		sym.Assert(parent[k] == v, "the outer variables were modified")
	}
}

func (w *world) refers(a, b string) bool {
	for _, r := range w.defs[a].r {
		if r.name == b {
			return true
		}
	}
	return false
}

var refs = []ref{
	{"", "", ""}, {"${{a}}", "a", ""}, {"${{ b }}", "b", ""}, {"${{c}}", "c", ""}, {"$${{a}}", "", "${{a}}"},
	{"${{ p }}", "p", ""}, {"${{zz}}", "zz", ""}, {"${{ env.X }}", "", "E"}, {"$${{ b }}", "", "${{ b }}"}, {"${{$${{a}}", "", "${{${{a}}"},
}

// Graph: three variables, any reference graph among them, the outer scope and the environment.
func Graph() {
	model.SetEnv("X", "E")
	n := sym.Param("refs", 7)
	w := &world{defs: map[string]piece{}, parent: map[string]string{"p": sym.Str("pv", 1, ""), "a": "outer"}}
	w.defs["a"] = piece{sym.Str("av", 1, "{xy"), []ref{pick("a.r", refs, n)}}
	w.defs["b"] = piece{sym.StrN("bv", 1, "{xy"), []ref{pick("b.r", refs, n)}}
	w.defs["c"] = piece{"", []ref{pick("c.r", refs, n), pick("c.s", refs, sym.Param("second", 4))}}
	check(w)
}

// Chain: longer chains in every visiting order, with values that look like references.
func Chain() {
	model.SetEnv("X", "E")
	w := &world{defs: map[string]piece{}, parent: map[string]string{"p": "${{a}}"}}
	w.defs["a"] = piece{sym.Str("av", 2, "xy{"), []ref{refs[2]}}
	w.defs["b"] = piece{notDollar(sym.StrN("bv", 1, "")), []ref{refs[3], refs[7]}}
	w.defs["c"] = piece{"", []ref{pick("c.r", refs, len(refs)), {"${{d}}", "d", ""}}}
	w.defs["d"] = piece{"", []ref{pick("d.r", refs, len(refs))}}
	check(w)
}

// Nil: no variables of its own: the outer ones, unchanged and not shared.
func Nil() {
	p := map[string]string{"p": sym.Str("pv", 2, "")}
	v := p["p"]
	got, err := interpolate.ResolveVars(nil, p)
	sym.Assert(err == nil && len(got) == 1 && got["p"] == v, "without own variables the outer ones apply")
	got2, err := interpolate.ResolveVars(nil, nil)
	sym.Assert(err == nil && len(got2) == 0, "no variables at all")
}

// notDollar keeps a literal from escaping the reference that follows it.
func notDollar(s string) string {
	sym.Assume(s[len(s)-1] != '$')
	return s
}
