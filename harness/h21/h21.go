// Package h21: what a prompt stores.
package h21

import (
	"context"
	"strconv"
	"strings"

	"github.com/bab-sh/bab/internal/zzverif/kit"
	"github.com/bab-sh/bab/internal/zzverif/modelrun"
	"github.com/bab-sh/bab/internal/zzverif/modeltea"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

// prompt is a declaration and what it admits.
type prompt struct {
	typ      string
	dflt     string
	defaults []string
	options  []string
	pattern  string // "" or "^a+b?$"
	min, max *int
	confirm  bool
}

func quoted(l []string) string { return "'" + strings.Join(l, "', '") + "'" }

func (p *prompt) item() spec.Item {
	raw := []string{"type: " + p.typ, "message: m"}
	if p.dflt != "" {
		raw = append(raw, "default: '"+p.dflt+"'")
	}
	if p.defaults != nil {
		raw = append(raw, "defaults: ["+quoted(p.defaults)+"]")
	}
	if p.options != nil {
		raw = append(raw, "options: ["+quoted(p.options)+"]")
	}
	if p.pattern != "" {
		raw = append(raw, "validate: '"+p.pattern+"'")
	}
	if p.min != nil {
		raw = append(raw, "min: "+strconv.Itoa(*p.min))
	}
	if p.max != nil {
		raw = append(raw, "max: "+strconv.Itoa(*p.max))
	}
	if p.confirm {
		raw = append(raw, "confirm: true")
	}
	return spec.Item{Prompt: "v", Raw: raw}
}

// admits decides whether a value satisfies the declaration.
func (p *prompt) admits(v string) bool {
	switch p.typ {
	case "confirm":
		return v == "true" || v == "false"
	case "input":
		if p.pattern == "" {
			return true
		}
		n := strings.TrimSuffix(v, "b")
		for i := 0; i < len(n); i++ {
			if n[i] != 'a' {
				return false
			}
		}
		return len(n) > 0
	case "select":
		for _, o := range p.options {
			if o == v {
				return true
			}
		}
		return false
	case "multiselect":
		var l []string
		if v != "" {
			l = strings.Split(v, ",")
		}
		at := 0
		for _, s := range l {
			for at < len(p.options) && p.options[at] != s {
				at++
			}
			if at == len(p.options) && !p.anyOrder(l) {
				return false
			}
			at++
		}
		return (p.min == nil || len(l) >= *p.min) && (p.max == nil || len(l) <= *p.max)
	case "number":
		d := strings.TrimLeft(v, "+-")
		if len(v)-len(d) > 1 || d == "" {
			return false
		}
		n := 0
		for i := 0; i < len(d); i++ {
			if d[i] < '0' || d[i] > '9' {
				return false
			}
			n = n*10 + int(d[i]-'0')
		}
		if v[0] == '-' {
			n = -n
		}
		return (p.min == nil || n >= *p.min) && (p.max == nil || n <= *p.max)
	}
	return true
}

// anyOrder decides whether the values are different options.
func (p *prompt) anyOrder(l []string) bool {
	seen := map[string]bool{}
	for _, s := range l {
		ok := false
		for _, o := range p.options {
			ok = ok || o == s
		}
		if !ok || seen[s] {
			return false
		}
		seen[s] = true
	}
	return true
}

func bound(name string, values ...int) *int {
	c := sym.Choice(name, len(values)+1)
	if c == 0 {
		return nil
	}
	return &values[c-1]
}

// declare chooses a declaration.
func declare() *prompt {
	p := &prompt{typ: []string{"confirm", "input", "select", "multiselect", "password", "number"}[sym.Choice("type", 6)]}
	pick := func(values ...string) string { return values[sym.Choice("default", len(values))] }
	switch p.typ {
	case "confirm":
		p.dflt = pick("", "true", "false", "yes", "no")
	case "input":
		p.dflt = pick("", "aa", "x", "${{ g }}")
		if sym.Flag("validate") {
			p.pattern = "^a+b?$"
		}
	case "select":
		if sym.Flag("single") {
			p.options = []string{"o${{ g }}"}
			p.dflt = pick("", "o${{ g }}")
			break
		}
		p.options = []string{"oa", "oab", "${{ g }}"}
		p.dflt = pick("", "oab", "${{ g }}")
	case "multiselect":
		p.options = []string{"oa", "oab", "o", "${{ g }}x"}[:3+sym.Choice("more", 2)]
		if len(p.options) == 3 {
			p.defaults = [][]string{nil, {"oab"}, {"o", "oa"}, {"oa", "oab", "o"}}[sym.Choice("defaults", 4)]
		} else if sym.Flag("variable") {
			p.defaults = []string{"${{ g }}x"}
		}
		p.min, p.max = bound("min", 1, 2), bound("max", 2)
	case "password":
		p.confirm = sym.Flag("confirm")
	case "number":
		p.dflt = pick("", "2", "15", "-3")
		p.min, p.max = bound("min", 0, 2), bound("max", 12)
	}
	return p
}

// run runs the prompt and a command that shows its value.
func (p *prompt) run(g string) (string, bool, error) {
	kit.Load(spec.File{Vars: []spec.KV{{K: "g", V: g}}, Tasks: []spec.Task{{Name: "m", Run: []spec.Item{p.item(), {Cmd: "got", Env: []spec.KV{{K: "V", V: "${{ v }}"}}}}}}})
	err := kit.Run(context.Background(), "m", false)
	for _, e := range modelrun.Events() {
		if e.Kind == "start" && e.Cmd == "got" {
			v, _ := e.Getenv("V")
			sym.Log("value", v)
			return v, true, err
		}
	}
	sym.Log("value", "none")
	return "", false, err
}

// expand fills the variable into what was declared.
func (p *prompt) expand(g string) {
	f := func(s string) string { return strings.ReplaceAll(s, "${{ g }}", g) }
	p.dflt = f(p.dflt)
	for i := range p.options {
		p.options[i] = f(p.options[i])
	}
	for i := range p.defaults {
		p.defaults[i] = f(p.defaults[i])
	}
}

// Batch: a prompt without a terminal.
func Batch() {
	kit.Setup()
	modelrun.Terminal(false, sym.Flag("out"), false)
	p := declare()
	g := sym.Str("g", 2, "abx0")
	v, stored, err := p.run(g)
	p.expand(g)
	sym.Assert(modeltea.Runs == 0, "a prompt is shown without a terminal")
	sym.Assert(stored == (err == nil), "the run ends in "+kit.Msg(err))
	want, ok := p.dflt, p.dflt != ""
	switch p.typ {
	case "confirm":
		switch p.dflt {
		case "yes":
			want = "true"
		case "no":
			want = "false"
		}
	case "multiselect":
		want, ok = strings.Join(p.defaults, ","), p.defaults != nil
	}
	if ok && p.typ != "password" && p.admits(want) {
		sym.Assert(err == nil, "the default is not used: "+kit.Msg(err))
		sym.Assert(v == want, "the default is "+want+", but "+v+" is stored")
	} else {
		sym.Assert(err != nil, "without a usable default "+v+" is stored")
	}
}

// expect is the answer a user gives by the keys, and whether he gives one: he sees the prompt
// of the declaration, and it stays until its answer is admitted.
func (p *prompt) expect(keys []string) (string, bool) {
	text, yes, at := p.dflt, p.dflt == "true" || p.dflt == "yes", 0
	on := make([]bool, len(p.options))
	for i, o := range p.options {
		if o == p.dflt {
			at = i
		}
		for _, d := range p.defaults {
			on[i] = on[i] || d == o
		}
	}
	for i := len(on) - 1; i >= 0; i-- {
		if on[i] {
			at = i
		}
	}
	first, again := "", false
	for _, k := range keys {
		if k == "ctrl+c" {
			return "", false
		}
		submit := k == "enter"
		if k == "tab" {
			continue // there is no next field
		}
		switch p.typ {
		case "confirm":
			switch k {
			case "left":
				yes = !yes
			case "y":
				yes, submit = true, true
			case "n":
				yes, submit = false, true
			}
			if submit {
				return strconv.FormatBool(yes), true
			}
		case "select":
			switch k {
			case "up":
				at = (at + len(p.options) - 1) % len(p.options)
			case "down":
				at = (at + 1) % len(p.options)
			}
			if submit {
				return p.options[at], true
			}
		case "multiselect":
			switch k {
			case "up":
				at = max(at-1, 0)
			case "down":
				at = min(at+1, len(p.options)-1)
			case "space":
				on[at] = !on[at]
			}
			if submit {
				var l []string
				for i, o := range p.options {
					if on[i] {
						l = append(l, o)
					}
				}
				if v := strings.Join(l, ","); p.admits(v) {
					return v, true
				}
			}
		default:
			switch {
			case k == "backspace":
				if text != "" {
					text = text[:len(text)-1]
				}
			case k == "space":
				text += " "
			case !submit:
				text += k
			case p.typ == "password" && p.confirm && !again:
				first, text, again = text, "", true
			case p.typ == "password" && p.confirm:
				if text == first {
					return text, true
				}
			case p.typ == "number" && text == "" && p.dflt != "":
				if p.admits(p.dflt) {
					return p.dflt, true
				}
			case p.admits(text):
				return text, true
			}
		}
	}
	return "", false
}

// Typed: a prompt answered by keys.
func Typed() {
	kit.Setup()
	modelrun.Terminal(true, true, true)
	p := declare()
	g := "gg"
	if p.typ == "input" {
		g = "ab"
	}
	set := map[string][]string{"confirm": {"left", "y", "n"}, "input": {"a", "b", "space", "backspace"}, "select": {"up", "down"}, "multiselect": {"up", "down", "space"},
		"password": {"a", "space", "backspace"}, "number": {"1", "-", "a", "backspace"}}[p.typ]
	set = append(set, "enter", "tab", "ctrl+c")
	var keys []string
	for i := 0; i < sym.Param("keys", 3); i++ {
		keys = append(keys, set[sym.Choice("key", len(set))])
	}
	keys = append(keys, "enter")
	if p.confirm {
		keys = append(keys, []string{"a", "space"}[sym.Choice("again", 2)], "enter")
	}
	keys = append(keys, "ctrl+c") // whoever is still asked gives up
	modeltea.Type(keys...)
	v, stored, err := p.run(g)
	p.expand(g)
	sym.Assert(stored == (err == nil), "the run ends in "+kit.Msg(err))
	want, ok := p.expect(keys)
	if stored {
		sym.Assert(p.admits(v), "the prompt stores "+v+", which its declaration excludes")
		sym.Assert(ok, "nothing was answered, but "+v+" is stored")
		sym.Assert(v == want, "the answer was "+want+", but "+v+" is stored")
	} else {
		sym.Assert(!ok, "the answer was "+want+", but the prompt is cancelled")
	}
}
