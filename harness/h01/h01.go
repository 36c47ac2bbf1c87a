// Package h01: interpolation replaces exactly the variable references.
package h01

import (
	"github.com/bab-sh/bab/internal/interpolate"
	"github.com/bab-sh/bab/internal/zzverif/model"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

func isWS(c byte) bool    { return c == ' ' || c == '\t' || c == '\n' || c == '\f' || c == '\r' }
func isStart(c byte) bool { return c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') }
func isCont(c byte) bool  { return isStart(c) || c == '.' || (c >= '0' && c <= '9') }

// Spec is the reference: one left-to-right scan.
func Spec(in string, lookup func(string) (string, bool)) (out string, bad string, ok bool) {
	ok = true
	var b []byte
	i := 0
	for i < len(in) {
		if i+4 <= len(in) && in[i] == '$' && in[i+1] == '$' && in[i+2] == '{' && in[i+3] == '{' {
			b = append(b, '$', '{', '{')
			i += 4
			continue
		}
		if i+3 <= len(in) && in[i] == '$' && in[i+1] == '{' && in[i+2] == '{' {
			j := i + 3
			for j < len(in) && isWS(in[j]) {
				j++
			}
			k := j
			if k < len(in) && isStart(in[k]) {
				for k < len(in) && isCont(in[k]) {
					k++
				}
				e := k
				for e < len(in) && isWS(in[e]) {
					e++
				}
				if e+2 <= len(in) && in[e] == '}' && in[e+1] == '}' {
					name := in[j:k]
					v, found := lookup(name)
					if !found {
						if ok {
							bad = name
						}
						ok = false
						v = in[i : e+2]
					}
					b = append(b, v...)
					i = e + 2
					continue
				}
			}
		}
		b = append(b, in[i])
		i++
	}
	return string(b), bad, ok
}

func run(in string, vars map[string]string) {
	orig := map[string]string{}
	for k, v := range vars {
		orig[k] = v
	}
	got, err := interpolate.Interpolate(in, interpolate.NewContext(vars))
	want, bad, ok := Spec(in, func(n string) (string, bool) {
		if len(n) >= 4 && n[:4] == "env." {
			return model.EnvValue(n[4:]), true
		}
		v, f := orig[n]
		return v, f
	})
	if ok {
		sym.Assert(err == nil, "a string whose references are all defined was refused")
		sym.Assert(got == want, "interpolated text differs from the text with its references replaced")
		sym.Cover("ok")
		sym.Log("out", got)
	} else {
		sym.Assert(err != nil, "an undefined variable was accepted")
		if err != nil {
			sym.Assert(contains(err.Error(), bad), "the error does not name the undefined variable")
		}
		sym.Cover("undefined")
		sym.Log("err", err.Error())
	}
	sym.Assert(len(orig) == len(vars), "the variables were modified")
}

func contains(s, sub string) bool {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return true
		}
	}
	return false
}

// Free: a short string of arbitrary bytes.
func Free() {
	in := sym.Str("in", sym.Param("n", 6), "")
	run(in, map[string]string{"a": sym.Str("va", 2, ""), "b": "B"})
}

// Name: one reference whose name and inner padding are arbitrary bytes.
func Name() {
	ws := sym.Str("ws", 1, "")
	name := sym.Str("name", sym.Param("name", 2), "")
	val := sym.Str("val", 2, "${}")
	run("${{"+ws+name+" }}", map[string]string{"a": val, "a.": "dot", "_": "u"})
}

// Around: one reference whose neighbourhood is arbitrary: what precedes it decides about
// escaping, what follows the name decides whether it is a reference at all.
func Around() {
	pre := sym.Str("pre", sym.Param("pre", 1), "")
	post := sym.Str("post", sym.Param("post", 4), "")
	val := sym.Str("val", 2, "")
	run(pre+"${{ a"+post, map[string]string{"a": val, "b": "x${{ a }}"})
}

// Two: two adjacent references with values that look like templates.
func Two() {
	v1 := sym.Str("v1", sym.Param("v", 4), "${} a")
	v2 := sym.Str("v2", sym.Param("v", 4), "${} a")
	mid := sym.Str("mid", sym.Param("mid", 2), "${} a")
	run("${{a}}"+mid+"${{ b }}", map[string]string{"a": v1, "b": v2})
}

// Marker: a value that holds control characters is copied like any other.
func Marker() {
	v := sym.Str("v", 1, "") + "\x00ESCAPED_BRACE\x00" + sym.Str("w", 1, "$}")
	run("$${{ a }}${{ a }}", map[string]string{"a": v})
}

// Env: environment references.
func Env() {
	v := sym.Str("v", 3, "${} aA=\n")
	model.SetEnv("X", v)
	name := sym.Str("name", 2, "XY._")
	pre := sym.Str("pre", 1, "")
	run(pre+"${{ env."+name+" }}", map[string]string{"env": "shadow", "env.X": "no"})
}
