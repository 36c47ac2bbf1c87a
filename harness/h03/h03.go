// Package h03: conditions decide by value.
package h03

import (
	"strings"

	"github.com/bab-sh/bab/internal/condition"
	"github.com/bab-sh/bab/internal/interpolate"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

func lower(s string) string {
	b := make([]byte, len(s))
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'A' && c <= 'Z' {
			c += 32
		}
		b[i] = c
	}
	return string(b)
}

// Compare: X op 'lit' for arbitrary values of the variables in X.
func Compare() {
	v := sym.Str("v", sym.Param("v", 3), "")
	var x, xv string
	switch sym.Choice("form", 5) {
	case 0:
		x, xv = "${{ v }}", v
	case 1:
		x, xv = "'${{v}}'", v
	case 2:
		x, xv = "\"${{ v }}\"", v
	case 3:
		x, xv = "a-${{ v }}", "a-"+v
	case 4:
		x, xv = "${{ v }}${{ w }}", v+"w'"
	}
	ne := sym.Flag("ne")
	op := "=="
	if ne {
		op = "!="
	}
	q := "'"
	other := "\""
	if sym.Flag("dq") {
		q, other = "\"", "'"
	}
	var lit, lv string
	switch sym.Choice("lit", 3) {
	case 0:
		lit = sym.Str("l", 2, "av=! ")
		lv = lit
	case 1:
		lit, lv = "${{ v }}", v
	case 2:
		lit, lv = other+" == "+other, other+" == "+other
	}
	sp := []string{"", " "}[sym.Choice("sp", 2)]
	run(x+sp+op+sp+q+lit+q, v, (xv == lv) != ne)
}

func run(cond, v string, want bool) {
	r, err := condition.Evaluate(cond, interpolate.NewContext(map[string]string{"v": v, "w": "w'"}))
	sym.Assert(err == nil, "a condition over defined variables was refused")
	if r.ShouldRun {
		sym.Cover("run")
	} else {
		sym.Cover("skip")
	}
	sym.Assert(r.ShouldRun == want, "the condition was decided wrongly")
	sym.Log("run", map[bool]string{true: "1", false: "0"}[r.ShouldRun])
}

// Truthy: a bare value.
func Truthy() {
	v := sym.Str("v", sym.Param("v", 3), "")
	run("${{ v }}", v, strings.TrimSpace(v) != "")
}

// FalseWord: values of the length of false, in any case and padding.
func FalseWord() {
	v := sym.StrN("v", 5, sym.ConcStr("falseFALSE x\t'="))
	pad := sym.Str("pad", 1, " \n")
	run(pad+"${{ v }} ", v, strings.TrimSpace(v) != "" && lower(strings.TrimSpace(v)) != "false")
}

// Operators: a value that contains a whole comparison stays a value.
func Operators() {
	a := sym.Str("a", 2, "x'\"= ")
	b := sym.Str("b", 2, "x'\"= ")
	v := a + []string{"==", "!="}[sym.Choice("op", 2)] + b
	w := strings.TrimSpace(v)
	run("${{ v }}", v, w != "")
}

// Literal: conditions without any variable.
func Literal() {
	l := sym.Str1("l", 3, "abF \t")
	if strings.TrimSpace(l) == "" {
		run(l+"== 'x'", "", true)
		return
	}
	r := sym.Str("r", 3, "abF")
	ne := sym.Flag("ne")
	op := "=="
	if ne {
		op = "!="
	}
	run(l+op+" '"+r+"'", "", (strings.TrimSpace(l) == r) != ne)
}

// Undefined: an undefined variable anywhere is an error.
func Undefined() {
	pre := sym.Str("pre", 2, "a '=")
	post := sym.Str("post", 3, "= 'x\"")
	r, err := condition.Evaluate(pre+"${{ u }}"+post, interpolate.NewContext(map[string]string{"v": "x"}))
	sym.Assert(err != nil && !r.ShouldRun, "an undefined variable in a condition was accepted")
	r, err = condition.Evaluate("${{ v }} == '${{ u }}'", interpolate.NewContext(map[string]string{"v": "x"}))
	sym.Assert(err != nil && !r.ShouldRun, "an undefined variable in a comparison was accepted")
}

// None: no condition means run.
func None() {
	r, err := condition.Evaluate("", interpolate.NewContext(nil))
	sym.Assert(err == nil && r.ShouldRun, "no condition must run")
}

// Blanks: white space around and within a condition, and in a value, changes nothing.
func Blanks() {
	const blank = " \t\n\r"
	pre, post := sym.Str("pre", 2, blank), sym.Str("post", 2, blank)
	switch sym.Choice("form", 3) {
	case 0:
		run(pre+"${{ v }}"+sym.Str("mid", 1, blank)+"== 'a'"+post, "a", true)
		run(pre+"${{ v }} !="+sym.Str("mid", 1, blank)+"\"a\""+post, "a", false)
	case 1:
		v := sym.StrN("word", 5, sym.ConcStr("falsFx"))
		run(pre+"${{ v }}"+post, v, lower(v) != "false")
	case 2:
		v := pre + sym.StrN("word", 5, sym.ConcStr("falsFx")) + post
		run("${{ v }}", v, lower(strings.TrimSpace(v)) != "false")
	}
}
