// Package h25: did-you-mean suggestions are existing names, deterministic and best.
package h25

import (
	"strconv"

	"github.com/bab-sh/bab/internal/errs"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

func low(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'A' && b[i] <= 'Z' {
			b[i] += 'a' - 'A'
		}
	}
	return string(b)
}

func within(a, b string) bool {
	for i := 0; i+len(a) <= len(b); i++ {
		if b[i:i+len(a)] == a {
			return true
		}
	}
	return false
}

// score: 100 equal up to case, 80 one contains the other, else the share of equal positions.
func score(a, b string) int {
	a, b = low(a), low(b)
	if a == b {
		return 100
	}
	if within(a, b) || within(b, a) {
		return 80
	}
	n := 0
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] == b[i] {
			n++
		}
	}
	m := len(a)
	if len(b) > m {
		m = len(b)
	}
	return n * 100 / m
}

const alpha = "aAbBz:-"

func verdict(target string, cands []string, got string) {
	best := 0
	for _, c := range cands {
		if s := score(target, c); s > best {
			best = s
		}
	}
	if got == "" {
		sym.Cover("none")
		sym.Assert(best < 50, "a similar name exists but nothing is suggested")
		return
	}
	sym.Cover("some")
	found, gs := false, 0
	for _, c := range cands {
		if c == got {
			found = true
		}
	}
	sym.Assert(found, "the suggestion is not one of the existing names")
	gs = score(target, got)
	sym.Assert(gs >= 50, "a name is suggested that is not similar")
	sym.Assert(gs == best, "another existing name is strictly more similar than the suggestion")
}

func perm(c []string, k int) []string {
	switch len(c) {
	case 2:
		return []string{c[1], c[0]}
	case 3:
		return [][]string{{c[0], c[2], c[1]}, {c[1], c[0], c[2]}, {c[1], c[2], c[0]}, {c[2], c[0], c[1]}, {c[2], c[1], c[0]}}[k]
	}
	return c
}

func run(target string, cands []string) {
	keep := append([]string{}, cands...)
	got := errs.FindSimilar(target, cands)
	sym.Log("got", got)
	verdict(target, keep, got)
	np := 0
	switch len(keep) {
	case 2:
		np = 1
	case 3:
		np = 5
	}
	for k := 0; k < np; k++ {
		sym.Assert(errs.FindSimilar(target, perm(keep, k)) == got, "the suggestion depends on the order the names are listed in")
	}
}

// Two existing names, everything symbolic.
func Two() {
	n := sym.Param("len", 3)
	t := []string{"a", "aB", "abz", "ab:a"}[sym.Choice("target", sym.Param("targets", 3))]
	run(t, []string{sym.Str1("c0", n, alpha[:sym.Param("letters", 4)]), sym.Str1("c1", n, alpha[:sym.Param("letters", 4)])})
}

// Three existing names of equal length: ties everywhere.
func Three() {
	n := sym.Param("len", 2)
	t := "abz"[:n]
	c := make([]string, 3)
	for i := range c {
		c[i] = sym.StrN("c"+strconv.Itoa(i), n, "abBz"[:sym.Param("letters", 3)])
	}
	run(t, c)
}

// A name that differs from the target in letter case only, among others.
func Case() {
	t := "build"
	v := []byte(t)
	for i := range v {
		if sym.Bool("up" + strconv.Itoa(i)) {
			v[i] -= 'a' - 'A'
		}
	}
	o := sym.Str1("other", sym.Param("other", 3), alpha+"build")
	c := []string{o, string(v)}
	if sym.Flag("long") {
		c[0] = o + "build" + o
	}
	sym.Assume(low(c[0]) != t)
	got := errs.FindSimilar(t, c)
	sym.Assert(got == string(v), "a name equal up to letter case is not suggested")
	got = errs.FindSimilar(string(v), []string{t, c[0]})
	sym.Assert(got == t, "a name equal up to letter case is not suggested")
}

// Long names around the similarity threshold.
func Threshold() {
	n := sym.Param("len", 6)
	t := "abcdefgh"[:n]
	c := sym.StrN("c", n+sym.Choice("more", 2), "abcdefghz")
	got := errs.FindSimilar(t, []string{c})
	verdict(t, []string{c}, got)
}

// Through the error texts that carry suggestions.
func Message() {
	t := sym.StrN("t", 2, "abz")
	c := []string{sym.StrN("c0", 2, "abz"), sym.StrN("c1", 2, "abz")}
	s := errs.FindSimilar(t, c)
	suffix := ""
	if s != "" {
		suffix = " (did you mean \"" + s + "\"?)"
	}
	m := (&errs.TaskNotFoundError{TaskName: t, Available: c}).Error()
	sym.Assert(m == "task \""+t+"\" not found"+suffix, "the message of an unknown task does not carry the suggestion")
	m = (&errs.VarNotFoundError{Name: t, Available: c}).Error()
	sym.Assert(m == "undefined variable: "+t+suffix, "the message of an unknown variable does not carry the suggestion")
	sym.Assert(errs.FindSimilar(t, nil) == "", "a suggestion out of nothing")
}
