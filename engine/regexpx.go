package main

import (
	"regexp"
	"regexp/syntax"
	"unicode"
	"unicode/utf8"
)

// Symbolic regular-expression matching: the pattern is compiled with regexp/syntax and its
// program is run as a backtracking matcher (leftmost-first), branching on symbolic runes.

type symRe struct {
	src   string
	host  *regexp.Regexp
	prog  *syntax.Prog
	ascii bool // every rune class is ASCII-only
	ncap  int
}

func compileRe(src string) (*symRe, error) {
	h, err := regexp.Compile(src)
	if err != nil {
		return nil, err
	}
	p, err := syntax.Parse(src, syntax.Perl)
	if err != nil {
		return nil, err
	}
	prog, err := syntax.Compile(p.Simplify())
	if err != nil {
		return nil, err
	}
	r := &symRe{src: src, host: h, prog: prog, ascii: true, ncap: 2 * (h.NumSubexp() + 1)}
	for i := range prog.Inst {
		in := &prog.Inst[i]
		switch in.Op {
		case syntax.InstRune, syntax.InstRune1:
			for _, c := range in.Rune {
				if c >= 0x80 {
					r.ascii = false
				}
				if len(in.Rune) == 1 && syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
					for f := unicode.SimpleFold(c); f != c; f = unicode.SimpleFold(f) {
						if f >= 0x80 {
							r.ascii = false
						}
					}
				}
			}
		case syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			r.ascii = false
		}
	}
	return r, nil
}

func instRanges(in *syntax.Inst) [][2]rune {
	switch in.Op {
	case syntax.InstRuneAny:
		return [][2]rune{{0, unicode.MaxRune}}
	case syntax.InstRuneAnyNotNL:
		return [][2]rune{{0, '\n' - 1}, {'\n' + 1, unicode.MaxRune}}
	}
	if len(in.Rune) == 1 {
		c := in.Rune[0]
		r := [][2]rune{{c, c}}
		if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
			for f := unicode.SimpleFold(c); f != c; f = unicode.SimpleFold(f) {
				r = append(r, [2]rune{f, f})
			}
		}
		return r
	}
	var r [][2]rune
	for i := 0; i+1 < len(in.Rune); i += 2 {
		r = append(r, [2]rune{in.Rune[i], in.Rune[i+1]})
	}
	return r
}

func (w *Worker) inRanges(v Value, width uint8, rs [][2]rune) Value {
	if u, ok := v.(uint64); ok {
		for _, r := range rs {
			if uint64(r[0]) <= u && u <= uint64(r[1]) {
				return true
			}
		}
		return false
	}
	t := v.(*Term)
	ts := w.ts
	var res Value = false
	for _, r := range rs {
		lo, hi := uint64(r[0]), uint64(r[1])
		if lo > mask(width) {
			continue
		}
		if hi > mask(width) {
			hi = mask(width)
		}
		c := ts.And(ts.Not(ts.Bin(OUlt, t, ts.Const(lo, width))), ts.Not(ts.Bin(OUlt, ts.Const(hi, width), t)))
		res = w.orV(res, w.fromTerm(c))
	}
	return res
}

// stepRune reports whether the rune at pos matches in, and its width.
func (w *Worker) stepRune(re *symRe, in *syntax.Inst, b []Value, pos int) (bool, int) {
	rs := instRanges(in)
	if u, ok := b[pos].(uint64); ok && u < 0x80 {
		return w.inRanges(u, 8, rs) == true, 1
	}
	maxR := rune(0)
	for _, r := range rs {
		if r[1] > maxR {
			maxR = r[1]
		}
	}
	if maxR < 0x80 {
		if _, ok := b[pos].(uint64); ok {
			return false, 1
		}
		return w.branchV(w.inRanges(b[pos], 8, rs)), 1
	}
	r, n := w.decodeRune(b, pos)
	return w.branchV(w.inRanges(r, 32, rs)), n
}

func (w *Worker) isWord(v Value) bool {
	return w.branchV(w.inRanges(v, 8, [][2]rune{{'0', '9'}, {'A', 'Z'}, {'_', '_'}, {'a', 'z'}}))
}

func (w *Worker) emptyOK(op syntax.EmptyOp, b []Value, pos int) bool {
	if op&syntax.EmptyBeginText != 0 && pos != 0 {
		return false
	}
	if op&syntax.EmptyEndText != 0 && pos != len(b) {
		return false
	}
	if op&syntax.EmptyBeginLine != 0 && pos != 0 && !w.branchV(w.equal(b[pos-1], uint64('\n'))) {
		return false
	}
	if op&syntax.EmptyEndLine != 0 && pos != len(b) && !w.branchV(w.equal(b[pos], uint64('\n'))) {
		return false
	}
	if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
		l := pos > 0 && w.isWord(b[pos-1])
		r := pos < len(b) && w.isWord(b[pos])
		if op&syntax.EmptyWordBoundary != 0 && l == r {
			return false
		}
		if op&syntax.EmptyNoWordBoundary != 0 && l != r {
			return false
		}
	}
	return true
}

func (w *Worker) reMatchAt(re *symRe, b []Value, start int) []int {
	type key struct{ pc, pos int }
	seen := map[key]bool{}
	caps := make([]int, re.ncap)
	for i := range caps {
		caps[i] = -1
	}
	var run func(pc, pos int) bool
	run = func(pc, pos int) bool {
		for {
			k := key{pc, pos}
			if seen[k] {
				return false
			}
			seen[k] = true
			w.steps++
			in := &re.prog.Inst[pc]
			switch in.Op {
			case syntax.InstFail:
				return false
			case syntax.InstMatch:
				caps[1] = pos
				return true
			case syntax.InstAlt, syntax.InstAltMatch:
				if run(int(in.Out), pos) {
					return true
				}
				pc = int(in.Arg)
			case syntax.InstCapture:
				if int(in.Arg) < len(caps) {
					old := caps[in.Arg]
					caps[in.Arg] = pos
					if run(int(in.Out), pos) {
						return true
					}
					caps[in.Arg] = old
					return false
				}
				pc = int(in.Out)
			case syntax.InstEmptyWidth:
				if !w.emptyOK(syntax.EmptyOp(in.Arg), b, pos) {
					return false
				}
				pc = int(in.Out)
			case syntax.InstNop:
				pc = int(in.Out)
			default:
				if pos >= len(b) {
					return false
				}
				ok, n := w.stepRune(re, in, b, pos)
				if !ok {
					return false
				}
				pc, pos = int(in.Out), pos+n
			}
		}
	}
	caps[0] = start
	if run(re.prog.Start, start) {
		caps[0] = start
		return caps
	}
	return nil
}

func (w *Worker) runeWidth(b []Value, pos int) int {
	if pos >= len(b) {
		return 0
	}
	_, n := w.decodeRune(b, pos)
	return n
}

// reExec is the counterpart of doExecute: leftmost-first match at or after pos.
func (w *Worker) reExec(re *symRe, s Value, pos int) []int {
	if cs, ok := s.(string); ok {
		// the host engine has no public API with a start position; context matters only for
		// empty-width operators, so run the same program on concrete bytes
		if pos == 0 {
			return re.host.FindStringSubmatchIndex(cs)
		}
	}
	b := strBytes(s)
	canEmpty := re.host.MatchString("")
	for p := pos; p <= len(b); {
		if m := w.reMatchAt(re, b, p); m != nil {
			return m
		}
		if p == len(b) {
			break
		}
		if re.ascii && !canEmpty {
			p++
		} else {
			p += max(1, w.runeWidth(b, p))
		}
	}
	return nil
}

func (w *Worker) reAll(re *symRe, s Value, n int, deliver func(m []int)) {
	end := strLen(s)
	if n < 0 {
		n = end + 1
	}
	if cs, ok := s.(string); ok {
		for _, m := range re.host.FindAllStringSubmatchIndex(cs, n) {
			deliver(m)
		}
		return
	}
	b := strBytes(s)
	prev := -1
	for pos, i := 0, 0; i < n && pos <= end; {
		m := w.reExec(re, s, pos)
		if m == nil {
			break
		}
		accept := true
		if m[1] == pos {
			if m[0] == prev {
				accept = false
			}
			if wd := w.runeWidth(b, pos); wd > 0 {
				pos += wd
			} else {
				pos = end + 1
			}
		} else {
			pos = m[1]
		}
		prev = m[1]
		if accept {
			deliver(m)
			i++
		}
	}
}

func (w *Worker) reReplace(re *symRe, s Value, repl func(m []int) Value) Value {
	n := strLen(s)
	b := strBytes(s)
	last, pos := 0, 0
	var out Value = ""
	changed := false
	for pos <= n {
		m := w.reExec(re, s, pos)
		if m == nil {
			break
		}
		changed = true
		out = strConcat(out, strSlice(s, last, m[0]))
		if m[1] > last || m[0] == 0 {
			out = strConcat(out, repl(m))
		}
		last = m[1]
		wd := w.runeWidth(b, pos)
		if pos+wd > m[1] {
			pos += wd
		} else if pos+1 > m[1] {
			pos++
		} else {
			pos = m[1]
		}
	}
	if !changed {
		return s
	}
	return strConcat(out, strSlice(s, last, n))
}

func (w *Worker) reExpand(re *symRe, tmpl Value, s Value, m []int) Value {
	t := w.concStr(tmpl)
	var out Value = ""
	for i := 0; i < len(t); i++ {
		if t[i] != '$' || i+1 >= len(t) {
			out = strConcat(out, t[i:i+1])
			continue
		}
		if t[i+1] == '$' {
			out = strConcat(out, "$")
			i++
			continue
		}
		j := i + 1
		brace := t[j] == '{'
		if brace {
			j++
		}
		k := j
		for k < len(t) {
			r, sz := utf8.DecodeRuneInString(t[k:])
			if !unicode.IsLetter(r) && !unicode.IsDigit(r) && r != '_' {
				break
			}
			k += sz
		}
		if k == j || (brace && (k >= len(t) || t[k] != '}')) {
			out = strConcat(out, "$")
			continue
		}
		name := t[j:k]
		if brace {
			k++
		}
		i = k - 1
		g := -1
		num := 0
		isNum := true
		for _, c := range name {
			if c < '0' || c > '9' || num > 1000 {
				isNum = false
				break
			}
			num = num*10 + int(c-'0')
		}
		if isNum {
			g = num
		} else {
			g = re.host.SubexpIndex(name)
		}
		if g >= 0 && 2*g+1 < len(m) && m[2*g] >= 0 {
			out = strConcat(out, strSlice(s, m[2*g], m[2*g+1]))
		}
	}
	return out
}

func reOf(v Value) *symRe {
	p, ok := v.(*Value)
	if !ok || p == nil {
		panic(unsupported("regexp value %T", v))
	}
	o, ok := (*p).(Opaque)
	if !ok {
		panic(unsupported("regexp not compiled by the engine: %s", show(*p)))
	}
	return o.v.(*symRe)
}

func initRegexp(I map[string]intrinsic) {
	comp := func(w *Worker, v Value) (*Value, error) {
		re, err := compileRe(w.concStr(v))
		if err != nil {
			return nil, err
		}
		p := new(Value)
		*p = Opaque{re}
		return p, nil
	}
	I["regexp.MustCompile"] = func(f *Frame, a []Value) Value {
		p, err := comp(f.w, a[0])
		if err != nil {
			f.w.runtimePanic("regexp: Compile: " + err.Error())
		}
		return p
	}
	I["regexp.Compile"] = func(f *Frame, a []Value) Value {
		p, err := comp(f.w, a[0])
		if err != nil {
			return Tuple{(*Value)(nil), f.w.strErr(err.Error())}
		}
		return Tuple{p, Iface{}}
	}
	I["regexp.QuoteMeta"] = func(f *Frame, a []Value) Value { return regexp.QuoteMeta(f.w.concStr(a[0])) }
	I["regexp.MatchString"] = func(f *Frame, a []Value) Value {
		p, err := comp(f.w, a[0])
		if err != nil {
			return Tuple{false, f.w.strErr(err.Error())}
		}
		return Tuple{f.w.reExec(reOf(p), a[1], 0) != nil, Iface{}}
	}
	R := "(*regexp.Regexp)."
	I[R+"String"] = func(f *Frame, a []Value) Value { return reOf(a[0]).src }
	I[R+"NumSubexp"] = func(f *Frame, a []Value) Value { return uint64(reOf(a[0]).host.NumSubexp()) }
	I[R+"SubexpIndex"] = func(f *Frame, a []Value) Value { return uint64(reOf(a[0]).host.SubexpIndex(f.w.concStr(a[1]))) }
	subs := func(s Value, m []int) Value {
		r := make(Slice, len(m)/2)
		for i := range r {
			if m[2*i] < 0 {
				r[i] = ""
			} else {
				r[i] = strSlice(s, m[2*i], m[2*i+1])
			}
		}
		return r
	}
	ints := func(m []int) Value {
		if m == nil {
			return Slice(nil)
		}
		r := make(Slice, len(m))
		for i := range r {
			r[i] = uint64(int64(m[i]))
		}
		return r
	}
	for _, k := range []struct {
		name string
		get  func(w *Worker, v Value) Value
		put  func(w *Worker, v Value) Value
	}{
		{"String", func(w *Worker, v Value) Value { return v }, func(w *Worker, v Value) Value { return v }},
		{"", func(w *Worker, v Value) Value { return mkStr(append([]Value(nil), v.(Slice)...)) }, func(w *Worker, v Value) Value { return w.byteSlice(v) }},
	} {
		k := k
		I[R+"Match"+k.name] = func(f *Frame, a []Value) Value { return f.w.reExec(reOf(a[0]), k.get(f.w, a[1]), 0) != nil }
		I[R+"Find"+k.name] = func(f *Frame, a []Value) Value {
			s := k.get(f.w, a[1])
			m := f.w.reExec(reOf(a[0]), s, 0)
			if m == nil {
				if k.name == "" {
					return Slice(nil)
				}
				return ""
			}
			return k.put(f.w, strSlice(s, m[0], m[1]))
		}
		I[R+"Find"+k.name+"Index"] = func(f *Frame, a []Value) Value {
			m := f.w.reExec(reOf(a[0]), k.get(f.w, a[1]), 0)
			if m == nil {
				return Slice(nil)
			}
			return ints(m[:2])
		}
		I[R+"Find"+k.name+"SubmatchIndex"] = func(f *Frame, a []Value) Value {
			return ints(f.w.reExec(reOf(a[0]), k.get(f.w, a[1]), 0))
		}
		I[R+"FindAll"+k.name+"SubmatchIndex"] = func(f *Frame, a []Value) Value {
			var r Slice
			f.w.reAll(reOf(a[0]), k.get(f.w, a[1]), int(f.w.concInt(a[2])), func(m []int) { r = append(r, ints(m)) })
			return r
		}
		I[R+"FindAll"+k.name+"Index"] = func(f *Frame, a []Value) Value {
			var r Slice
			f.w.reAll(reOf(a[0]), k.get(f.w, a[1]), int(f.w.concInt(a[2])), func(m []int) { r = append(r, ints(m[:2])) })
			return r
		}
		I[R+"FindAll"+k.name] = func(f *Frame, a []Value) Value {
			var r Slice
			s := k.get(f.w, a[1])
			f.w.reAll(reOf(a[0]), s, int(f.w.concInt(a[2])), func(m []int) { r = append(r, k.put(f.w, strSlice(s, m[0], m[1]))) })
			return r
		}
		I[R+"ReplaceAll"+k.name] = func(f *Frame, a []Value) Value {
			re, s := reOf(a[0]), k.get(f.w, a[1])
			t := k.get(f.w, a[2])
			return k.put(f.w, f.w.reReplace(re, s, func(m []int) Value { return f.w.reExpand(re, t, s, m) }))
		}
		I[R+"ReplaceAllLiteral"+k.name] = func(f *Frame, a []Value) Value {
			re, s := reOf(a[0]), k.get(f.w, a[1])
			return k.put(f.w, f.w.reReplace(re, s, func(m []int) Value { return k.get(f.w, a[2]) }))
		}
		fn := "ReplaceAll" + k.name + "Func"
		I[R+fn] = func(f *Frame, a []Value) Value {
			re, s := reOf(a[0]), k.get(f.w, a[1])
			return k.put(f.w, f.w.reReplace(re, s, func(m []int) Value {
				return k.get(f.w, f.w.callValue(f, a[2], []Value{k.put(f.w, strSlice(s, m[0], m[1]))}, nil))
			}))
		}
	}
	I[R+"FindStringSubmatch"] = func(f *Frame, a []Value) Value {
		m := f.w.reExec(reOf(a[0]), a[1], 0)
		if m == nil {
			return Slice(nil)
		}
		return subs(a[1], m)
	}
	I[R+"FindAllStringSubmatch"] = func(f *Frame, a []Value) Value {
		var r Slice
		f.w.reAll(reOf(a[0]), a[1], int(f.w.concInt(a[2])), func(m []int) { r = append(r, subs(a[1], m)) })
		return r
	}
	I[R+"Split"] = func(f *Frame, a []Value) Value {
		re, s, n := reOf(a[0]), a[1], int(f.w.concInt(a[2]))
		if n == 0 {
			return Slice(nil)
		}
		if len(re.src) > 0 && strLen(s) == 0 {
			return Slice{""}
		}
		var ms [][]int
		f.w.reAll(re, s, n, func(m []int) { ms = append(ms, m) })
		var r Slice
		beg, end := 0, 0
		for _, m := range ms {
			if n > 0 && len(r) == n-1 {
				break
			}
			end = m[0]
			if m[1] != 0 {
				r = append(r, strSlice(s, beg, end))
			}
			beg = m[1]
		}
		if end != strLen(s) {
			r = append(r, strSlice(s, beg, strLen(s)))
		}
		return r
	}
}
