package main

import (
	"unicode/utf8"
)

// decodeRune decodes the rune at position i of b; returns the rune value (32-bit) and size.
// Symbolic bytes fork on their UTF-8 class.
func (w *Worker) decodeRune(b []Value, i int) (Value, int) {
	b0 := b[i]
	if u, ok := b0.(uint64); ok && u < 0x80 {
		return u, 1
	}
	// fully concrete prefix?
	var buf []byte
	for j := i; j < len(b) && j < i+4; j++ {
		u, ok := b[j].(uint64)
		if !ok {
			break
		}
		buf = append(buf, byte(u))
	}
	if len(buf) > 0 && (utf8.FullRune(buf) || i+len(buf) == len(b)) {
		r, n := utf8.DecodeRune(buf)
		return uint64(uint32(r)), n
	}
	ts := w.ts
	t8 := func(v Value) *Term { return w.term(v, 8) }
	lt := func(v Value, k uint64) Value { return w.fromTerm(ts.Bin(OUlt, t8(v), ts.Const(k, 8))) }
	in := func(v Value, lo, hi uint64) Value { // lo<=v<=hi
		return w.andV(w.notV(lt(v, lo)), w.fromTerm(ts.Not(ts.Bin(OUlt, ts.Const(hi, 8), t8(v)))))
	}
	z := func(v Value) *Term { return ts.Zext(t8(v), 32) }
	cont := func(v Value, sh uint64) *Term {
		return ts.Bin(OShl, ts.Bin(OBvand, z(v), ts.Const(0x3f, 32)), ts.Const(sh, 32))
	}
	bad := func() (Value, int) { return uint64(0xFFFD), 1 }
	if w.branchV(lt(b0, 0x80)) {
		return w.fromTerm(z(b0)), 1
	}
	if !w.branchV(in(b0, 0xC2, 0xF4)) {
		return bad()
	}
	if i+1 >= len(b) {
		return bad()
	}
	b1 := b[i+1]
	if w.branchV(lt(b0, 0xE0)) {
		if !w.branchV(in(b1, 0x80, 0xBF)) {
			return bad()
		}
		hi := ts.Bin(OShl, ts.Bin(OBvand, z(b0), ts.Const(0x1f, 32)), ts.Const(6, 32))
		return w.fromTerm(ts.Bin(OBvor, hi, cont(b1, 0))), 2
	}
	if w.branchV(lt(b0, 0xF0)) {
		lo, hi := uint64(0x80), uint64(0xBF)
		if w.branchV(w.equal(b0, uint64(0xE0))) {
			lo = 0xA0
		} else if w.branchV(w.equal(b0, uint64(0xED))) {
			hi = 0x9F
		}
		if !w.branchV(in(b1, lo, hi)) || i+2 >= len(b) || !w.branchV(in(b[i+2], 0x80, 0xBF)) {
			return bad()
		}
		h := ts.Bin(OShl, ts.Bin(OBvand, z(b0), ts.Const(0x0f, 32)), ts.Const(12, 32))
		return w.fromTerm(ts.Bin(OBvor, ts.Bin(OBvor, h, cont(b1, 6)), cont(b[i+2], 0))), 3
	}
	lo, hi := uint64(0x80), uint64(0xBF)
	if w.branchV(w.equal(b0, uint64(0xF0))) {
		lo = 0x90
	} else if w.branchV(w.equal(b0, uint64(0xF4))) {
		hi = 0x8F
	}
	if !w.branchV(in(b1, lo, hi)) || i+2 >= len(b) || !w.branchV(in(b[i+2], 0x80, 0xBF)) || i+3 >= len(b) || !w.branchV(in(b[i+3], 0x80, 0xBF)) {
		return bad()
	}
	h := ts.Bin(OShl, ts.Bin(OBvand, z(b0), ts.Const(0x07, 32)), ts.Const(18, 32))
	return w.fromTerm(ts.Bin(OBvor, ts.Bin(OBvor, h, cont(b1, 12)), ts.Bin(OBvor, cont(b[i+2], 6), cont(b[i+3], 0)))), 4
}

func (w *Worker) strNext(it *strIter) Value {
	if it.i >= strLen(it.s) {
		return Tuple{false, uint64(0), uint64(0)}
	}
	i := it.i
	var r Value
	var n int
	if s, ok := it.s.(string); ok {
		rr, k := utf8.DecodeRuneInString(s[i:])
		r, n = uint64(uint32(rr)), k
	} else {
		r, n = w.decodeRune(it.s.(*SymStr).bytes(), i)
	}
	it.i += n
	return Tuple{true, uint64(i), r}
}

func (w *Worker) strRunes(v Value) Value {
	b := strBytes(v)
	r := Slice{}
	for i := 0; i < len(b); {
		x, n := w.decodeRune(b, i)
		r = append(r, x)
		i += n
	}
	return r[:len(r):len(r)]
}

// encodeRune returns the UTF-8 bytes of a rune value (32-bit).
func (w *Worker) encodeRune(v Value) []Value {
	if u, ok := v.(uint64); ok {
		var out []Value
		for _, c := range []byte(string(rune(int32(u)))) {
			out = append(out, uint64(c))
		}
		return out
	}
	t := v.(*Term)
	ts := w.ts
	lt := func(k uint64) bool { return w.branchV(w.fromTerm(ts.Bin(OUlt, t, ts.Const(k, 32)))) }
	b8 := func(x *Term) Value { return w.fromTerm(ts.Trunc(x, 8)) }
	sh := func(n uint64) *Term { return ts.Bin(OLshr, t, ts.Const(n, 32)) }
	c := func(n uint64) Value {
		return b8(ts.Bin(OBvor, ts.Bin(OBvand, sh(n), ts.Const(0x3f, 32)), ts.Const(0x80, 32)))
	}
	if lt(0x80) {
		return []Value{b8(t)}
	}
	if lt(0x800) {
		return []Value{b8(ts.Bin(OBvor, sh(6), ts.Const(0xC0, 32))), c(0)}
	}
	if lt(0x10000) {
		if !lt(0xD800) && lt(0xE000) {
			return []Value{uint64(0xEF), uint64(0xBF), uint64(0xBD)}
		}
		return []Value{b8(ts.Bin(OBvor, sh(12), ts.Const(0xE0, 32))), c(6), c(0)}
	}
	if lt(0x110000) {
		return []Value{b8(ts.Bin(OBvor, sh(18), ts.Const(0xF0, 32))), c(12), c(6), c(0)}
	}
	return []Value{uint64(0xEF), uint64(0xBF), uint64(0xBD)}
}
