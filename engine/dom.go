package main

import "math/bits"

// Bitmap reasoning for constraints over a single 8-bit (or Boolean) variable: the exact set of
// satisfying values is computed once per term, so that most feasibility questions about
// individual input bytes need no solver call. Everything else goes to z3.

type bitmap [4]uint64

func (b *bitmap) has(v uint64) bool { return b[v>>6]&(1<<(v&63)) != 0 }
func (b bitmap) and(o bitmap) bitmap {
	return bitmap{b[0] & o[0], b[1] & o[1], b[2] & o[2], b[3] & o[3]}
}
func (b bitmap) andNot(o bitmap) bitmap {
	return bitmap{b[0] &^ o[0], b[1] &^ o[1], b[2] &^ o[2], b[3] &^ o[3]}
}
func (b bitmap) empty() bool { return b[0]|b[1]|b[2]|b[3] == 0 }
func (b bitmap) first() uint64 {
	for i, x := range b {
		if x != 0 {
			return uint64(i*64 + bits.TrailingZeros64(x))
		}
	}
	return 0
}

func fullDom(w uint8) bitmap {
	if w == 0 {
		return bitmap{3}
	}
	return bitmap{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
}

const (
	supUnknown = iota
	supNone
	supOne
	supMany
)

func (t *Term) support() (uint8, *Term) {
	if t.supKind != supUnknown {
		return t.supKind, t.sup
	}
	switch t.op {
	case OConst:
		t.supKind = supNone
	case OVar:
		if t.w <= 8 {
			t.supKind, t.sup = supOne, t
		} else {
			t.supKind = supMany
		}
	default:
		k, v := uint8(supNone), (*Term)(nil)
		for _, c := range []*Term{t.a, t.b, t.c} {
			if c == nil {
				continue
			}
			ck, cv := c.support()
			switch {
			case ck == supNone:
			case ck == supMany:
				k = supMany
			case k == supNone:
				k, v = supOne, cv
			case k == supOne && cv != v:
				k = supMany
			}
		}
		if k != supOne {
			v = nil
		}
		t.supKind, t.sup = k, v
	}
	return t.supKind, t.sup
}

func (ts *Terms) bitmapOf(t *Term, v *Term) bitmap {
	if t.bm != nil {
		return *t.bm
	}
	var r bitmap
	switch t.op {
	case OConst:
		if t.val != 0 {
			r = fullDom(v.w)
		}
		return r
	case ONot:
		r = fullDom(v.w).andNot(ts.bitmapOf(t.a, v))
	case OAnd:
		r = ts.bitmapOf(t.a, v).and(ts.bitmapOf(t.b, v))
	default:
		n := uint64(256)
		if v.w == 0 {
			n = 2
		} else if v.w < 8 {
			n = 1 << v.w
		}
		m := Model{}
		for x := uint64(0); x < n; x++ {
			m[v.name] = x
			ts.bmGen--
			if ts.eval(t, m, ts.bmGen) != 0 {
				r[x>>6] |= 1 << (x & 63)
			}
		}
	}
	t.bm = &r
	return r
}

func (w *Worker) domOf(v *Term) bitmap {
	if d, ok := w.dom[v]; ok {
		return d
	}
	return fullDom(v.w)
}

func (w *Worker) domNote(t *Term) {
	k, v := t.support()
	switch k {
	case supOne:
		w.dom[v] = w.domOf(v).and(w.ts.bitmapOf(t, v))
	case supMany:
		w.markMulti(t)
	}
}

func (w *Worker) markMulti(t *Term) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] || t.op == OConst {
			return
		}
		seen[t] = true
		if t.op == OVar {
			w.multi[t] = true
			return
		}
		walk(t.a)
		walk(t.b)
		walk(t.c)
	}
	walk(t)
}

// implied decides c from the domains alone: 1 true, -1 false, 0 open.
func (w *Worker) implied(c *Term) int {
	k, v := c.support()
	if k != supOne {
		return 0
	}
	d := w.domOf(v)
	b := w.ts.bitmapOf(c, v)
	if d.andNot(b).empty() {
		return 1
	}
	if d.and(b).empty() {
		return -1
	}
	return 0
}

// feasible decides pc /\ c.
func (w *Worker) feasible(c *Term) (string, Model) {
	if k, v := c.support(); k == supOne && !w.multi[v] {
		d := w.domOf(v).and(w.ts.bitmapOf(c, v))
		w.bmQueries++
		if w.bmQueries%211 == 1 {
			// audit: ask z3 the same question
			w.audits++
			if res, _ := w.sol.check(w.pc, c, w.vars); res != "unknown" && (res == "unsat") != d.empty() {
				w.cut("AUDIT: the byte-domain decision differs from z3's")
			}
		}
		if d.empty() {
			return "unsat", nil
		}
		m := make(Model, len(w.model)+1)
		for k, x := range w.model {
			m[k] = x
		}
		m[v.name] = d.first()
		return "sat", m
	}
	return w.sol.check(w.pc, c, w.vars)
}
