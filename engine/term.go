package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Hash-consed bit-vector / boolean terms (width 0 = Bool, else BV of w<=64 bits).

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBvand
	OBvor
	OBvxor
	OBvnot
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OExtract // val = hi<<8|lo
	OZext
	OSext
	OConcat
)

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem", OBvand: "bvand", OBvor: "bvor", OBvxor: "bvxor", OBvnot: "bvnot",
	OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat"}

type Term struct {
	op      Op
	w       uint8
	id      int32
	a, b, c *Term
	val     uint64
	name    string
	defGen  int32 // solver generation in which it has been defined
	evGen   int32
	evVal   uint64
	supKind uint8
	sup     *Term
	bm      *bitmap
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c int32
	val     uint64
	name    string
}

type Terms struct {
	tab    map[termKey]*Term
	next   int32
	tt, ff *Term
	bmGen  int32
}

func newTerms() *Terms {
	t := &Terms{tab: map[termKey]*Term{}, next: 1}
	t.tt = t.mk(OConst, 0, nil, nil, nil, 1, "")
	t.ff = t.mk(OConst, 0, nil, nil, nil, 0, "")
	return t
}

func tid(t *Term) int32 {
	if t == nil {
		return 0
	}
	return t.id
}

func (ts *Terms) mk(op Op, w uint8, a, b, c *Term, val uint64, name string) *Term {
	k := termKey{op, w, tid(a), tid(b), tid(c), val, name}
	if t, ok := ts.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, c: c, val: val, name: name, id: ts.next}
	ts.next++
	ts.tab[k] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (ts *Terms) Const(v uint64, w uint8) *Term {
	return ts.mk(OConst, w, nil, nil, nil, v&mask(w), "")
}
func (ts *Terms) Bool(b bool) *Term {
	if b {
		return ts.tt
	}
	return ts.ff
}
func (ts *Terms) Var(name string, w uint8) *Term { return ts.mk(OVar, w, nil, nil, nil, 0, name) }

func (ts *Terms) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return ts.Bool(a.val == 0)
	case ONot:
		return a.a
	}
	return ts.mk(ONot, 0, a, nil, nil, 0, "")
}

func (ts *Terms) And(a, b *Term) *Term {
	if a.op == OConst {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.val == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return ts.ff
	}
	if a.id > b.id {
		a, b = b, a
	}
	return ts.mk(OAnd, 0, a, b, nil, 0, "")
}
func (ts *Terms) Or(a, b *Term) *Term { return ts.Not(ts.And(ts.Not(a), ts.Not(b))) }

func (ts *Terms) Ite(c, a, b *Term) *Term {
	if c.op == OConst {
		if c.val != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return ts.Ite(c.a, b, a)
	}
	if a.w == 0 {
		if a.op == OConst && b.op == OConst {
			if a.val != 0 {
				return c
			}
			return ts.Not(c)
		}
		if a.op == OConst {
			if a.val != 0 {
				return ts.Or(c, b)
			}
			return ts.And(ts.Not(c), b)
		}
		if b.op == OConst {
			if b.val != 0 {
				return ts.Or(ts.Not(c), a)
			}
			return ts.And(c, a)
		}
	}
	return ts.mk(OIte, a.w, c, a, b, 0, "")
}

// ub returns a cheap upper bound (unsigned) on a term's value.
func ub(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OZext:
		return ub(t.a)
	case OIte:
		return max(ub(t.b), ub(t.c))
	case OBvand:
		return min(ub(t.a), ub(t.b))
	case OAdd:
		x, y := ub(t.a), ub(t.b)
		s, c := bits.Add64(x, y, 0)
		if c == 0 && s <= mask(t.w) {
			return s
		}
	case OLshr:
		if t.b.op == OConst && t.b.val < 64 {
			return ub(t.a) >> t.b.val
		}
	case OUrem:
		if t.b.op == OConst && t.b.val > 0 {
			return t.b.val - 1
		}
	}
	return mask(t.w)
}

func (ts *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return ts.tt
	}
	if a.op == OConst && b.op == OConst {
		return ts.Bool(a.val == b.val)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if a.w == 0 {
			if b.val != 0 {
				return a
			}
			return ts.Not(a)
		}
		switch a.op {
		case OZext:
			if b.val > mask(a.a.w) {
				return ts.ff
			}
			return ts.Eq(a.a, ts.Const(b.val, a.a.w))
		case OSext:
			if uint64(sext(b.val&mask(a.a.w), a.a.w))&mask(a.w) != b.val {
				return ts.ff
			}
			return ts.Eq(a.a, ts.Const(b.val, a.a.w))
		case OIte:
			if a.b.op == OConst || a.c.op == OConst {
				return ts.Ite(a.a, ts.Eq(a.b, b), ts.Eq(a.c, b))
			}
		case OAdd:
			if a.b.op == OConst {
				return ts.Eq(a.a, ts.Const(b.val-a.b.val, a.w))
			}
		}
		if ub(a) < b.val {
			return ts.ff
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return ts.mk(OEq, 0, a, b, nil, 0, "")
}

func evalOp(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUdiv:
		if y == 0 {
			return m
		}
		return x / y
	case OUrem:
		if y == 0 {
			return x
		}
		return x % y
	case OSdiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx >= 0 {
				return m
			}
			return 1
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case OSrem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case OBvand:
		return x & y
	case OBvor:
		return x | y
	case OBvxor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		s := sext(x, w)
		if y >= uint64(w) {
			y = 63
		}
		return uint64(s>>y) & m
	case OUlt:
		return b2u(x < y)
	case OUle:
		return b2u(x <= y)
	case OSlt:
		return b2u(sext(x, w) < sext(y, w))
	case OSle:
		return b2u(sext(x, w) <= sext(y, w))
	}
	panic("evalOp")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func isCmp(op Op) bool { return op >= OUlt && op <= OSle }

func (ts *Terms) Bin(op Op, a, b *Term) *Term {
	if op == OEq {
		return ts.Eq(a, b)
	}
	w := a.w
	if a.op == OConst && b.op == OConst {
		r := evalOp(op, w, a.val, b.val)
		if isCmp(op) {
			return ts.Bool(r != 0)
		}
		return ts.Const(r, w)
	}
	switch op {
	case OAdd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.val == 0 {
				return a
			}
			if a.op == OAdd && a.b.op == OConst {
				return ts.Bin(OAdd, a.a, ts.Const(a.b.val+b.val, w))
			}
			if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
				return ts.Ite(a.a, ts.Bin(op, a.b, b), ts.Bin(op, a.c, b))
			}
		}
	case OSub:
		if b.op == OConst {
			return ts.Bin(OAdd, a, ts.Const(-b.val, w))
		}
		if a == b {
			return ts.Const(0, w)
		}
	case OMul:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		}
	case OBvand:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			if b.val&(b.val+1) == 0 && ub(a) <= b.val {
				return a
			}
		}
		if a == b {
			return a
		}
	case OBvor, OBvxor:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && b.val == 0 {
			return a
		}
	case OShl, OLshr, OAshr:
		if b.op == OConst && b.val == 0 {
			return a
		}
		if op == OLshr && b.op == OConst && (b.val >= uint64(w) || ub(a)>>b.val == 0) {
			return ts.Const(0, w)
		}
	case OUlt:
		if a == b {
			return ts.ff
		}
		if b.op == OConst {
			if ub(a) < b.val {
				return ts.tt
			}
			if b.val == 0 {
				return ts.ff
			}
			if a.op == OZext {
				if b.val > mask(a.a.w) {
					return ts.tt
				}
				return ts.Bin(OUlt, a.a, ts.Const(b.val, a.a.w))
			}
			if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
				return ts.Ite(a.a, ts.Bin(op, a.b, b), ts.Bin(op, a.c, b))
			}
		}
		if a.op == OConst {
			if ub(b) <= a.val {
				return ts.ff
			}
			if b.op == OZext {
				return ts.Bin(OUlt, ts.Const(a.val, b.a.w), b.a)
			}
		}
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return ts.Bin(OUlt, a.a, b.a)
		}
	case OUle:
		return ts.Not(ts.Bin(OUlt, b, a))
	case OSle:
		return ts.Not(ts.Bin(OSlt, b, a))
	case OSlt:
		if a == b {
			return ts.ff
		}
		half := mask(w) >> 1
		if ub(a) <= half && ub(b) <= half {
			return ts.Bin(OUlt, a, b)
		}
		if b.op == OConst && b.val == 0 && ub(a) <= half {
			return ts.ff
		}
		if a.op == OConst && sext(a.val, w) < 0 && ub(b) <= half {
			return ts.tt
		}
		if b.op == OConst && sext(b.val, w) < 0 && ub(a) <= half {
			return ts.ff
		}
	}
	rw := w
	if isCmp(op) {
		rw = 0
	}
	return ts.mk(op, rw, a, b, nil, 0, "")
}

func (ts *Terms) BvNot(a *Term) *Term {
	if a.op == OConst {
		return ts.Const(^a.val, a.w)
	}
	return ts.mk(OBvnot, a.w, a, nil, nil, 0, "")
}

func (ts *Terms) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return ts.Const(a.val, w)
	}
	if a.op == OZext {
		return ts.Zext(a.a, w)
	}
	return ts.mk(OZext, w, a, nil, nil, 0, "")
}
func (ts *Terms) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return ts.Const(uint64(sext(a.val, a.w)), w)
	}
	if ub(a) <= mask(a.w)>>1 {
		return ts.Zext(a, w)
	}
	return ts.mk(OSext, w, a, nil, nil, 0, "")
}
func (ts *Terms) Trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	switch a.op {
	case OConst:
		return ts.Const(a.val, w)
	case OZext, OSext:
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return ts.Trunc(a.a, w)
		}
		if a.op == OZext {
			return ts.Zext(a.a, w)
		}
		return ts.Sext(a.a, w)
	case OIte:
		if a.b.op == OConst || a.c.op == OConst {
			return ts.Ite(a.a, ts.Trunc(a.b, w), ts.Trunc(a.c, w))
		}
	}
	return ts.mk(OExtract, w, a, nil, nil, uint64(w-1)<<8, "")
}

// eval evaluates t under the model (missing variables are 0).
type Model map[string]uint64

var evCounter int32

func (ts *Terms) eval(t *Term, m Model, gen int32) uint64 {
	if t.op == OConst {
		return t.val
	}
	if t.evGen == gen {
		return t.evVal
	}
	var v uint64
	switch t.op {
	case OVar:
		v = m[t.name] & mask8(t.w)
	case ONot:
		v = 1 - ts.eval(t.a, m, gen)
	case OAnd:
		v = ts.eval(t.a, m, gen)
		if v != 0 {
			v = ts.eval(t.b, m, gen)
		}
	case OEq:
		v = b2u(ts.eval(t.a, m, gen) == ts.eval(t.b, m, gen))
	case OIte:
		if ts.eval(t.a, m, gen) != 0 {
			v = ts.eval(t.b, m, gen)
		} else {
			v = ts.eval(t.c, m, gen)
		}
	case OBvnot:
		v = ^ts.eval(t.a, m, gen) & mask(t.w)
	case OZext:
		v = ts.eval(t.a, m, gen)
	case OSext:
		v = uint64(sext(ts.eval(t.a, m, gen), t.a.w)) & mask(t.w)
	case OExtract:
		v = ts.eval(t.a, m, gen) & mask(t.w)
	default:
		v = evalOp(t.op, t.a.w, ts.eval(t.a, m, gen), ts.eval(t.b, m, gen))
	}
	t.evGen, t.evVal = gen, v
	return v
}

func mask8(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return fmt.Sprint(t.val != 0)
		}
		return fmt.Sprintf("%d", t.val)
	case OVar:
		return t.name
	}
	if d == 0 {
		return fmt.Sprintf("t%d", t.id)
	}
	var sb strings.Builder
	switch t.op {
	case OZext, OSext, OExtract:
		return t.a.str(d)
	}
	sb.WriteString("(" + opNames[t.op])
	for _, k := range []*Term{t.a, t.b, t.c} {
		if k != nil {
			sb.WriteString(" " + k.str(d-1))
		}
	}
	sb.WriteString(")")
	return sb.String()
}
