package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Representation of target values:
//
//	integers      uint64 (masked to the type's width) or *Term
//	bool          bool or *Term (w==0)
//	floats        float64
//	strings       string or *SymStr
//	pointers      *Value (nil pointer = (*Value)(nil)), or *SymPtr (element selected by a symbolic index)
//	structs       Struct, arrays Array, slices Slice (shares backing with Go slices of Value)
//	maps          *Map, channels *Chan, interfaces Iface, funcs *Closure
//	tuples        Tuple
type Value = any
type Struct []Value
type Array []Value
type Slice []Value
type Tuple []Value

// A lazy string (lz != nil) is computed when it is first inspected: messages built from
// symbolic text are mostly never looked at.
type SymStr struct {
	bb []Value
	lz func() Value
}

func (s *SymStr) bytes() []Value {
	if s.lz != nil {
		f := s.lz
		s.lz = nil
		s.bb = strBytes(f())
	}
	return s.bb
}

func isLazy(v Value) bool {
	s, ok := v.(*SymStr)
	return ok && s.lz != nil
}

type SymPtr struct {
	arr []Value
	idx *Term
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn     *ssa.Function
	binds  []Value
	native func(w *Worker, args []Value) Value
}

type Poison struct{ why string }

// Opaque wraps a host object stored in target memory.
type Opaque struct{ v any }

type ment struct {
	k, v Value
	live bool
}

type Map struct {
	idx   map[any]int // canonical concrete key -> entry
	ents  []ment
	n     int
	nsym  int
	epoch int64
}

func newMap(epoch int64) *Map { return &Map{idx: map[any]int{}, epoch: epoch} }

func (m *Map) clone() *Map {
	c := &Map{idx: make(map[any]int, len(m.idx)), ents: append([]ment(nil), m.ents...), n: m.n, nsym: m.nsym, epoch: m.epoch}
	for k, v := range m.idx {
		c.idx[k] = v
	}
	return c
}

type ifKey struct {
	t string
	k any
}

// canonKey returns a host-comparable key for a fully concrete value.
func (w *Worker) canonKey(v Value) (any, bool) {
	switch x := v.(type) {
	case uint64, bool, string, float64, *Value, *Map, *Chan:
		return x, true
	case *Closure:
		return x, true
	case *Term:
		return nil, false
	case *SymStr:
		return nil, false
	case Iface:
		if x.t == nil {
			return ifKey{}, true
		}
		k, ok := w.canonKey(x.v)
		return ifKey{w.typeKey(x.t), k}, ok
	case Struct:
		return w.canonSeq([]Value(x))
	case Array:
		return w.canonSeq([]Value(x))
	case Opaque:
		return x, true
	}
	panic(unsupported("map key %T", v))
}

func (w *Worker) canonSeq(xs []Value) (any, bool) {
	var sb strings.Builder
	for _, e := range xs {
		k, ok := w.canonKey(e)
		if !ok {
			return nil, false
		}
		fmt.Fprintf(&sb, "%T:%v\x00", k, k)
	}
	return sb.String(), true
}

type intKind struct {
	w      uint8
	signed bool
}

func basicInt(t types.Type) (intKind, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return intKind{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return intKind{64, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intKind{64, false}, true
	case types.Int32, types.UntypedRune:
		return intKind{32, true}, true
	case types.Uint32:
		return intKind{32, false}, true
	case types.Int16:
		return intKind{16, true}, true
	case types.Uint16:
		return intKind{16, false}, true
	case types.Int8:
		return intKind{8, true}, true
	case types.Uint8:
		return intKind{8, false}, true
	}
	return intKind{}, false
}

func (w *Worker) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return uint64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		case u.Info()&types.IsString != 0:
			return ""
		}
		return nil
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = w.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(u.Len())
		if n > 1<<22 {
			panic(unsupported("array of %d elements", n))
		}
		a := make(Array, n)
		if n > 0 {
			z := w.zero(u.Elem())
			for i := range a {
				a[i] = copyVal(z)
			}
		}
		return a
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = w.zero(u.At(i).Type())
		}
		return tp
	}
	panic(unsupported("zero of %s", t))
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		c := make(Struct, len(x))
		for i, e := range x {
			c[i] = copyVal(e)
		}
		return c
	case Array:
		c := make(Array, len(x))
		for i, e := range x {
			c[i] = copyVal(e)
		}
		return c
	}
	return v
}

type undo struct {
	p   *Value
	old Value
	m   *Map
	ms  *Map
}

func (w *Worker) set(p *Value, v Value) {
	if w.journalOn {
		w.journal = append(w.journal, undo{p: p, old: *p})
	}
	*p = v
}

func (w *Worker) store(p *Value, v Value) {
	if p == nil {
		w.nilDeref()
	}
	switch x := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(x) {
			for i := range x {
				w.store(&d[i], x[i])
			}
			return
		}
		v = copyVal(v)
	case Array:
		if d, ok := (*p).(Array); ok && len(d) == len(x) {
			for i := range x {
				w.store(&d[i], x[i])
			}
			return
		}
		v = copyVal(v)
	}
	if w.race != nil {
		w.race.write(w, p)
	}
	w.set(p, v)
}

func (w *Worker) load(p *Value) Value {
	if p == nil {
		w.nilDeref()
	}
	if w.race != nil {
		w.race.readDeep(w, p)
	}
	return copyVal(*p)
}

func (w *Worker) mapTouch(m *Map) {
	if w.race != nil {
		w.race.mapWrite(w, m)
	}
	if w.journalOn && m.epoch != w.epoch {
		w.journal = append(w.journal, undo{m: m, ms: m.clone()})
		m.epoch = w.epoch
	}
}

func (w *Worker) rollback() {
	for i := len(w.journal) - 1; i >= 0; i-- {
		u := w.journal[i]
		if u.m != nil {
			*u.m = *u.ms
		} else {
			*u.p = u.old
		}
	}
	w.journal = w.journal[:0]
}

// ---- maps ----

func (w *Worker) mapFind(m *Map, k Value) int {
	if m == nil {
		return -1
	}
	if w.race != nil {
		w.race.mapRead(w, m)
	}
	ck, conc := w.canonKey(k)
	if conc {
		if i, ok := m.idx[ck]; ok {
			return i
		}
		if m.nsym == 0 {
			return -1
		}
	}
	for i := range m.ents {
		e := &m.ents[i]
		if !e.live {
			continue
		}
		if conc {
			if _, c2 := w.canonKey(e.k); c2 {
				continue
			}
		}
		if w.branchV(w.equal(e.k, k)) {
			return i
		}
	}
	return -1
}

func (w *Worker) mapSet(m *Map, k, v Value) {
	if m == nil {
		w.runtimePanic("assignment to entry in nil map")
	}
	i := w.mapFind(m, k)
	w.mapTouch(m)
	if i >= 0 {
		m.ents[i].v = v
		return
	}
	m.ents = append(m.ents, ment{k, v, true})
	m.n++
	if ck, ok := w.canonKey(k); ok {
		m.idx[ck] = len(m.ents) - 1
	} else {
		m.nsym++
	}
}

func (w *Worker) mapDelete(m *Map, k Value) {
	if m == nil {
		return
	}
	i := w.mapFind(m, k)
	if i < 0 {
		return
	}
	w.mapTouch(m)
	e := &m.ents[i]
	e.live = false
	m.n--
	if ck, ok := w.canonKey(e.k); ok {
		delete(m.idx, ck)
	} else {
		m.nsym--
	}
}

func (m *Map) liveIdx() []int {
	var r []int
	for i := range m.ents {
		if m.ents[i].live {
			r = append(r, i)
		}
	}
	return r
}

// ---- strings ----

func mkStr(b []Value) Value {
	for _, x := range b {
		if _, ok := x.(*Term); ok {
			return &SymStr{bb: b}
		}
	}
	r := make([]byte, len(b))
	for i, x := range b {
		r[i] = byte(x.(uint64))
	}
	return string(r)
}

func strLen(v Value) int {
	switch x := v.(type) {
	case string:
		return len(x)
	case *SymStr:
		return len(x.bytes())
	}
	panic(unsupported("string value %T", v))
}

func strBytes(v Value) []Value {
	switch x := v.(type) {
	case string:
		r := make([]Value, len(x))
		for i := 0; i < len(x); i++ {
			r[i] = uint64(x[i])
		}
		return r
	case *SymStr:
		return x.bytes()
	}
	panic(unsupported("string value %T", v))
}

func strAt(v Value, i int) Value {
	switch x := v.(type) {
	case string:
		return uint64(x[i])
	case *SymStr:
		return x.bytes()[i]
	}
	panic(unsupported("string value %T", v))
}

func strSlice(v Value, lo, hi int) Value {
	switch x := v.(type) {
	case string:
		return x[lo:hi]
	case *SymStr:
		return mkStr(x.bytes()[lo:hi:hi])
	}
	panic(unsupported("string value %T", v))
}

func strConcat(a, b Value) Value {
	as, ok1 := a.(string)
	bs, ok2 := b.(string)
	if ok1 && ok2 {
		return as + bs
	}
	if ok1 && as == "" {
		return b
	}
	if isLazy(a) || isLazy(b) {
		if ok2 && bs == "" {
			return a
		}
		return &SymStr{lz: func() Value { return strConcat(mkStr(strBytes(a)), mkStr(strBytes(b))) }}
	}
	if ok2 && bs == "" {
		return a
	}
	x, y := strBytes(a), strBytes(b)
	r := make([]Value, 0, len(x)+len(y))
	r = append(r, x...)
	r = append(r, y...)
	return mkStr(r)
}

func isConcStr(v Value) bool { _, ok := v.(string); return ok }

// term converts a scalar value to a term of width w.
func (w *Worker) term(v Value, width uint8) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case uint64:
		return w.ts.Const(x, width)
	case bool:
		return w.ts.Bool(x)
	}
	panic(unsupported("term of %T", v))
}

func (w *Worker) fromTerm(t *Term) Value {
	if t.op == OConst {
		if t.w == 0 {
			return t.val != 0
		}
		return t.val
	}
	return t
}

func (w *Worker) andV(a, b Value) Value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if !y {
			return false
		}
		return a
	}
	return w.fromTerm(w.ts.And(a.(*Term), b.(*Term)))
}

func (w *Worker) notV(a Value) Value {
	if x, ok := a.(bool); ok {
		return !x
	}
	return w.fromTerm(w.ts.Not(a.(*Term)))
}

func (w *Worker) orV(a, b Value) Value { return w.notV(w.andV(w.notV(a), w.notV(b))) }

// equal returns bool or *Term.
func (w *Worker) equal(x, y Value) Value {
	switch a := x.(type) {
	case uint64:
		switch b := y.(type) {
		case uint64:
			return a == b
		case *Term:
			return w.fromTerm(w.ts.Eq(w.ts.Const(a, b.w), b))
		}
	case *Term:
		switch b := y.(type) {
		case *Term:
			return w.fromTerm(w.ts.Eq(a, b))
		case uint64:
			return w.fromTerm(w.ts.Eq(a, w.ts.Const(b, a.w)))
		case bool:
			return w.fromTerm(w.ts.Eq(a, w.ts.Bool(b)))
		}
	case bool:
		switch b := y.(type) {
		case bool:
			return a == b
		case *Term:
			return w.fromTerm(w.ts.Eq(w.ts.Bool(a), b))
		}
	case float64:
		return a == y.(float64)
	case complex128:
		return a == y.(complex128)
	case string, *SymStr:
		if as, ok := x.(string); ok {
			if bs, ok := y.(string); ok {
				return as == bs
			}
		}
		n := strLen(x)
		if n != strLen(y) {
			return false
		}
		var r Value = true
		for i := 0; i < n; i++ {
			r = w.andV(r, w.equal(strAt(x, i), strAt(y, i)))
			if r == false {
				return false
			}
		}
		return r
	case *Value:
		b, ok := y.(*Value)
		return ok && a == b
	case *Map:
		return a == y.(*Map)
	case *Chan:
		return a == y.(*Chan)
	case *Closure:
		b := y.(*Closure)
		if a == nil || b == nil {
			return a == b
		}
		return a == b
	case Slice:
		return a == nil && y.(Slice) == nil
	case Iface:
		b := y.(Iface)
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if !w.sameType(a.t, b.t) {
			return false
		}
		if !types.Comparable(a.t) {
			w.runtimePanic("comparing uncomparable type " + a.t.String())
		}
		return w.equal(a.v, b.v)
	case Struct:
		b := y.(Struct)
		var r Value = true
		for i := range a {
			r = w.andV(r, w.equal(a[i], b[i]))
			if r == false {
				return false
			}
		}
		return r
	case Array:
		b := y.(Array)
		var r Value = true
		for i := range a {
			r = w.andV(r, w.equal(a[i], b[i]))
			if r == false {
				return false
			}
		}
		return r
	case Opaque:
		b, ok := y.(Opaque)
		return ok && a == b
	case *SymPtr:
		return x == y
	case Poison:
		panic(unsupported("poison: %s", a.why))
	}
	panic(unsupported("equal %T %T", x, y))
}

// less returns x<y for strings as bool/Term.
func (w *Worker) strLess(x, y Value) Value {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return a < b
		}
	}
	n, m := strLen(x), strLen(y)
	var r Value = n < m
	k := min(n, m)
	for i := k - 1; i >= 0; i-- {
		a, b := w.term(strAt(x, i), 8), w.term(strAt(y, i), 8)
		lt := w.ts.Bin(OUlt, a, b)
		eq := w.ts.Eq(a, b)
		r = w.fromTerm(w.ts.Ite(lt, w.ts.tt, w.ts.Ite(eq, w.term(r, 0), w.ts.ff)))
	}
	return r
}

// show renders a value for messages.
func show(v Value) string { return showD(v, 3) }

func showD(v Value, d int) string {
	if d == 0 {
		return "…"
	}
	switch x := v.(type) {
	case nil:
		return "nil"
	case string:
		return fmt.Sprintf("%q", x)
	case *SymStr:
		var sb strings.Builder
		sb.WriteByte('"')
		for _, b := range x.bytes() {
			if u, ok := b.(uint64); ok {
				s := fmt.Sprintf("%q", string([]byte{byte(u)}))
				sb.WriteString(s[1 : len(s)-1])
			} else {
				sb.WriteString("<" + b.(*Term).str(2) + ">")
			}
		}
		sb.WriteByte('"')
		return sb.String()
	case uint64:
		return fmt.Sprint(int64(x))
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return x.t.String() + "(" + showD(x.v, d-1) + ")"
	case Struct:
		var p []string
		for _, e := range x {
			p = append(p, showD(e, d-1))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case Slice:
		var p []string
		for _, e := range x {
			p = append(p, showD(e, d-1))
		}
		return "[" + strings.Join(p, ", ") + "]"
	case *Value:
		if x == nil {
			return "nil"
		}
		return "&" + showD(*x, d-1)
	case *Map:
		if x == nil {
			return "nil"
		}
		var p []string
		for _, i := range x.liveIdx() {
			p = append(p, showD(x.ents[i].k, d-1)+":"+showD(x.ents[i].v, d-1))
		}
		sort.Strings(p)
		return "map[" + strings.Join(p, " ") + "]"
	}
	return fmt.Sprintf("%v", v)
}
