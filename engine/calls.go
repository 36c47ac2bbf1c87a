package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// prepCall evaluates callee and arguments (for go and defer).
func (w *Worker) prepCall(c *fnCode, call *ssa.CallCommon) func(f *Frame) (Value, []Value, func()) {
	var as []opnd
	for _, a := range call.Args {
		as = append(as, w.opnd(c, a))
	}
	eval := func(f *Frame, extra int) []Value {
		args := make([]Value, len(as)+extra)
		for i, a := range as {
			args[i+extra] = f.get(a)
		}
		return args
	}
	if call.IsInvoke() {
		recv := w.opnd(c, call.Value)
		m := call.Method
		return func(f *Frame) (Value, []Value, func()) {
			i, ok := f.get(recv).(Iface)
			if !ok {
				panic(unsupported("invoke on %s", show(f.get(recv))))
			}
			if i.t == nil {
				f.w.nilDeref()
			}
			fn := f.w.method(i.t, m)
			args := eval(f, 1)
			args[0] = i.v
			return &Closure{fn: fn}, args, nil
		}
	}
	if b, ok := call.Value.(*ssa.Builtin); ok {
		bf := w.builtin(b, call)
		return func(f *Frame) (Value, []Value, func()) {
			args := eval(f, 0)
			return nil, nil, func() { bf(f, args) }
		}
	}
	fv := w.opnd(c, call.Value)
	return func(f *Frame) (Value, []Value, func()) { return f.get(fv), eval(f, 0), nil }
}

func (w *Worker) compileCall(c *fnCode, call *ssa.CallCommon, dst int32) func(f *Frame) {
	var as []opnd
	for _, a := range call.Args {
		as = append(as, w.opnd(c, a))
	}
	n := len(as)
	if call.IsInvoke() {
		recv := w.opnd(c, call.Value)
		m := call.Method
		return func(f *Frame) {
			i, ok := f.get(recv).(Iface)
			if !ok {
				panic(unsupported("invoke %s on %s", m.Name(), show(f.get(recv))))
			}
			if i.t == nil {
				f.w.nilDeref()
			}
			fn := f.w.method(i.t, m)
			if fn == nil {
				panic(unsupported("no method %s on %s", m.Name(), i.t))
			}
			args := make([]Value, n+1)
			args[0] = i.v
			for k, a := range as {
				args[k+1] = f.get(a)
			}
			f.regs[dst] = f.w.callCode(f.w.codeFor(fn), args, nil, f, nil)
		}
	}
	switch v := call.Value.(type) {
	case *ssa.Builtin:
		bf := w.builtin(v, call)
		return func(f *Frame) {
			var buf [4]Value
			args := buf[:0]
			for _, a := range as {
				args = append(args, f.get(a))
			}
			f.regs[dst] = bf(f, args)
		}
	case *ssa.Function:
		var code *fnCode
		var owner *Worker
		return func(f *Frame) {
			if code == nil || owner != f.w {
				code = f.w.codeFor(v)
				owner = f.w
			}
			args := make([]Value, n)
			for k, a := range as {
				args[k] = f.get(a)
			}
			f.regs[dst] = f.w.callCode(code, args, nil, f, nil)
		}
	}
	fv := w.opnd(c, call.Value)
	return func(f *Frame) {
		args := make([]Value, n)
		for k, a := range as {
			args[k] = f.get(a)
		}
		f.regs[dst] = f.w.callValue(f, f.get(fv), args, nil)
	}
}

var sizes = types.SizesFor("gc", "amd64")

func (w *Worker) builtin(b *ssa.Builtin, call *ssa.CallCommon) func(f *Frame, args []Value) Value {
	switch b.Name() {
	case "len":
		return func(f *Frame, a []Value) Value {
			switch x := a[0].(type) {
			case string, *SymStr:
				return uint64(strLen(x))
			case Slice:
				return uint64(len(x))
			case Array:
				return uint64(len(x))
			case *Map:
				if x == nil {
					return uint64(0)
				}
				if f.w.race != nil {
					f.w.race.mapRead(f.w, x)
				}
				return uint64(x.n)
			case *Value:
				return uint64(len((*x).(Array)))
			case *Chan:
				if x == nil {
					return uint64(0)
				}
				return uint64(len(x.buf))
			case Poison:
				panic(unsupported("poison: %s", x.why))
			}
			panic(unsupported("len %T", a[0]))
		}
	case "cap":
		return func(f *Frame, a []Value) Value {
			switch x := a[0].(type) {
			case Slice:
				return uint64(cap(x))
			case Array:
				return uint64(len(x))
			case *Value:
				return uint64(len((*x).(Array)))
			case *Chan:
				return uint64(x.cap)
			}
			panic(unsupported("cap %T", a[0]))
		}
	case "append":
		st, ok := call.Args[0].Type().Underlying().(*types.Slice)
		if !ok {
			panic(unsupported("append to %s", call.Args[0].Type()))
		}
		es := sizes.Sizeof(st.Elem())
		return func(f *Frame, a []Value) Value {
			s, ok := a[0].(Slice)
			if !ok {
				panic(unsupported("append to %T", a[0]))
			}
			var add []Value
			switch x := a[1].(type) {
			case Slice:
				add = x
			case string, *SymStr:
				add = strBytes(x)
			default:
				panic(unsupported("append of %T", a[1]))
			}
			if f.w.race != nil {
				for i := range add {
					if _, isS := a[1].(Slice); isS {
						f.w.race.readDeep(f.w, &add[i])
					}
				}
			}
			return f.w.appendSlice(s, add, es)
		}
	case "copy":
		return func(f *Frame, a []Value) Value {
			d := a[0].(Slice)
			var src []Value
			switch x := a[1].(type) {
			case Slice:
				src = x
			case string, *SymStr:
				src = strBytes(x)
			}
			n := min(len(d), len(src))
			tmp := make([]Value, n)
			copy(tmp, src[:n])
			for i := 0; i < n; i++ {
				f.w.store(&d[i], copyVal(tmp[i]))
			}
			return uint64(n)
		}
	case "delete":
		return func(f *Frame, a []Value) Value {
			m, _ := a[0].(*Map)
			f.w.mapDelete(m, a[1])
			return nil
		}
	case "clear":
		return func(f *Frame, a []Value) Value {
			switch x := a[0].(type) {
			case *Map:
				if x != nil {
					f.w.mapTouch(x)
					x.idx = map[any]int{}
					x.ents = nil
					x.n, x.nsym = 0, 0
				}
			case Slice:
				z := f.w.zero(call.Args[0].Type().Underlying().(*types.Slice).Elem())
				for i := range x {
					f.w.store(&x[i], copyVal(z))
				}
			}
			return nil
		}
	case "close":
		return func(f *Frame, a []Value) Value { f.w.chanClose(a[0].(*Chan)); return nil }
	case "panic":
		return func(f *Frame, a []Value) Value { panic(targetPanic{a[0]}) }
	case "recover":
		return func(f *Frame, a []Value) Value {
			d := f.deferOf
			if d != nil && d.panicking {
				if tp, ok := d.panicVal.(targetPanic); ok {
					d.panicking = false
					return tp.v
				}
			}
			return Iface{}
		}
	case "print", "println":
		return func(f *Frame, a []Value) Value { return nil }
	case "min", "max":
		isMin := b.Name() == "min"
		t := call.Args[0].Type()
		ik, isInt := basicInt(t)
		return func(f *Frame, a []Value) Value {
			r := a[0]
			for _, y := range a[1:] {
				switch {
				case isInt:
					u1, ok1 := r.(uint64)
					u2, ok2 := y.(uint64)
					if ok1 && ok2 {
						lt := u1 < u2
						if ik.signed {
							lt = sext(u1, ik.w) < sext(u2, ik.w)
						}
						if lt != isMin {
							r = y
						}
						continue
					}
					x1, x2 := f.w.term(r, ik.w), f.w.term(y, ik.w)
					op := OUlt
					if ik.signed {
						op = OSlt
					}
					c := f.w.ts.Bin(op, x1, x2)
					if !isMin {
						c = f.w.ts.Bin(op, x2, x1)
					}
					// decided rather than merged: nested ites make later queries slow
					if !f.w.branchV(f.w.fromTerm(c)) {
						r = y
					}
				default:
					switch v := r.(type) {
					case float64:
						if (y.(float64) < v) == isMin {
							r = y
						}
					case string, *SymStr:
						if f.w.branchV(f.w.strLess(y, v)) == isMin {
							r = y
						}
					}
				}
			}
			return r
		}
	case "ssa:wrapnilchk":
		return func(f *Frame, a []Value) Value {
			if p, ok := a[0].(*Value); ok && p == nil {
				f.w.nilDeref()
			}
			return a[0]
		}
	case "real":
		return func(f *Frame, a []Value) Value { return real(a[0].(complex128)) }
	case "imag":
		return func(f *Frame, a []Value) Value { return imag(a[0].(complex128)) }
	}
	name := b.Name()
	return func(f *Frame, a []Value) Value { panic(unsupported("builtin %s", name)) }
}

// size classes of the Go runtime (go1.25), used so that append's capacities, and with
// them aliasing between slices, are those of the real program.
var sizeClasses = []int64{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(oldCap, newLen int, es int64) int {
	nc := oldCap
	dbl := nc + nc
	if newLen > dbl {
		nc = newLen
	} else if oldCap < 256 {
		nc = dbl
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	if es == 0 {
		return newLen
	}
	sz := int64(nc) * es
	for _, c := range sizeClasses {
		if sz <= c {
			return int(c / es)
		}
	}
	return int((sz + 8191) / 8192 * 8192 / es)
}

func (w *Worker) appendSlice(s Slice, add []Value, es int64) Slice {
	if len(add) == 0 {
		return s
	}
	n := len(s) + len(add)
	if n <= cap(s) {
		r := s[:n]
		tmp := make([]Value, len(add))
		for i := range add {
			tmp[i] = copyVal(add[i])
		}
		for i := range tmp {
			p := &r[len(s)+i]
			if w.race != nil {
				w.race.write(w, p)
			}
			w.set(p, tmp[i])
		}
		return r
	}
	c := growCap(cap(s), n, es)
	if c < n {
		c = n
	}
	r := make(Slice, c)
	for i := range s {
		r[i] = copyVal(s[i])
	}
	for i := range add {
		r[len(s)+i] = copyVal(add[i])
	}
	// spare capacity holds zero values of the element type
	if c > n {
		var z Value
		if len(r) > 0 {
			z = zeroLike(r[0])
		}
		for i := n; i < c; i++ {
			r[i] = copyVal(z)
		}
	}
	return r[:n]
}

func zeroLike(v Value) Value {
	switch x := v.(type) {
	case uint64:
		return uint64(0)
	case *Term:
		if x.w == 0 {
			return false
		}
		return uint64(0)
	case bool:
		return false
	case float64:
		return float64(0)
	case complex128:
		return complex128(0)
	case string, *SymStr:
		return ""
	case *Value, *SymPtr:
		return (*Value)(nil)
	case Slice:
		return Slice(nil)
	case *Map:
		return (*Map)(nil)
	case *Chan:
		return (*Chan)(nil)
	case *Closure:
		return (*Closure)(nil)
	case Iface:
		return Iface{}
	case Struct:
		r := make(Struct, len(x))
		for i := range x {
			r[i] = zeroLike(x[i])
		}
		return r
	case Array:
		r := make(Array, len(x))
		for i := range x {
			r[i] = zeroLike(x[i])
		}
		return r
	}
	return nil
}

// ---- channels ----

type Chan struct {
	cap    int
	buf    []Value
	closed bool
	sendq  []*sendItem
	recvW  int
}

type sendItem struct {
	v     Value
	taken bool
}

func (w *Worker) chanSend(c *Chan, v Value) {
	if c == nil {
		w.block("send on nil channel", func() bool { return false })
	}
	w.yieldBab("send")
	if c.closed {
		panic(targetPanic{Iface{w.p.runtimeError, "send on closed channel"}})
	}
	w.rel(c)
	if c.cap > 0 {
		w.block("channel send", func() bool { return len(c.buf) < c.cap || c.closed })
		if c.closed {
			panic(targetPanic{Iface{w.p.runtimeError, "send on closed channel"}})
		}
		w.acq(c)
		w.rel(c)
		c.buf = append(c.buf, v)
		return
	}
	it := &sendItem{v: v}
	c.sendq = append(c.sendq, it)
	w.block("channel send", func() bool { return it.taken || c.closed })
	w.acq(c)
}

func (c *Chan) recvReady() bool { return len(c.buf) > 0 || len(c.sendq) > 0 || c.closed }

func (w *Worker) doRecv(c *Chan) (Value, bool) {
	w.acq(c)
	w.rel(c)
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]Value(nil), c.buf[1:]...)
		return v, true
	}
	if len(c.sendq) > 0 {
		it := c.sendq[0]
		c.sendq = append([]*sendItem(nil), c.sendq[1:]...)
		it.taken = true
		return it.v, true
	}
	return nil, false
}

func (w *Worker) chanRecv(c *Chan) (Value, bool) {
	if c == nil {
		w.block("receive on nil channel", func() bool { return false })
	}
	w.yieldBab("recv")
	c.recvW++
	w.block("channel receive", c.recvReady)
	c.recvW--
	return w.doRecv(c)
}

func (w *Worker) chanClose(c *Chan) {
	if c == nil || c.closed {
		panic(targetPanic{Iface{w.p.runtimeError, "close of nil or closed channel"}})
	}
	w.rel(c)
	c.closed = true
	w.yieldBab("close")
}

func (w *Worker) compileSelect(c *fnCode, x *ssa.Select, dst int32) func(f *Frame) {
	type st struct {
		ch, v opnd
		send  bool
		z     Value
	}
	var ss []st
	for _, s := range x.States {
		o := st{ch: w.opnd(c, s.Chan), send: s.Dir == types.SendOnly}
		if o.send {
			o.v = w.opnd(c, s.Send)
		} else {
			o.z = w.zero(s.Chan.Type().Underlying().(*types.Chan).Elem())
		}
		ss = append(ss, o)
	}
	blocking := x.Blocking
	return func(f *Frame) {
		w := f.w
		chans := make([]*Chan, len(ss))
		for i, s := range ss {
			chans[i], _ = f.get(s.ch).(*Chan)
		}
		w.yieldBab("select")
		ready := func() []int {
			var r []int
			for i, s := range ss {
				ch := chans[i]
				if ch == nil {
					continue
				}
				if s.send {
					if ch.closed || (ch.cap > 0 && len(ch.buf) < ch.cap) || (ch.cap == 0 && ch.recvW > len(ch.sendq)) {
						r = append(r, i)
					}
				} else if ch.recvReady() {
					r = append(r, i)
				}
			}
			return r
		}
		rd := ready()
		if len(rd) == 0 {
			if !blocking {
				f.regs[dst] = selResult(-1, false, nil, len(ss), ss2z(ss, func(s st) (bool, Value) { return s.send, s.z }))
				return
			}
			for i, s := range ss {
				if !s.send && chans[i] != nil {
					chans[i].recvW++
				}
			}
			w.block("select", func() bool { return len(ready()) > 0 })
			for i, s := range ss {
				if !s.send && chans[i] != nil {
					chans[i].recvW--
				}
			}
			rd = ready()
		}
		k := rd[0]
		if len(rd) > 1 {
			k = rd[w.choose("select", len(rd), "sched")]
		}
		s := ss[k]
		ch := chans[k]
		zs := ss2z(ss, func(s st) (bool, Value) { return s.send, s.z })
		if s.send {
			if ch.closed {
				panic(targetPanic{Iface{w.p.runtimeError, "send on closed channel"}})
			}
			w.acq(ch)
			w.rel(ch)
			v := f.get(s.v)
			if ch.cap > 0 {
				ch.buf = append(append([]Value(nil), ch.buf...), v)
			} else {
				ch.sendq = append(ch.sendq, &sendItem{v: v})
			}
			f.regs[dst] = selResult(k, false, nil, len(ss), zs)
			return
		}
		v, ok := w.doRecv(ch)
		if !ok {
			v = s.z
		}
		// position among the receive states
		pos := 0
		for i := 0; i < k; i++ {
			if !ss[i].send {
				pos++
			}
		}
		r := selResult(k, ok, nil, len(ss), zs)
		r[2+pos] = v
		f.regs[dst] = r
	}
}

func ss2z[T any](ss []T, g func(T) (bool, Value)) []Value {
	var zs []Value
	for _, s := range ss {
		if send, z := g(s); !send {
			zs = append(zs, z)
		}
	}
	return zs
}

func selResult(k int, ok bool, _ Value, n int, zs []Value) Tuple {
	t := Tuple{uint64(int64(k)), ok}
	return append(t, zs...)
}

// ---- iteration ----

type strIter struct {
	s Value
	i int
}

type mapIter struct {
	m      *Map
	todo   []int
	nondet bool
	k      int
	n0     int
}

func (w *Worker) rangeStart(v Value, nondet bool) Value {
	switch x := v.(type) {
	case string, *SymStr:
		return &strIter{s: x}
	case *Map:
		if x == nil {
			return &mapIter{}
		}
		if w.race != nil {
			w.race.mapRead(w, x)
		}
		li := x.liveIdx()
		return &mapIter{m: x, todo: li, nondet: nondet && w.mapOrder && w.inInit == 0, n0: len(li)}
	case Poison:
		panic(unsupported("poison: %s", x.why))
	}
	panic(unsupported("range over %T", v))
}

// mapNext picks the next entry. With nondeterministic order every permutation is explored
// for up to 3 entries; beyond that every choice of the first two, the rest in insertion order.
func (w *Worker) mapNext(it *mapIter) Value {
	for len(it.todo) > 0 {
		j := 0
		if it.nondet && len(it.todo) > 1 && (it.n0 <= 3 || it.k < 2) {
			j = w.mapPick(it)
		}
		it.k++
		i := it.todo[j]
		td := append([]int(nil), it.todo[:j]...)
		it.todo = append(td, it.todo[j+1:]...)
		if w.race != nil {
			w.race.mapRead(w, it.m)
		}
		if i < len(it.m.ents) && it.m.ents[i].live {
			e := it.m.ents[i]
			return Tuple{true, e.k, e.v}
		}
	}
	return Tuple{false, nil, nil}
}

// mapPick chooses the next entry; with mapSame, maps with the same (concrete) keys are all
// walked in one chosen order.
func (w *Worker) mapPick(it *mapIter) int {
	if !w.mapSame {
		return w.choose("maporder", len(it.todo), "maporder")
	}
	keys := make([]string, len(it.todo))
	for i, t := range it.todo {
		s, ok := it.m.ents[t].k.(string)
		if !ok { // a symbolic key: maps of the same size are walked alike
			at := fmt.Sprintf("%d/%d", len(it.todo), it.n0)
			k, ok := w.mapPicks[at]
			if !ok {
				k = strconv.Itoa(w.choose("maporder", len(it.todo), "maporder"))
				w.mapPicks[at] = k
			}
			n, _ := strconv.Atoi(k)
			return n
		}
		keys[i] = s
	}
	sorted := append([]string(nil), keys...)
	sort.Strings(sorted)
	set := strings.Join(sorted, "\x00")
	first, ok := w.mapPicks[set]
	if !ok {
		first = sorted[w.choose("maporder", len(keys), "maporder")]
		w.mapPicks[set] = first
	}
	for i, k := range keys {
		if k == first {
			return i
		}
	}
	return 0
}
