package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// skipInit lists packages whose initialisers are not run.
var skipInit = map[string]bool{
	"runtime": true, "internal/poll": true, "os/signal": true, "net": true, "internal/runtime/maps": true,
	"internal/godebug": true, "reflect": true, "internal/reflectlite": true, "internal/cpu": true,
	"crypto/tls": true, "crypto/x509": true, "encoding/gob": true, "math/rand": true, "math/rand/v2": true,
}

var intrinsics map[string]intrinsic

const symPkg = zzPath + "/sym."

func argStr(v Value) string {
	s, ok := v.(string)
	if !ok {
		panic(unsupported("symbolic name"))
	}
	return s
}

func (w *Worker) symByte(name, alphabet string) Value {
	if w.fixed != nil {
		v, _ := w.fixed.val(name)
		return v & 0xff
	}
	t := w.newVar(name, 8)
	if alphabet != "" {
		if _, ok := w.model[name]; !ok {
			w.model[name] = uint64(alphabet[0])
		}
		w.alpha[t] = alphabet
		var bm bitmap
		for i := 0; i < len(alphabet); i++ {
			bm[alphabet[i]>>6] |= 1 << (alphabet[i] & 63)
		}
		w.domainPC(w.inSet(t, bm))
		if len(alphabet) == 1 {
			return uint64(alphabet[0])
		}
	}
	return t
}

// inSet builds the membership constraint as ranges.
func (w *Worker) inSet(t *Term, bm bitmap) *Term {
	ts := w.ts
	r := ts.ff
	for lo := 0; lo < 256; lo++ {
		if !bm.has(uint64(lo)) {
			continue
		}
		hi := lo
		for hi+1 < 256 && bm.has(uint64(hi+1)) {
			hi++
		}
		var c *Term
		if lo == hi {
			c = ts.Eq(t, ts.Const(uint64(lo), 8))
		} else {
			c = ts.tt
			if lo > 0 {
				c = ts.And(c, ts.Not(ts.Bin(OUlt, t, ts.Const(uint64(lo), 8))))
			}
			if hi < 255 {
				c = ts.And(c, ts.Not(ts.Bin(OUlt, ts.Const(uint64(hi), 8), t)))
			}
		}
		r = ts.Or(r, c)
		lo = hi
	}
	return r
}

func (w *Worker) concStr(v Value) string {
	switch x := v.(type) {
	case string:
		return x
	case *SymStr:
		b := make([]byte, len(x.bytes()))
		for i, e := range x.bytes() {
			switch y := e.(type) {
			case uint64:
				b[i] = byte(y)
			case *Term:
				b[i] = byte(w.concretize(y))
			}
		}
		return string(b)
	}
	panic(unsupported("concStr %T", v))
}

func (w *Worker) goexitNow() { panic(goexit{}) }

func (w *Worker) curBab(f *Frame) bool {
	c := f.caller
	return c != nil && c.code.bab
}

// field returns a pointer to field i of the struct at p.
func fieldPtr(p Value, i int) *Value {
	s := (*p.(*Value)).(Struct)
	return &s[i]
}

// leaf returns the first scalar cell inside the struct at p.
func leaf(p Value) *Value {
	q, ok := p.(*Value)
	if !ok {
		panic(unsupported("leaf of %T", p))
	}
	for {
		switch x := (*q).(type) {
		case Struct:
			if len(x) == 0 {
				return q
			}
			ok := false
			for i := range x {
				if s, isS := x[i].(Struct); isS && len(s) == 0 {
					continue
				}
				q = &x[i]
				ok = true
				break
			}
			if !ok {
				return q
			}
		case Array:
			q = &x[0]
		default:
			return q
		}
	}
}

// leaves returns all scalar cells of the struct at p in order.
func leaves(p Value) []*Value {
	var r []*Value
	var walk func(q *Value)
	walk = func(q *Value) {
		switch x := (*q).(type) {
		case Struct:
			for i := range x {
				walk(&x[i])
			}
		case Array:
			for i := range x {
				walk(&x[i])
			}
		default:
			r = append(r, q)
		}
	}
	q := p.(*Value)
	if q == nil {
		return nil
	}
	walk(q)
	return r
}

func nilCheck(f *Frame, v Value) {
	if p, ok := v.(*Value); ok && p == nil {
		f.w.nilDeref()
	}
}

func (w *Worker) strErr(msg Value) Value {
	fn := w.p.fn("errors.New")
	if fn == nil {
		panic(unsupported("errors.New not loaded"))
	}
	return w.callFn(fn, []Value{msg}, nil)
}

func ifaceArgs(v Value) []Value {
	s, _ := v.(Slice)
	return s
}

func (w *Worker) byteSlice(v Value) Slice {
	b := strBytes(v)
	r := make(Slice, len(b))
	copy(r, b)
	return r
}

func init() {
	intrinsics = map[string]intrinsic{}
	I := intrinsics
	sym := func(n string, fn intrinsic) { I[symPkg+n] = fn }

	sym("Symbolic", func(f *Frame, a []Value) Value { return true })
	sym("Bool", func(f *Frame, a []Value) Value {
		w := f.w
		n := w.uniq(argStr(a[0]))
		if w.fixed != nil {
			v, _ := w.fixed.val(n)
			w.inputs = append(w.inputs, inputRec{name: n, kind: "bool", conc: v})
			return v != 0
		}
		t := w.newVar(n, 0)
		w.inputs = append(w.inputs, inputRec{name: n, kind: "bool", t: t})
		return t
	})
	sym("Byte", func(f *Frame, a []Value) Value {
		w := f.w
		n := w.uniq(argStr(a[0]))
		v := w.symByte(n, "")
		r := inputRec{name: n, kind: "byte"}
		if t, ok := v.(*Term); ok {
			r.t = t
		} else {
			r.conc = v.(uint64)
		}
		w.inputs = append(w.inputs, r)
		return v
	})
	sym("Int", func(f *Frame, a []Value) Value {
		w := f.w
		n := w.uniq(argStr(a[0]))
		lo, hi := int64(a[1].(uint64)), int64(a[2].(uint64))
		if w.fixed != nil {
			v, ok := w.fixed.val(n)
			if !ok {
				v = uint64(lo)
			}
			w.inputs = append(w.inputs, inputRec{name: n, kind: "int", conc: v})
			return v
		}
		ts := w.ts
		if lo < 0 && hi >= lo && hi-lo < 256 && hi-lo > 0 {
			t := w.newVar(n, 8)
			w.domainPC(ts.Not(ts.Bin(OUlt, ts.Const(uint64(hi-lo), 8), t)))
			v := ts.Bin(OAdd, ts.Zext(t, 64), ts.Const(uint64(lo), 64))
			w.inputs = append(w.inputs, inputRec{name: n, kind: "int", t: v})
			return v
		}
		var width uint8 = 64
		if lo >= 0 && hi < 256 {
			width = 8
		} else if lo >= 0 && hi < 65536 {
			width = 16
		}
		t := w.newVar(n, width)
		if _, ok := w.model[n]; !ok {
			w.model[n] = uint64(lo) & mask(width)
		}
		if lo > hi {
			panic(pathEnd{"prune", "empty range"})
		}
		if width == 64 {
			if lo != math.MinInt64 {
				w.domainPC(ts.Bin(OSle, ts.Const(uint64(lo), 64), t))
			}
			if hi != math.MaxInt64 {
				w.domainPC(ts.Bin(OSle, t, ts.Const(uint64(hi), 64)))
			}
			w.inputs = append(w.inputs, inputRec{name: n, kind: "int", t: t})
			return t
		}
		if lo > 0 {
			w.domainPC(ts.Not(ts.Bin(OUlt, t, ts.Const(uint64(lo), width))))
		}
		w.domainPC(ts.Not(ts.Bin(OUlt, ts.Const(uint64(hi), width), t)))
		w.inputs = append(w.inputs, inputRec{name: n, kind: "int", t: t})
		if lo == hi {
			return uint64(lo)
		}
		return ts.Zext(t, 64)
	})
	sym("Choice", func(f *Frame, a []Value) Value {
		return uint64(f.w.choose(argStr(a[0]), int(a[1].(uint64)), "choice"))
	})
	sym("Flag", func(f *Frame, a []Value) Value { return f.w.choose(argStr(a[0]), 2, "choice") == 1 })
	strN := func(w *Worker, name string, n int, alphabet string) Value {
		name = w.uniq(name)
		if w.fixed != nil {
			s, ok := w.fixed.str(name)
			if !ok || len(s) != n {
				b := make([]byte, n)
				for i := range b {
					if alphabet != "" {
						b[i] = alphabet[0]
					}
				}
				s = string(b)
			}
			w.inputs = append(w.inputs, inputRec{name: name, kind: "str", str: strBytes(s)})
			return s
		}
		b := make([]Value, n)
		for i := range b {
			b[i] = w.symByte(fmt.Sprintf("%s.%d", name, i), alphabet)
		}
		w.inputs = append(w.inputs, inputRec{name: name, kind: "str", str: b})
		return mkStr(append([]Value(nil), b...))
	}
	sym("StrN", func(f *Frame, a []Value) Value {
		return strN(f.w, argStr(a[0]), int(f.w.concInt(a[1])), argStr(a[2]))
	})
	sym("Str", func(f *Frame, a []Value) Value {
		n := f.w.choose(argStr(a[0])+".len", int(a[1].(uint64))+1, "choice")
		return strN(f.w, argStr(a[0]), n, argStr(a[2]))
	})
	sym("Str1", func(f *Frame, a []Value) Value {
		n := f.w.choose(argStr(a[0])+".len", int(a[1].(uint64)), "choice") + 1
		return strN(f.w, argStr(a[0]), n, argStr(a[2]))
	})
	sym("ConcStr", func(f *Frame, a []Value) Value { return f.w.concStr(a[0]) })
	sym("ConcInt", func(f *Frame, a []Value) Value { return uint64(f.w.concInt(a[0])) })
	sym("Param", func(f *Frame, a []Value) Value {
		if v, ok := f.w.h.params[argStr(a[0])]; ok {
			return uint64(int64(v))
		}
		return a[1]
	})
	sym("Assume", func(f *Frame, a []Value) Value { f.w.assume(a[0]); return nil })
	sym("Assert", func(f *Frame, a []Value) Value { f.w.assert(a[0], f.w.msgStr(a[1]), ""); return nil })
	sym("AssertKnown", func(f *Frame, a []Value) Value {
		f.w.assert(a[0], f.w.msgStr(a[1]), argStr(a[2]))
		return nil
	})
	sym("Cover", func(f *Frame, a []Value) Value { f.w.covers[f.w.msgStr(a[0])] = true; return nil })
	sym("Log", func(f *Frame, a []Value) Value {
		f.w.logs = append(f.w.logs, logRec{f.w.msgStr(a[0]), forceStr(a[1])})
		return nil
	})
	sym("MapOrder", func(f *Frame, a []Value) Value { f.w.mapOrder = a[0].(bool); return nil })
	sym("MapSame", func(f *Frame, a []Value) Value { f.w.mapSame = a[0].(bool); return nil })
	sym("Races", func(f *Frame, a []Value) Value {
		if a[0].(bool) {
			f.w.race = newRace()
		} else {
			f.w.race = nil
		}
		return nil
	})
	sym("Preempt", func(f *Frame, a []Value) Value { f.w.preemptMax = int(a[0].(uint64)); return nil })
	sym("Order", func(f *Frame, a []Value) Value { f.w.order, f.w.devMax = int(a[0].(uint64)), int(a[1].(uint64)); return nil })
	sym("Virtual", func(f *Frame, a []Value) Value { f.w.virtual = true; return nil })
	sym("Yield", func(f *Frame, a []Value) Value { f.w.yield("yield"); return nil })
	sym("Quiesce", func(f *Frame, a []Value) Value {
		w := f.w
		me := w.cur
		w.block("quiesce", func() bool {
			for _, g := range w.gors {
				if g != me && !g.done && (g.cond == nil || g.cond()) {
					return false
				}
			}
			return true
		})
		return nil
	})
	sym("Goroutines", func(f *Frame, a []Value) Value {
		n := 0
		for _, g := range f.w.gors {
			if !g.done {
				n++
			}
		}
		return uint64(n)
	})
	sym("Clock", func(f *Frame, a []Value) Value { return uint64(f.w.clock) })
	sym("AtExit", func(f *Frame, a []Value) Value { return nil })

	// ---- runtime-ish ----
	nop := func(f *Frame, a []Value) Value { return nil }
	for _, n := range []string{"runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC", "(*strings.Builder).copyCheck", "runtime.AddCleanup",
		"internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable", "internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange", "internal/race.Errors",
		"(*internal/godebug.Setting).IncNonDefault"} {
		I[n] = nop
	}
	I["(*internal/godebug.Setting).Value"] = func(f *Frame, a []Value) Value { return "" }
	I["internal/godebug.New"] = func(f *Frame, a []Value) Value { p := new(Value); *p = Struct{}; return p }
	I["runtime.Gosched"] = func(f *Frame, a []Value) Value { f.w.yield("gosched"); return nil }
	I["runtime.Goexit"] = func(f *Frame, a []Value) Value { panic(goexit{}) }
	I["runtime.NumCPU"] = func(f *Frame, a []Value) Value { return uint64(4) }
	I["runtime.GOMAXPROCS"] = func(f *Frame, a []Value) Value { return uint64(4) }
	I["runtime.NumGoroutine"] = func(f *Frame, a []Value) Value { return uint64(len(f.w.gors)) }
	I["runtime.Callers"] = func(f *Frame, a []Value) Value { return uint64(0) }
	I["(*errors.joinError).Error"] = func(f *Frame, a []Value) Value {
		nilCheck(f, a[0])
		var out Value = ""
		st := f.w.load(a[0].(*Value)).(Struct)
		for i, e := range st[0].(Slice) {
			if i > 0 {
				out = strConcat(out, "\n")
			}
			s, ok := f.w.callMethodStr(e.(Iface), "Error")
			if !ok {
				panic(unsupported("errors.Join of an error without text"))
			}
			out = strConcat(out, s)
		}
		return out
	}
	I["maps.clone"] = func(f *Frame, a []Value) Value {
		i := a[0].(Iface)
		m := i.v.(*Map)
		if m == nil {
			return i
		}
		if f.w.race != nil {
			f.w.race.mapRead(f.w, m)
		}
		c := m.clone()
		c.epoch = f.w.epoch
		return Iface{i.t, c}
	}
	I["internal/abi.NoEscape"] = func(f *Frame, a []Value) Value { return a[0] }
	I["internal/stringslite.Clone"] = func(f *Frame, a []Value) Value { return a[0] }
	I["strings.Clone"] = func(f *Frame, a []Value) Value { return a[0] }
	I["(*strings.Builder).String"] = func(f *Frame, a []Value) Value {
		nilCheck(f, a[0])
		s := (*a[0].(*Value)).(Struct)
		buf, _ := s[1].(Slice)
		f.w.readRaceSlice(a[0])
		return mkStr(append([]Value(nil), buf...))
	}
	I["(*strings.Builder).grow"] = nop
	I["(*strings.Builder).Grow"] = nop
	I["(error).Error"] = nil
	delete(I, "(error).Error")

	// ---- errors ----
	I["errors.Is"] = func(f *Frame, a []Value) Value { return f.w.errorsIs(a[0].(Iface), a[1].(Iface)) }
	I["errors.As"] = func(f *Frame, a []Value) Value { return f.w.errorsAs(a[0].(Iface), a[1].(Iface)) }
	I["internal/reflectlite.Swapper"] = func(f *Frame, a []Value) Value { return swapper(a[0].(Iface)) }
	I["reflect.Swapper"] = I["internal/reflectlite.Swapper"]
	I["sort.Slice"] = func(f *Frame, a []Value) Value { return f.w.sortSlice(f, a) }
	I["sort.SliceStable"] = I["sort.Slice"]

	// ---- fmt ----
	I["fmt.Sprintf"] = func(f *Frame, a []Value) Value { return f.w.fmtPrintf(argStr(a[0]), ifaceArgs(a[1])) }
	I["fmt.Sprint"] = func(f *Frame, a []Value) Value { return f.w.fmtPrint(ifaceArgs(a[0]), false) }
	I["fmt.Sprintln"] = func(f *Frame, a []Value) Value { return f.w.fmtPrint(ifaceArgs(a[0]), true) }
	I["fmt.Errorf"] = func(f *Frame, a []Value) Value { return f.w.errorf(argStr(a[0]), ifaceArgs(a[1])) }
	wr := func(f *Frame, dst Value, s Value) Value {
		i := dst.(Iface)
		if i.t == nil {
			f.w.nilDeref()
		}
		fn := f.w.methodByName(i.t, "Write")
		return f.w.callFn(fn, []Value{i.v, f.w.byteSlice(s)}, nil)
	}
	I["fmt.Fprintf"] = func(f *Frame, a []Value) Value { return wr(f, a[0], f.w.fmtPrintf(argStr(a[1]), ifaceArgs(a[2]))) }
	I["fmt.Fprint"] = func(f *Frame, a []Value) Value { return wr(f, a[0], f.w.fmtPrint(ifaceArgs(a[1]), false)) }
	I["fmt.Fprintln"] = func(f *Frame, a []Value) Value { return wr(f, a[0], f.w.fmtPrint(ifaceArgs(a[1]), true)) }
	std := func(f *Frame, s Value) Value {
		g := f.w.p.pkgs["os"].Members["Stdout"].(*ssa.Global)
		p := f.w.load(f.w.globalPtr(g))
		fn := f.w.methodByName(types.NewPointer(f.w.p.pkgs["os"].Members["File"].(*ssa.Type).Type()), "Write")
		return f.w.callFn(fn, []Value{p, f.w.byteSlice(s)}, nil)
	}
	I["fmt.Printf"] = func(f *Frame, a []Value) Value { return std(f, f.w.fmtPrintf(argStr(a[0]), ifaceArgs(a[1]))) }
	I["fmt.Print"] = func(f *Frame, a []Value) Value { return std(f, f.w.fmtPrint(ifaceArgs(a[0]), false)) }
	I["fmt.Println"] = func(f *Frame, a []Value) Value { return std(f, f.w.fmtPrint(ifaceArgs(a[0]), true)) }
	I["fmt.Append"] = func(f *Frame, a []Value) Value {
		return append(append(Slice{}, a[0].(Slice)...), f.w.byteSlice(f.w.fmtPrint(ifaceArgs(a[1]), false))...)
	}
	I["fmt.Appendf"] = func(f *Frame, a []Value) Value {
		return append(append(Slice{}, a[0].(Slice)...), f.w.byteSlice(f.w.fmtPrintf(argStr(a[1]), ifaceArgs(a[2])))...)
	}

	// ---- internal/bytealg ----
	idxByte := func(w *Worker, s []Value, c Value) Value {
		for i, b := range s {
			if w.branchV(w.equal(w.byteV(b), w.byteV(c))) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	}
	I["internal/bytealg.IndexByteString"] = func(f *Frame, a []Value) Value { return idxByte(f.w, strBytes(a[0]), a[1]) }
	I["internal/bytealg.IndexByte"] = func(f *Frame, a []Value) Value { return idxByte(f.w, []Value(a[0].(Slice)), a[1]) }
	lastIdx := func(w *Worker, s []Value, c Value) Value {
		for i := len(s) - 1; i >= 0; i-- {
			if w.branchV(w.equal(s[i], c)) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	}
	I["internal/bytealg.LastIndexByteString"] = func(f *Frame, a []Value) Value { return lastIdx(f.w, strBytes(a[0]), a[1]) }
	I["internal/bytealg.LastIndexByte"] = func(f *Frame, a []Value) Value { return lastIdx(f.w, []Value(a[0].(Slice)), a[1]) }
	cnt := func(w *Worker, s []Value, c Value) Value {
		n := uint64(0)
		for _, b := range s {
			if w.branchV(w.equal(b, c)) {
				n++
			}
		}
		return n
	}
	I["internal/bytealg.CountString"] = func(f *Frame, a []Value) Value { return cnt(f.w, strBytes(a[0]), a[1]) }
	I["internal/bytealg.Count"] = func(f *Frame, a []Value) Value { return cnt(f.w, []Value(a[0].(Slice)), a[1]) }
	idxStr := func(w *Worker, s, sub []Value) Value {
		for i := 0; i+len(sub) <= len(s); i++ {
			if w.branchV(w.equal(mkStr(s[i:i+len(sub)]), mkStr(sub))) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	}
	I["internal/bytealg.IndexString"] = func(f *Frame, a []Value) Value { return idxStr(f.w, strBytes(a[0]), strBytes(a[1])) }
	I["internal/bytealg.Index"] = func(f *Frame, a []Value) Value {
		return idxStr(f.w, []Value(a[0].(Slice)), []Value(a[1].(Slice)))
	}
	I["strings.Index"] = nil
	delete(I, "strings.Index")
	I["internal/stringslite.Index"] = I["internal/bytealg.IndexString"]
	I["internal/stringslite.IndexByte"] = I["internal/bytealg.IndexByteString"]
	I["bytes.Index"] = I["internal/bytealg.Index"]
	I["bytes.IndexByte"] = I["internal/bytealg.IndexByte"]
	I["bytes.Equal"] = func(f *Frame, a []Value) Value { return f.w.equal(mkStr(a[0].(Slice)), mkStr(a[1].(Slice))) }
	I["internal/bytealg.Equal"] = I["bytes.Equal"]
	I["internal/bytealg.Compare"] = func(f *Frame, a []Value) Value { return f.w.cmpStr(mkStr(a[0].(Slice)), mkStr(a[1].(Slice))) }
	I["internal/bytealg.CompareString"] = func(f *Frame, a []Value) Value { return f.w.cmpStr(a[0], a[1]) }
	I["bytes.Compare"] = I["internal/bytealg.Compare"]
	I["cmp.Compare[string]"] = I["internal/bytealg.CompareString"]
	I["internal/bytealg.MakeNoZero"] = func(f *Frame, a []Value) Value {
		n := int(f.w.concInt(a[0]))
		s := make(Slice, n)
		for i := range s {
			s[i] = uint64(0)
		}
		return s
	}
	I["internal/bytealg.Cutover"] = func(f *Frame, a []Value) Value { return uint64(64) }

	// ---- math/bits, math ----
	I["math/bits.LeadingZeros64"] = func(f *Frame, a []Value) Value { return uint64(bits.LeadingZeros64(f.w.concU(a[0]))) }
	I["math/bits.Len64"] = func(f *Frame, a []Value) Value { return uint64(bits.Len64(f.w.concU(a[0]))) }
	I["math/bits.Len"] = func(f *Frame, a []Value) Value { return uint64(bits.Len64(f.w.concU(a[0]))) }
	I["math/bits.Len32"] = func(f *Frame, a []Value) Value { return uint64(bits.Len64(f.w.concU(a[0]))) }
	I["math/bits.TrailingZeros64"] = func(f *Frame, a []Value) Value { return uint64(bits.TrailingZeros64(f.w.concU(a[0]))) }
	I["math/bits.OnesCount64"] = func(f *Frame, a []Value) Value { return uint64(bits.OnesCount64(f.w.concU(a[0]))) }
	I["math.Float64bits"] = func(f *Frame, a []Value) Value { return math.Float64bits(a[0].(float64)) }
	I["math.Float64frombits"] = func(f *Frame, a []Value) Value { return math.Float64frombits(a[0].(uint64)) }
	for n, fn := range map[string]func(float64) float64{"math.Floor": math.Floor, "math.Ceil": math.Ceil, "math.Trunc": math.Trunc, "math.Abs": math.Abs, "math.Sqrt": math.Sqrt, "math.Round": math.Round, "math.Log": math.Log, "math.Exp": math.Exp, "math.Cbrt": math.Cbrt} {
		fn := fn
		I[n] = func(f *Frame, a []Value) Value { return fn(a[0].(float64)) }
	}
	I["math.Pow"] = func(f *Frame, a []Value) Value { return math.Pow(a[0].(float64), a[1].(float64)) }

	initSync(I)
	initTime(I)
	initRegexp(I)
	initHostLib(I)
}

func (w *Worker) byteV(v Value) Value {
	if u, ok := v.(uint64); ok {
		return u & 0xff
	}
	return v
}

func (w *Worker) concU(v Value) uint64 { return uint64(w.concInt(v)) }

func (w *Worker) readRaceSlice(p Value) {
	if w.race != nil {
		if q, ok := p.(*Value); ok {
			w.race.readDeep(w, q)
		}
	}
}

func forceStr(v Value) Value {
	if s, ok := v.(*SymStr); ok {
		return mkStr(s.bytes())
	}
	return v
}

func (w *Worker) msgStr(v Value) string {
	if s, ok := v.(string); ok {
		return s
	}
	return w.strUnder(v, w.evalWith(w.model))
}

func (w *Worker) cmpStr(a, b Value) Value {
	if w.branchV(w.equal(a, b)) {
		return uint64(0)
	}
	if w.branchV(w.strLess(a, b)) {
		return ^uint64(0)
	}
	return uint64(1)
}

// ---- errors ----

func (w *Worker) errUnwrap(e Iface) (Iface, []Iface, bool) {
	fn := w.methodByName(e.t, "Unwrap")
	if fn == nil || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 {
		return Iface{}, nil, false
	}
	r := w.callFn(fn, []Value{e.v}, nil)
	switch x := r.(type) {
	case Iface:
		return x, nil, true
	case Slice:
		var es []Iface
		for _, v := range x {
			es = append(es, v.(Iface))
		}
		return Iface{}, es, true
	}
	return Iface{}, nil, false
}

func (w *Worker) errorsIs(e, target Iface) bool {
	if e.t == nil || target.t == nil {
		return e.t == nil && target.t == nil
	}
	for {
		if types.Comparable(target.t) && w.sameType(e.t, target.t) && w.branchV(w.equal(e, target)) {
			return true
		}
		if fn := w.methodByName(e.t, "Is"); fn != nil && fn.Signature.Params().Len() == 1 && fn.Signature.Results().Len() == 1 {
			if w.branchV(w.callFn(fn, []Value{e.v, target}, nil)) {
				return true
			}
		}
		one, many, ok := w.errUnwrap(e)
		if !ok {
			return false
		}
		if many != nil {
			for _, m := range many {
				if m.t != nil && w.errorsIs(m, target) {
					return true
				}
			}
			return false
		}
		if one.t == nil {
			return false
		}
		e = one
	}
}

func (w *Worker) errorsAs(e, target Iface) bool {
	if e.t == nil {
		return false
	}
	pt, ok := target.t.(*types.Pointer)
	if !ok {
		panic(unsupported("errors.As target %s", target.t))
	}
	tt := pt.Elem()
	_, isI := tt.Underlying().(*types.Interface)
	for {
		if isI {
			if w.implements(e.t, tt) {
				w.store(target.v.(*Value), e)
				return true
			}
		} else if w.sameType(e.t, tt) {
			w.store(target.v.(*Value), e.v)
			return true
		}
		if fn := w.methodByName(e.t, "As"); fn != nil && fn.Signature.Params().Len() == 1 {
			if w.branchV(w.callFn(fn, []Value{e.v, target}, nil)) {
				return true
			}
		}
		one, many, ok := w.errUnwrap(e)
		if !ok {
			return false
		}
		if many != nil {
			for _, m := range many {
				if m.t != nil && w.errorsAs(m, target) {
					return true
				}
			}
			return false
		}
		if one.t == nil {
			return false
		}
		e = one
	}
}

// errorf builds the same error types as fmt.Errorf.
func (w *Worker) errorf(format string, args []Value) Value {
	msg := w.fmtPrintf(strings.ReplaceAll(format, "%w", "%v"), args)
	// positions of %w
	var wrapped []Value
	ai := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
			i++
		}
		if i >= len(format) || format[i] == '%' {
			continue
		}
		if format[i] == 'w' && ai < len(args) {
			if e, ok := args[ai].(Iface); ok && e.t != nil && w.methodByName(e.t, "Error") != nil {
				wrapped = append(wrapped, e)
			}
		}
		ai++
	}
	pk := w.p.pkgs["fmt"]
	if pk == nil {
		panic(unsupported("package fmt not loaded"))
	}
	mk := func(name string, st Struct) Value {
		p := new(Value)
		*p = st
		return Iface{types.NewPointer(pk.Members[name].(*ssa.Type).Type()), p}
	}
	switch len(wrapped) {
	case 0:
		return w.strErr(msg)
	case 1:
		return mk("wrapError", Struct{msg, wrapped[0]})
	}
	s := make(Slice, len(wrapped))
	copy(s, wrapped)
	return mk("wrapErrors", Struct{msg, s})
}

func swapper(i Iface) Value {
	s, ok := i.v.(Slice)
	if !ok {
		panic(unsupported("Swapper of %T", i.v))
	}
	return &Closure{native: func(w *Worker, a []Value) Value {
		x, y := int(w.concInt(a[0])), int(w.concInt(a[1]))
		vx, vy := copyVal(s[x]), copyVal(s[y])
		w.store(&s[x], vy)
		w.store(&s[y], vx)
		return nil
	}}
}

// sortSlice is insertion sort, what sort.Slice does for up to 12 elements.
func (w *Worker) sortSlice(f *Frame, a []Value) Value {
	s := a[0].(Iface).v.(Slice)
	if len(s) > 12 {
		panic(unsupported("sort.Slice of more than 12 elements"))
	}
	for i := 1; i < len(s); i++ {
		for j := i; j > 0; j-- {
			if !w.branchV(w.callValue(f, a[1], []Value{uint64(j), uint64(j - 1)}, nil)) {
				break
			}
			x, y := copyVal(s[j]), copyVal(s[j-1])
			w.store(&s[j], y)
			w.store(&s[j-1], x)
		}
	}
	return nil
}
