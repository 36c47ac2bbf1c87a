package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	r int32
	v Value
}

type fnCode struct {
	fn     *ssa.Function
	nregs  int
	slot   map[ssa.Value]int32
	blocks []*blockCode
	intr   intrinsic
	bab    bool
	model  bool
	nfree  int
	hasDef bool
	native func(w *Worker, args []Value) (Value, bool)
}

type phiCode struct {
	dst  int32
	edge []opnd
}

type blockCode struct {
	phis  []phiCode
	ins   []func(f *Frame)
	pos   []token.Pos
	term  func(f *Frame) int // next block or -1
	tpos  token.Pos
	np    int
	preds []int
}

type Frame struct {
	code      *fnCode
	w         *Worker
	regs      []Value
	caller    *Frame
	blk, prev int
	pc        int
	defers    []deferred
	result    Value
	panicking bool
	panicVal  any
	deferOf   *Frame
	tmp       []Value
	depth     int
}

type deferred struct {
	fn   Value // *Closure / builtin wrapper
	args []Value
	inv  func(f *Frame)
}

type intrinsic func(f *Frame, args []Value) Value

func (f *Frame) position() string {
	if f == nil || f.code == nil || f.code.fn == nil {
		return "?"
	}
	if f.blk < len(f.code.blocks) {
		b := f.code.blocks[f.blk]
		p := b.tpos
		if f.pc < len(b.pos) {
			p = b.pos[f.pc]
		}
		if p.IsValid() {
			ps := f.w.p.prog.Fset.Position(p)
			return fmt.Sprintf("%s:%d", shortFile(ps.Filename), ps.Line)
		}
	}
	ps := f.w.p.prog.Fset.Position(f.code.fn.Pos())
	return fmt.Sprintf("%s:%d~", shortFile(ps.Filename), ps.Line)
}

func shortFile(s string) string {
	if i := strings.Index(s, "/repo/"); i >= 0 {
		return s[i+6:]
	}
	if i := strings.LastIndex(s, "/"); i >= 0 {
		if j := strings.LastIndex(s[:i], "/"); j >= 0 {
			return s[j+1:]
		}
	}
	return s
}

func (f *Frame) get(o opnd) Value {
	if o.r >= 0 {
		return f.regs[o.r]
	}
	return o.v
}

// callFn calls an SSA function.
func (w *Worker) callFn(fn *ssa.Function, args []Value, binds []Value) Value {
	code := w.codeFor(fn)
	var caller *Frame
	if w.cur != nil {
		caller = w.cur.top
	}
	return w.callCode(code, args, binds, caller, nil)
}

func (w *Worker) callCode(code *fnCode, args []Value, binds []Value, caller *Frame, deferOf *Frame) Value {
	f := &Frame{code: code, w: w, caller: caller, deferOf: deferOf}
	if code.intr != nil {
		g := w.cur
		if g != nil {
			g.top = f
			defer func() { g.top = caller }()
		}
		return code.intr(f, args)
	}
	if code.blocks == nil {
		panic(unsupported("call of %s (no body)", code.fn))
	}
	if !w.funcsRun[code.fn] {
		w.funcsRun[code.fn] = true
	}
	f.regs = make([]Value, code.nregs)
	n := copy(f.regs, args)
	copy(f.regs[n:], binds)
	g := w.cur
	if g != nil {
		g.top = f
	}
	if caller != nil {
		f.depth = caller.depth + 1
		if f.depth > 3000 {
			panic(pathEnd{"cut", "call depth"})
		}
	}
	if code.hasDef {
		f.runDeferring()
	} else {
		f.run()
	}
	if g != nil {
		g.top = caller
	}
	return f.result
}

func (f *Frame) run() {
	w := f.w
	for {
		b := f.code.blocks[f.blk]
		if len(b.phis) > 0 {
			e := -1
			for i, p := range b.preds {
				if p == f.prev {
					e = i
					break
				}
			}
			if len(b.phis) == 1 {
				f.regs[b.phis[0].dst] = f.get(b.phis[0].edge[e])
			} else {
				var buf [8]Value
				t := buf[:0]
				for i := range b.phis {
					t = append(t, f.get(b.phis[i].edge[e]))
				}
				for i := range b.phis {
					f.regs[b.phis[i].dst] = t[i]
				}
			}
		}
		w.steps += int64(len(b.ins) + 1)
		if funcProf != nil {
			countFunc(f, int64(len(b.ins)+1))
		}
		if w.steps > w.maxSteps && w.inInit == 0 {
			panic(pathEnd{"cut", "step limit"})
		}
		for i, in := range b.ins {
			f.pc = i
			in(f)
		}
		f.pc = len(b.ins)
		nx := b.term(f)
		if nx < 0 {
			return
		}
		f.prev = f.blk
		f.blk = nx
	}
}

func isControl(r any) bool {
	switch r.(type) {
	case pathEnd, killSig, Unsupported:
		return true
	case targetPanic, goexit:
		return false
	}
	return true
}

func (f *Frame) runDeferring() {
	g := f.w.cur
	normal := f.tryRun(f.run)
	if normal {
		return
	}
	// panicking: run remaining defers
	if g != nil {
		g.top = f
	}
	f.runDefers()
	if f.panicking {
		panic(f.panicVal)
	}
	// recovered
	if f.code.fn.Recover != nil {
		f.prev = -1
		f.blk = f.code.fn.Recover.Index
		if g != nil {
			g.top = f
		}
		f.run()
		return
	}
	res := f.code.fn.Signature.Results()
	switch res.Len() {
	case 0:
	case 1:
		f.result = f.w.zero(res.At(0).Type())
	default:
		f.result = f.w.zero(res)
	}
}

func (f *Frame) tryRun(body func()) (ok bool) {
	defer func() {
		if !ok {
			r := recover()
			if r == nil {
				return
			}
			if isControl(r) {
				panic(r)
			}
			f.panicking = true
			f.panicVal = r
		}
	}()
	body()
	return true
}

func (f *Frame) runDefers() {
	for len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		g := f.w.cur
		if g != nil {
			g.top = f
		}
		f.tryRun2(func() { f.w.callValue(f, d.fn, d.args, f) })
	}
}

// tryRun2 runs a deferred call; a panic in it replaces the current one.
func (f *Frame) tryRun2(body func()) {
	ok := false
	defer func() {
		if !ok {
			r := recover()
			if r == nil {
				return
			}
			if isControl(r) {
				panic(r)
			}
			f.panicking = true
			f.panicVal = r
		}
	}()
	body()
	ok = true
}

func (w *Worker) callValue(f *Frame, fv Value, args []Value, deferOf *Frame) Value {
	c, ok := fv.(*Closure)
	if !ok {
		panic(unsupported("call of %T", fv))
	}
	if c == nil {
		w.nilDeref()
	}
	if c.native != nil {
		return c.native(w, args)
	}
	return w.callCode(w.codeFor(c.fn), args, c.binds, f, deferOf)
}

// call a function value from an intrinsic
func (w *Worker) invoke(fv Value, args ...Value) Value {
	return w.callValue(w.cur.top, fv, args, nil)
}

func (w *Worker) nilDeref() {
	w.runtimePanic("invalid memory address or nil pointer dereference")
}

func (w *Worker) runtimePanic(msg string) {
	t := w.p.runtimeError
	panic(targetPanic{Iface{t, msg}})
}

func (w *Worker) panicText(v Value) string {
	i, ok := v.(Iface)
	if !ok || i.t == nil {
		return show(v)
	}
	if w.p.runtimeError != nil && types.Identical(i.t, w.p.runtimeError) {
		return "runtime error: " + show(i.v)
	}
	var s string
	func() {
		defer func() { _ = recover() }()
		s = w.strUnder(w.fmtValue(i, 'v', fmtFlags{}), w.evalWith(w.model))
	}()
	if s != "" {
		return s
	}
	return show(i.v)
}

// ---- compilation ----

func (w *Worker) codeFor(fn *ssa.Function) *fnCode {
	if c, ok := w.code[fn]; ok {
		return c
	}
	c := &fnCode{fn: fn}
	w.code[fn] = c
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if pk := fnPkg(fn); pk != nil {
		c.model = strings.Contains(pk.Path(), "/zzverif/model")
		c.bab = strings.HasPrefix(pk.Path(), w.p.modPath) && !strings.Contains(pk.Path(), "/zzverif/model") && !strings.Contains(pk.Path(), "/zzverif/sym")
	}
	if in, ok := intrinsics[name]; ok {
		c.intr = in
		return c
	}
	if nf, ok := natives[name]; ok {
		c.native = nf
	}
	if m := w.p.replaced(name); m != nil && m != fn {
		rc := w.codeFor(m)
		if c.native == nil {
			w.code[fn] = rc
			return rc
		}
	}
	if fn.Pkg != nil {
		fn.Pkg.Build() // even when blocks are there: another worker may still be building them
	}
	{
		if o := fn.Origin(); o != nil && o.Pkg != nil {
			o.Pkg.Build()
		}
	}
	if fn.Blocks == nil {
		if c.native != nil {
			nf := c.native
			c.intr = func(f *Frame, args []Value) Value {
				r, ok := nf(f.w, args)
				if !ok {
					panic(unsupported("native %s with symbolic arguments", name))
				}
				return r
			}
			return c
		}
		c.intr = func(f *Frame, args []Value) Value {
			panic(unsupported("external function %s", name))
		}
		return c
	}
	w.compile(c)
	if c.native != nil {
		nf := c.native
		body := &fnCode{}
		*body = *c
		body.native = nil
		c.intr = func(f *Frame, args []Value) Value {
			r, ok := nf(f.w, args)
			if ok {
				return r
			}
			return f.w.callCode(body, args, nil, f.caller, f.deferOf)
		}
	}
	return c
}

func fnPkg(fn *ssa.Function) *types.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg
	}
	if fn.Object() != nil {
		return fn.Object().Pkg()
	}
	return nil
}

func (w *Worker) compile(c *fnCode) {
	fn := c.fn
	c.slot = map[ssa.Value]int32{}
	n := int32(0)
	add := func(v ssa.Value) {
		c.slot[v] = n
		n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, v := range fn.FreeVars {
		add(v)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
			if _, ok := in.(*ssa.Defer); ok {
				c.hasDef = true
			}
		}
	}
	c.nregs = int(n)
	c.blocks = make([]*blockCode, len(fn.Blocks))
	for i, b := range fn.Blocks {
		bc := &blockCode{}
		for _, p := range b.Preds {
			bc.preds = append(bc.preds, p.Index)
		}
		for k, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				pc := phiCode{dst: c.slot[phi]}
				for _, e := range phi.Edges {
					pc.edge = append(pc.edge, w.opnd(c, e))
				}
				bc.phis = append(bc.phis, pc)
				continue
			}
			if k == len(b.Instrs)-1 {
				bc.term = w.compileTerm(c, b, in)
				bc.tpos = in.Pos()
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ic := w.compileInstr(c, in)
			bc.ins = append(bc.ins, ic)
			bc.pos = append(bc.pos, in.Pos())
		}
		c.blocks[i] = bc
	}
}

func (w *Worker) opnd(c *fnCode, v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{-1, w.constVal(x)}
	case *ssa.Global:
		return opnd{-1, w.globalPtr(x)}
	case *ssa.Function:
		return opnd{-1, w.fnVal(x)}
	case *ssa.Builtin:
		return opnd{-1, x}
	}
	s, ok := c.slot[v]
	if !ok {
		panic(unsupported("operand %T %s in %s", v, v, c.fn))
	}
	return opnd{s, nil}
}

func (w *Worker) fnVal(fn *ssa.Function) *Closure {
	if c, ok := w.p.fnvals.Load(fn); ok {
		return c.(*Closure)
	}
	c, _ := w.p.fnvals.LoadOrStore(fn, &Closure{fn: fn})
	return c.(*Closure)
}

func (w *Worker) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return w.zero(c.Type())
	}
	t := c.Type().Underlying()
	if tp, ok := t.(*types.TypeParam); ok {
		panic(unsupported("type param const %s", tp))
	}
	b, ok := t.(*types.Basic)
	if !ok {
		panic(unsupported("const of type %s", c.Type()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsInteger != 0:
		k, _ := basicInt(b)
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return uint64(i) & mask(k.w)
		}
		u, _ := constant.Uint64Val(v)
		return u & mask(k.w)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	case b.Info()&types.IsComplex != 0:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return complex(re, im)
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		i, _ := constant.Int64Val(c.Value)
		return string(rune(i))
	}
	panic(unsupported("const %s", c))
}

// globalPtr returns the cell of a global, initialising its package lazily.
func (w *Worker) globalPtr(g *ssa.Global) *Value {
	if p, ok := w.globals[g]; ok {
		return p
	}
	if g.Pkg != nil {
		w.initPkg(g.Pkg)
	}
	if p, ok := w.globals[g]; ok {
		return p
	}
	p := new(Value)
	*p = w.zero(g.Type().(*types.Pointer).Elem())
	w.globals[g] = p
	return p
}

// initPkg runs the package's initialisers (once per worker, outside the journal).
func (w *Worker) initPkg(pkg *ssa.Package) {
	if w.initState[pkg] != 0 {
		return
	}
	w.initState[pkg] = 1
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			if _, ok := w.globals[g]; !ok {
				p := new(Value)
				*p = w.zero(g.Type().(*types.Pointer).Elem())
				w.globals[g] = p
			}
		}
	}
	if skipInit[pkg.Pkg.Path()] {
		w.initState[pkg] = 2
		return
	}
	pkg.Build()
	init := pkg.Func("init")
	if init == nil {
		return
	}
	oj, os, orace := w.journalOn, w.steps, w.race
	w.journalOn = false
	w.race = nil
	w.inInit++
	w.runInit(init)
	w.inInit--
	w.journalOn, w.steps, w.race = oj, os, orace
	w.initState[pkg] = 2
}

// runInit interprets a package initialiser tolerantly: an instruction that cannot be
// executed leaves a poison value that is reported only if used.
func (w *Worker) runInit(fn *ssa.Function) {
	code := &fnCode{fn: fn}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if debugEngine {
					fmt.Printf("init %s: compile: %v\n", fn, r)
				}
				code = nil
			}
		}()
		w.compile(code)
	}()
	if code == nil {
		return
	}
	f := &Frame{code: code, w: w, regs: make([]Value, code.nregs)}
	if w.cur == nil {
		w.cur = &Gor{}
		defer func() { w.cur = nil }()
	}
	g := w.cur
	f.caller = g.top
	saved := g.top
	g.top = f
	defer func() { g.top = saved }()
	var vals []ssa.Value
	_ = vals
	for {
		b := code.blocks[f.blk]
		for _, ph := range b.phis {
			for i, p := range b.preds {
				if p == f.prev {
					f.regs[ph.dst] = f.get(ph.edge[i])
				}
			}
		}
		sb := fn.Blocks[f.blk]
		k := 0
		for _, in := range sb.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			if k >= len(b.ins) {
				break
			}
			f.pc = k
			ic := b.ins[k]
			k++
			// skip initialisers of imported packages: they run lazily
			if call, ok := in.(*ssa.Call); ok {
				if cf := call.Call.StaticCallee(); cf != nil && cf.Name() == "init" && cf.Pkg != fn.Pkg && cf.Synthetic != "" {
					continue
				}
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						g.top = f
						if debugEngine {
							fmt.Printf("init %s: %s: %v\n", fn, in, r)
						}
						if v, ok := in.(ssa.Value); ok {
							f.regs[code.slot[v]] = Poison{fmt.Sprintf("init of %s: %v", fn.Pkg.Pkg.Path(), r)}
						}
					}
				}()
				ic(f)
			}()
		}
		f.pc = len(b.ins)
		var nx int
		bad := false
		func() {
			defer func() {
				if r := recover(); r != nil {
					bad = true
					if debugEngine {
						fmt.Printf("init %s: terminator: %v\n", fn, r)
					}
				}
			}()
			nx = b.term(f)
		}()
		if bad || nx < 0 {
			return
		}
		f.prev, f.blk = f.blk, nx
	}
}

func (w *Worker) compileTerm(c *fnCode, b *ssa.BasicBlock, in ssa.Instruction) func(f *Frame) int {
	switch x := in.(type) {
	case *ssa.Jump:
		t := b.Succs[0].Index
		return func(f *Frame) int { return t }
	case *ssa.If:
		cond := w.opnd(c, x.Cond)
		t, e := b.Succs[0].Index, b.Succs[1].Index
		return func(f *Frame) int {
			switch v := f.get(cond).(type) {
			case bool:
				if v {
					return t
				}
				return e
			case *Term:
				if f.w.branch(v) {
					return t
				}
				return e
			case Poison:
				panic(unsupported("branch on poison: %s", v.why))
			default:
				panic(unsupported("if on %T", v))
			}
		}
	case *ssa.Return:
		switch len(x.Results) {
		case 0:
			return func(f *Frame) int { return -1 }
		case 1:
			r := w.opnd(c, x.Results[0])
			return func(f *Frame) int { f.result = f.get(r); return -1 }
		default:
			var rs []opnd
			for _, r := range x.Results {
				rs = append(rs, w.opnd(c, r))
			}
			return func(f *Frame) int {
				t := make(Tuple, len(rs))
				for i, r := range rs {
					t[i] = f.get(r)
				}
				f.result = t
				return -1
			}
		}
	case *ssa.Panic:
		v := w.opnd(c, x.X)
		return func(f *Frame) int { panic(targetPanic{f.get(v)}) }
	}
	panic(unsupported("terminator %T", in))
}

func (w *Worker) compileInstr(c *fnCode, in ssa.Instruction) func(f *Frame) {
	defer func() {
		if r := recover(); r != nil {
			panic(r)
		}
	}()
	dst := int32(-1)
	if v, ok := in.(ssa.Value); ok {
		dst = c.slot[v]
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		et := x.Type().(*types.Pointer).Elem()
		z := w.zero(et)
		switch z.(type) {
		case Struct, Array:
			return func(f *Frame) { p := new(Value); *p = copyVal(z); f.regs[dst] = p }
		}
		return func(f *Frame) { p := new(Value); *p = z; f.regs[dst] = p }
	case *ssa.UnOp:
		return w.compileUnOp(c, x, dst)
	case *ssa.BinOp:
		a, b := w.opnd(c, x.X), w.opnd(c, x.Y)
		op := w.compileBin(x.Op, x.X.Type(), x.Y.Type())
		return func(f *Frame) { f.regs[dst] = op(f.w, f.get(a), f.get(b)) }
	case *ssa.Store:
		a, v := w.opnd(c, x.Addr), w.opnd(c, x.Val)
		return func(f *Frame) {
			switch p := f.get(a).(type) {
			case *Value:
				f.w.store(p, f.get(v))
			case *SymPtr:
				i := f.w.concretize(p.idx)
				f.w.store(&p.arr[i], f.get(v))
			default:
				panic(unsupported("store through %T", p))
			}
		}
	case *ssa.FieldAddr:
		a := w.opnd(c, x.X)
		fi := x.Field
		return func(f *Frame) {
			p, ok := f.get(a).(*Value)
			if !ok {
				if sp, ok2 := f.get(a).(*SymPtr); ok2 {
					p = &sp.arr[f.w.concretize(sp.idx)]
				} else {
					panic(unsupported("field of %s", show(f.get(a))))
				}
			}
			if p == nil {
				f.w.nilDeref()
			}
			s, ok := (*p).(Struct)
			if !ok {
				panic(unsupported("field address in %T", *p))
			}
			f.regs[dst] = &s[fi]
		}
	case *ssa.Field:
		a := w.opnd(c, x.X)
		fi := x.Field
		return func(f *Frame) { f.regs[dst] = f.get(a).(Struct)[fi] }
	case *ssa.IndexAddr:
		a, ix := w.opnd(c, x.X), w.opnd(c, x.Index)
		ik, _ := basicInt(x.Index.Type())
		return func(f *Frame) {
			var arr []Value
			switch s := f.get(a).(type) {
			case Slice:
				arr = s
			case *Value:
				if s == nil {
					f.w.nilDeref()
				}
				arr = (*s).(Array)
			default:
				panic(unsupported("index of %T", s))
			}
			f.regs[dst] = f.w.indexAddr(arr, f.get(ix), ik)
		}
	case *ssa.Index:
		a, ix := w.opnd(c, x.X), w.opnd(c, x.Index)
		ik, _ := basicInt(x.Index.Type())
		ek := uint8(64)
		if e, ok := basicInt(x.Type()); ok {
			ek = e.w
		}
		return func(f *Frame) {
			switch s := f.get(a).(type) {
			case Array:
				f.regs[dst] = f.w.indexLoad(s, f.get(ix), ik, ek)
			case string, *SymStr:
				f.regs[dst] = f.w.strIndex(s, f.get(ix), ik)
			default:
				panic(unsupported("index of %T", s))
			}
		}
	case *ssa.Lookup:
		a, ix := w.opnd(c, x.X), w.opnd(c, x.Index)
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			z := w.zero(mt.Elem())
			commaOk := x.CommaOk
			return func(f *Frame) {
				m, _ := f.get(a).(*Map)
				i := f.w.mapFind(m, f.get(ix))
				var v Value
				if i >= 0 {
					v = m.ents[i].v
				} else {
					v = copyVal(z)
				}
				if commaOk {
					f.regs[dst] = Tuple{v, i >= 0}
				} else {
					f.regs[dst] = v
				}
			}
		}
		ik, _ := basicInt(x.Index.Type())
		return func(f *Frame) { f.regs[dst] = f.w.strIndex(f.get(a), f.get(ix), ik) }
	case *ssa.MapUpdate:
		m, k, v := w.opnd(c, x.Map), w.opnd(c, x.Key), w.opnd(c, x.Value)
		return func(f *Frame) {
			mm, _ := f.get(m).(*Map)
			f.w.mapSet(mm, f.get(k), copyVal(f.get(v)))
		}
	case *ssa.MakeMap:
		return func(f *Frame) { f.regs[dst] = newMap(f.w.epoch) }
	case *ssa.MakeSlice:
		l, cp := w.opnd(c, x.Len), w.opnd(c, x.Cap)
		z := w.zero(x.Type().Underlying().(*types.Slice).Elem())
		return func(f *Frame) {
			n, m := f.w.concInt(f.get(l)), f.w.concInt(f.get(cp))
			if n < 0 || m < n {
				f.w.runtimePanic("makeslice: len out of range")
			}
			if m > 1<<22 {
				panic(unsupported("makeslice of %d", m))
			}
			s := make(Slice, m)
			for i := range s {
				s[i] = copyVal(z)
			}
			f.regs[dst] = s[:n]
		}
	case *ssa.MakeChan:
		l := w.opnd(c, x.Size)
		return func(f *Frame) { f.regs[dst] = &Chan{cap: int(f.w.concInt(f.get(l)))} }
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		var bs []opnd
		for _, b := range x.Bindings {
			bs = append(bs, w.opnd(c, b))
		}
		return func(f *Frame) {
			bv := make([]Value, len(bs))
			for i, b := range bs {
				bv[i] = f.get(b)
			}
			f.regs[dst] = &Closure{fn: fn, binds: bv}
		}
	case *ssa.MakeInterface:
		a := w.opnd(c, x.X)
		t := x.X.Type()
		return func(f *Frame) {
			v := f.get(a)
			if p, ok := v.(Poison); ok {
				f.regs[dst] = p
				return
			}
			f.regs[dst] = Iface{t, v}
		}
	case *ssa.ChangeInterface:
		a := w.opnd(c, x.X)
		return func(f *Frame) { f.regs[dst] = f.get(a) }
	case *ssa.ChangeType:
		a := w.opnd(c, x.X)
		return func(f *Frame) { f.regs[dst] = f.get(a) }
	case *ssa.Convert:
		a := w.opnd(c, x.X)
		conv := w.compileConv(x.X.Type(), x.Type())
		return func(f *Frame) { f.regs[dst] = conv(f.w, f.get(a)) }
	case *ssa.MultiConvert:
		a := w.opnd(c, x.X)
		conv := w.compileConv(x.X.Type(), x.Type())
		return func(f *Frame) { f.regs[dst] = conv(f.w, f.get(a)) }
	case *ssa.SliceToArrayPointer:
		a := w.opnd(c, x.X)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(f *Frame) {
			s := f.get(a).(Slice)
			if len(s) < n {
				f.w.runtimePanic("cannot convert slice to array pointer")
			}
			p := new(Value)
			*p = Array(s[:n:n])
			f.regs[dst] = p
		}
	case *ssa.Slice:
		return w.compileSlice(c, x, dst)
	case *ssa.TypeAssert:
		a := w.opnd(c, x.X)
		at := x.AssertedType
		commaOk := x.CommaOk
		isIface := types.IsInterface(at)
		var z Value
		if commaOk {
			z = w.zero(at)
		}
		return func(f *Frame) {
			v, ok := f.get(a).(Iface)
			if !ok {
				panic(unsupported("type assert on %s", show(f.get(a))))
			}
			good := false
			var res Value
			if v.t != nil {
				if isIface {
					if f.w.implements(v.t, at) {
						good = true
						res = v
					}
				} else if f.w.sameType(v.t, at) {
					good = true
					res = v.v
				}
			}
			if commaOk {
				if !good {
					res = z
				}
				f.regs[dst] = Tuple{res, good}
				return
			}
			if !good {
				tn := "nil"
				if v.t != nil {
					tn = v.t.String()
				}
				f.w.runtimePanic("interface conversion: interface is " + tn + ", not " + at.String())
			}
			f.regs[dst] = res
		}
	case *ssa.Extract:
		a := w.opnd(c, x.Tuple)
		i := x.Index
		return func(f *Frame) {
			switch t := f.get(a).(type) {
			case Tuple:
				f.regs[dst] = t[i]
			case Poison:
				f.regs[dst] = t
			default:
				panic(unsupported("extract from %T", t))
			}
		}
	case *ssa.Range:
		a := w.opnd(c, x.X)
		nondet := c.bab || (fnPkg(c.fn) != nil && fnPkg(c.fn).Path() == "maps")
		return func(f *Frame) { f.regs[dst] = f.w.rangeStart(f.get(a), nondet) }
	case *ssa.Next:
		a := w.opnd(c, x.Iter)
		if x.IsString {
			return func(f *Frame) { f.regs[dst] = f.w.strNext(f.get(a).(*strIter)) }
		}
		return func(f *Frame) { f.regs[dst] = f.w.mapNext(f.get(a).(*mapIter)) }
	case *ssa.Call:
		return w.compileCall(c, &x.Call, dst)
	case *ssa.Go:
		prep := w.prepCall(c, &x.Call)
		return func(f *Frame) {
			fv, args, run := prep(f)
			ww := f.w
			ww.spawn(func() {
				if run != nil {
					run()
					return
				}
				ww.callValue(nil, fv, args, nil)
			})
			ww.yieldBab("go")
		}
	case *ssa.Defer:
		prep := w.prepCall(c, &x.Call)
		if x.DeferStack != nil {
			panic(unsupported("defer stack (range-over-func)"))
		}
		return func(f *Frame) {
			fv, args, run := prep(f)
			if run != nil {
				fv = &Closure{native: func(w *Worker, _ []Value) Value { run(); return nil }}
				args = nil
			}
			f.defers = append(f.defers, deferred{fn: fv, args: args})
		}
	case *ssa.RunDefers:
		return func(f *Frame) {
			f.runDefers()
			if f.panicking {
				pv := f.panicVal
				f.panicking = false
				panic(pv)
			}
		}
	case *ssa.Send:
		ch, v := w.opnd(c, x.Chan), w.opnd(c, x.X)
		return func(f *Frame) { f.w.chanSend(f.get(ch).(*Chan), f.get(v)) }
	case *ssa.Select:
		return w.compileSelect(c, x, dst)
	}
	panic(unsupported("instruction %T", in))
}

func (w *Worker) concInt(v Value) int64 {
	switch x := v.(type) {
	case uint64:
		return int64(x)
	case *Term:
		return sext(w.concretize(x), x.w)
	}
	panic(unsupported("integer %T", v))
}

func (w *Worker) idxConc(i Value, ik intKind, n int) (int, bool) {
	switch x := i.(type) {
	case uint64:
		k := int64(x)
		if ik.signed {
			k = sext(x, ik.w)
		}
		if k < 0 || k >= int64(n) {
			w.runtimePanic(fmt.Sprintf("index out of range [%d] with length %d", k, n))
		}
		return int(k), true
	case *Term:
		var lim Value
		if uint64(n) > mask(x.w) && n > 0 {
			if ik.signed {
				lim = w.fromTerm(w.ts.Not(w.ts.Bin(OSlt, x, w.ts.Const(0, x.w))))
			} else {
				lim = true
			}
		} else {
			lim = w.fromTerm(w.ts.Bin(OUlt, x, w.ts.Const(uint64(n), x.w)))
		}
		if !w.branchV(lim) {
			w.runtimePanic(fmt.Sprintf("index out of range (symbolic) with length %d", n))
		}
		return 0, false
	}
	panic(unsupported("index %T", i))
}

func (w *Worker) indexAddr(arr []Value, i Value, ik intKind) Value {
	k, conc := w.idxConc(i, ik, len(arr))
	if conc {
		return &arr[k]
	}
	return &SymPtr{arr, i.(*Term)}
}

func (w *Worker) indexLoad(arr []Value, i Value, ik intKind, ek uint8) Value {
	k, conc := w.idxConc(i, ik, len(arr))
	if conc {
		return arr[k]
	}
	return w.symLoadT(arr, i.(*Term), ek)
}

func (w *Worker) strIndex(s Value, i Value, ik intKind) Value {
	k, conc := w.idxConc(i, ik, strLen(s))
	if conc {
		return strAt(s, k)
	}
	return w.symLoadT(strBytes(s), i.(*Term), 8)
}

// symLoadW reads arr[idx] for an in-range symbolic index as an ite chain over runs of equal elements.
func (w *Worker) symLoadW(arr []Value, idx *Term, lim int, width uint8) Value {
	type run struct {
		hi int
		t  *Term
	}
	var runs []run
	for i := 0; i < lim; i++ {
		t := w.term(arr[i], width)
		if n := len(runs); n > 0 && runs[n-1].t == t {
			runs[n-1].hi = i
			continue
		}
		runs = append(runs, run{i, t})
	}
	var build func(lo, hi int) *Term
	build = func(lo, hi int) *Term {
		if lo == hi {
			return runs[lo].t
		}
		mid := (lo + hi) / 2
		// idx <= runs[mid].hi -> left
		c := w.ts.Bin(OUlt, idx, w.ts.Const(uint64(runs[mid].hi)+1, idx.w))
		if uint64(runs[mid].hi)+1 > mask(idx.w) {
			c = w.ts.tt
		}
		return w.ts.Ite(c, build(lo, mid), build(mid+1, hi))
	}
	return w.fromTerm(build(0, len(runs)-1))
}

func (w *Worker) compileUnOp(c *fnCode, x *ssa.UnOp, dst int32) func(f *Frame) {
	a := w.opnd(c, x.X)
	switch x.Op {
	case token.MUL:
		width := uint8(0)
		if k, ok := basicInt(x.Type()); ok {
			width = k.w
		}
		return func(f *Frame) {
			switch p := f.get(a).(type) {
			case *Value:
				if p == nil {
					f.w.nilDeref()
				}
				v := *p
				switch v.(type) {
				case Struct, Array:
					f.regs[dst] = f.w.load(p)
				default:
					if f.w.race != nil {
						f.w.race.readDeep(f.w, p)
					}
					f.regs[dst] = v
				}
			case *SymPtr:
				f.regs[dst] = f.w.symLoadT(p.arr, p.idx, width)
			case Poison:
				panic(unsupported("poison: %s", p.why))
			default:
				panic(unsupported("load through %T", p))
			}
		}
	case token.NOT:
		return func(f *Frame) { f.regs[dst] = f.w.notV(f.get(a)) }
	case token.SUB:
		if k, ok := basicInt(x.Type()); ok {
			return func(f *Frame) {
				switch v := f.get(a).(type) {
				case uint64:
					f.regs[dst] = (-v) & mask(k.w)
				case *Term:
					f.regs[dst] = f.w.fromTerm(f.w.ts.Bin(OSub, f.w.ts.Const(0, k.w), v))
				default:
					panic(unsupported("neg %T", v))
				}
			}
		}
		return func(f *Frame) {
			switch v := f.get(a).(type) {
			case float64:
				f.regs[dst] = -v
			case complex128:
				f.regs[dst] = -v
			default:
				panic(unsupported("neg %T", v))
			}
		}
	case token.XOR:
		k, _ := basicInt(x.Type())
		return func(f *Frame) {
			switch v := f.get(a).(type) {
			case uint64:
				f.regs[dst] = ^v & mask(k.w)
			case *Term:
				f.regs[dst] = f.w.fromTerm(f.w.ts.BvNot(v))
			default:
				panic(unsupported("xor %T", v))
			}
		}
	case token.ARROW:
		commaOk := x.CommaOk
		z := w.zero(x.X.Type().Underlying().(*types.Chan).Elem())
		return func(f *Frame) {
			v, ok := f.w.chanRecv(f.get(a).(*Chan))
			if !ok {
				v = z
			}
			if commaOk {
				f.regs[dst] = Tuple{v, ok}
			} else {
				f.regs[dst] = v
			}
		}
	}
	panic(unsupported("unop %s", x.Op))
}

func (w *Worker) symLoadT(arr []Value, idx *Term, width uint8) Value {
	lim := len(arr)
	if k, v := idx.support(); k == supOne && !w.multi[v] {
		if r := w.symLoadByte(arr, idx, v, width); r != nil {
			return r
		}
	}
	if u := ub(idx); u < uint64(lim) {
		lim = int(u) + 1
	}
	for _, e := range arr[:lim] {
		switch x := e.(type) {
		case uint64:
		case bool:
			width = 0
		case *Term:
			width = x.w
		default:
			k := w.concretize(idx)
			return copyVal(arr[k])
		}
	}
	return w.symLoadW(arr, idx, lim, width)
}

// symLoadByte reads a table of constants at an index that depends on one symbolic byte. The
// entry is an ite over runs of that byte's values; out of a big table (a parser's transition
// table) it is decided at once, so that what is computed from it stays simple.
func (w *Worker) symLoadByte(arr []Value, idx *Term, v *Term, width uint8) Value {
	d := w.domOf(v)
	type run struct {
		hi uint64
		t  *Term
	}
	var runs []run
	m := Model{}
	first := true
	for x := uint64(0); x < 256; x++ {
		if !d.has(x) {
			continue
		}
		m[v.name] = x
		w.ts.bmGen--
		k := w.ts.eval(idx, m, w.ts.bmGen)
		if k >= uint64(len(arr)) {
			return nil
		}
		switch e := arr[k].(type) {
		case uint64:
		case bool:
			width = 0
		case *Term:
			return nil
		default:
			_ = e
			return nil
		}
		t := w.term(arr[k], width)
		if n := len(runs); !first && runs[n-1].t == t {
			runs[n-1].hi = x
		} else {
			runs = append(runs, run{x, t})
		}
		first = false
	}
	if len(runs) == 0 {
		return nil
	}
	var build func(lo, hi int) *Term
	build = func(lo, hi int) *Term {
		if lo == hi {
			return runs[lo].t
		}
		mid := (lo + hi) / 2
		c := w.ts.Not(w.ts.Bin(OUlt, w.ts.Const(runs[mid].hi, v.w), v))
		return w.ts.Ite(c, build(lo, mid), build(mid+1, hi))
	}
	t := build(0, len(runs)-1)
	if len(arr) > 512 && t.op != OConst && t.w > 0 {
		return w.concretize(t)
	}
	return w.fromTerm(t)
}

func (w *Worker) compileBin(op token.Token, tx, ty types.Type) func(w *Worker, x, y Value) Value {
	if k, ok := basicInt(tx); ok {
		if op == token.SHL || op == token.SHR {
			k2, _ := basicInt(ty)
			return func(w *Worker, x, y Value) Value { return w.shift(op, k, k2, x, y) }
		}
		return func(w *Worker, x, y Value) Value { return w.intOp(op, k, x, y) }
	}
	u := tx.Underlying()
	if b, ok := u.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsString != 0:
			return func(w *Worker, x, y Value) Value { return w.strOp(op, x, y) }
		case b.Info()&types.IsFloat != 0:
			f32 := b.Kind() == types.Float32
			return func(w *Worker, x, y Value) Value {
				a, ok1 := x.(float64)
				c, ok2 := y.(float64)
				if !ok1 || !ok2 {
					panic(unsupported("float op on %T %T", x, y))
				}
				var r float64
				switch op {
				case token.ADD:
					r = a + c
				case token.SUB:
					r = a - c
				case token.MUL:
					r = a * c
				case token.QUO:
					r = a / c
				case token.EQL:
					return a == c
				case token.NEQ:
					return a != c
				case token.LSS:
					return a < c
				case token.LEQ:
					return a <= c
				case token.GTR:
					return a > c
				case token.GEQ:
					return a >= c
				}
				if f32 {
					r = float64(float32(r))
				}
				return r
			}
		case b.Info()&types.IsComplex != 0:
			return func(w *Worker, x, y Value) Value {
				a, c := x.(complex128), y.(complex128)
				switch op {
				case token.ADD:
					return a + c
				case token.SUB:
					return a - c
				case token.MUL:
					return a * c
				case token.QUO:
					return a / c
				case token.EQL:
					return a == c
				case token.NEQ:
					return a != c
				}
				panic(unsupported("complex op"))
			}
		}
	}
	switch op {
	case token.EQL, token.NEQ:
		ix, iy := types.IsInterface(tx), types.IsInterface(ty)
		return func(w *Worker, x, y Value) Value {
			if p, ok := x.(Poison); ok {
				panic(unsupported("poison: %s", p.why))
			}
			if ix && !iy {
				y = Iface{ty, y}
			} else if iy && !ix {
				x = Iface{tx, x}
			}
			r := w.equal(x, y)
			if op == token.NEQ {
				return w.notV(r)
			}
			return r
		}
	case token.AND, token.OR, token.XOR: // booleans
	}
	return func(w *Worker, x, y Value) Value { panic(unsupported("binop %s on %s", op, tx)) }
}

func (w *Worker) shift(op token.Token, k, k2 intKind, x, y Value) Value {
	if a, ok := x.(uint64); ok {
		if b, ok := y.(uint64); ok {
			if k2.signed && sext(b, k2.w) < 0 {
				w.runtimePanic("negative shift amount")
			}
			if op == token.SHL {
				if b >= uint64(k.w) {
					return uint64(0)
				}
				return (a << b) & mask(k.w)
			}
			if k.signed {
				return evalOp(OAshr, k.w, a, b)
			}
			return evalOp(OLshr, k.w, a, b)
		}
	}
	xt, yt := w.term(x, k.w), w.term(y, k2.w)
	if k2.signed {
		if _, sym := y.(*Term); sym {
			if !w.branchV(w.fromTerm(w.ts.Not(w.ts.Bin(OSlt, yt, w.ts.Const(0, yt.w))))) {
				w.runtimePanic("negative shift amount")
			}
		}
	}
	// bring the amount to the operand's width, saturating
	if yt.w > k.w {
		big := w.ts.Not(w.ts.Bin(OUlt, yt, w.ts.Const(uint64(k.w), yt.w)))
		yt = w.ts.Ite(big, w.ts.Const(uint64(k.w), k.w), w.ts.Trunc(yt, k.w))
	} else {
		yt = w.ts.Zext(yt, k.w)
	}
	o := OShl
	if op == token.SHR {
		o = OLshr
		if k.signed {
			o = OAshr
		}
	}
	return w.fromTerm(w.ts.Bin(o, xt, yt))
}

func (w *Worker) intOp(op token.Token, k intKind, x, y Value) Value {
	a, ok1 := x.(uint64)
	b, ok2 := y.(uint64)
	if ok1 && ok2 {
		m := mask(k.w)
		switch op {
		case token.ADD:
			return (a + b) & m
		case token.SUB:
			return (a - b) & m
		case token.MUL:
			return (a * b) & m
		case token.QUO, token.REM:
			if b == 0 {
				w.runtimePanic("integer divide by zero")
			}
			o := OUdiv
			switch {
			case op == token.QUO && k.signed:
				o = OSdiv
			case op == token.REM && k.signed:
				o = OSrem
			case op == token.REM:
				o = OUrem
			}
			return evalOp(o, k.w, a, b)
		case token.AND:
			return a & b
		case token.OR:
			return a | b
		case token.XOR:
			return a ^ b
		case token.AND_NOT:
			return a &^ b
		case token.EQL:
			return a == b
		case token.NEQ:
			return a != b
		}
		if k.signed {
			sa, sb := sext(a, k.w), sext(b, k.w)
			switch op {
			case token.LSS:
				return sa < sb
			case token.LEQ:
				return sa <= sb
			case token.GTR:
				return sa > sb
			case token.GEQ:
				return sa >= sb
			}
		}
		switch op {
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
		panic(unsupported("int op %s", op))
	}
	if p, ok := x.(Poison); ok {
		panic(unsupported("poison: %s", p.why))
	}
	if p, ok := y.(Poison); ok {
		panic(unsupported("poison: %s", p.why))
	}
	xt, yt := w.term(x, k.w), w.term(y, k.w)
	ts := w.ts
	var r *Term
	lt, le := OUlt, OUle
	if k.signed {
		lt, le = OSlt, OSle
	}
	switch op {
	case token.ADD:
		r = ts.Bin(OAdd, xt, yt)
	case token.SUB:
		r = ts.Bin(OSub, xt, yt)
	case token.MUL:
		r = ts.Bin(OMul, xt, yt)
	case token.QUO, token.REM:
		if w.branchV(w.fromTerm(ts.Eq(yt, ts.Const(0, k.w)))) {
			w.runtimePanic("integer divide by zero")
		}
		switch {
		case op == token.QUO && k.signed:
			r = ts.Bin(OSdiv, xt, yt)
		case op == token.QUO:
			r = ts.Bin(OUdiv, xt, yt)
		case k.signed:
			r = ts.Bin(OSrem, xt, yt)
		default:
			r = ts.Bin(OUrem, xt, yt)
		}
	case token.AND:
		r = ts.Bin(OBvand, xt, yt)
	case token.OR:
		r = ts.Bin(OBvor, xt, yt)
	case token.XOR:
		r = ts.Bin(OBvxor, xt, yt)
	case token.AND_NOT:
		r = ts.Bin(OBvand, xt, ts.BvNot(yt))
	case token.EQL:
		r = ts.Eq(xt, yt)
	case token.NEQ:
		r = ts.Not(ts.Eq(xt, yt))
	case token.LSS:
		r = ts.Bin(lt, xt, yt)
	case token.LEQ:
		r = ts.Bin(le, xt, yt)
	case token.GTR:
		r = ts.Bin(lt, yt, xt)
	case token.GEQ:
		r = ts.Bin(le, yt, xt)
	default:
		panic(unsupported("int op %s", op))
	}
	return w.fromTerm(r)
}

func (w *Worker) strOp(op token.Token, x, y Value) Value {
	switch op {
	case token.ADD:
		return strConcat(x, y)
	case token.EQL:
		return w.equal(x, y)
	case token.NEQ:
		return w.notV(w.equal(x, y))
	case token.LSS:
		return w.strLess(x, y)
	case token.GTR:
		return w.strLess(y, x)
	case token.LEQ:
		return w.notV(w.strLess(y, x))
	case token.GEQ:
		return w.notV(w.strLess(x, y))
	}
	panic(unsupported("string op %s", op))
}

func (w *Worker) compileConv(from, to types.Type) func(w *Worker, v Value) Value {
	uf, ut := from.Underlying(), to.Underlying()
	if kf, ok := basicInt(uf); ok {
		if kt, ok := basicInt(ut); ok {
			return func(w *Worker, v Value) Value { return w.convInt(v, kf, kt) }
		}
		if b, ok := ut.(*types.Basic); ok {
			if b.Info()&types.IsFloat != 0 {
				f32 := b.Kind() == types.Float32
				return func(w *Worker, v Value) Value {
					u, ok := v.(uint64)
					if !ok {
						u = w.concretize(v.(*Term))
					}
					var r float64
					if kf.signed {
						r = float64(sext(u, kf.w))
					} else {
						r = float64(u)
					}
					if f32 {
						r = float64(float32(r))
					}
					return r
				}
			}
			if b.Info()&types.IsString != 0 {
				return func(w *Worker, v Value) Value {
					if u, ok := v.(uint64); ok {
						return string(rune(sext(u, kf.w)))
					}
					return mkStr(w.encodeRune(w.convInt(v, kf, intKind{32, true})))
				}
			}
			if b.Kind() == types.UnsafePointer {
				return func(w *Worker, v Value) Value { panic(unsupported("uintptr to pointer")) }
			}
		}
	}
	if bf, ok := uf.(*types.Basic); ok {
		switch {
		case bf.Info()&types.IsFloat != 0:
			if kt, ok := basicInt(ut); ok {
				return func(w *Worker, v Value) Value {
					fl := v.(float64)
					if kt.signed {
						return uint64(int64(fl)) & mask(kt.w)
					}
					if fl >= math.MaxInt64 {
						return uint64(fl) & mask(kt.w)
					}
					return uint64(int64(fl)) & mask(kt.w)
				}
			}
			if b, ok := ut.(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
				f32 := b.Kind() == types.Float32
				return func(w *Worker, v Value) Value {
					if f32 {
						return float64(float32(v.(float64)))
					}
					return v
				}
			}
		case bf.Info()&types.IsString != 0:
			if s, ok := ut.(*types.Slice); ok {
				if k, _ := basicInt(s.Elem()); k.w == 8 {
					return func(w *Worker, v Value) Value {
						b := strBytes(v)
						r := make(Slice, len(b))
						copy(r, b)
						return r
					}
				}
				return func(w *Worker, v Value) Value { return w.strRunes(v) }
			}
			return func(w *Worker, v Value) Value { return v }
		case bf.Kind() == types.UnsafePointer:
			return func(w *Worker, v Value) Value { return v }
		}
	}
	if s, ok := uf.(*types.Slice); ok {
		if b, ok := ut.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if k, _ := basicInt(s.Elem()); k.w == 8 {
				return func(w *Worker, v Value) Value {
					sl := v.(Slice)
					c := make([]Value, len(sl))
					copy(c, sl)
					if w.race != nil {
						for i := range sl {
							w.race.readDeep(w, &sl[i])
						}
					}
					return mkStr(c)
				}
			}
			return func(w *Worker, v Value) Value {
				var out []Value
				for _, r := range v.(Slice) {
					out = append(out, w.encodeRune(r)...)
				}
				return mkStr(out)
			}
		}
		if _, ok := ut.(*types.Array); ok {
			return func(w *Worker, v Value) Value { return copyVal(Array(v.(Slice))) }
		}
	}
	return func(w *Worker, v Value) Value { return v }
}

func (w *Worker) convInt(v Value, kf, kt intKind) Value {
	switch x := v.(type) {
	case uint64:
		if kf.signed && kt.w > kf.w {
			return uint64(sext(x, kf.w)) & mask(kt.w)
		}
		return x & mask(kt.w)
	case *Term:
		var r *Term
		switch {
		case kt.w < kf.w:
			r = w.ts.Trunc(x, kt.w)
		case kt.w > kf.w && kf.signed:
			r = w.ts.Sext(x, kt.w)
		case kt.w > kf.w:
			r = w.ts.Zext(x, kt.w)
		default:
			r = x
		}
		return w.fromTerm(r)
	case *Value:
		return v // unsafe.Pointer -> uintptr
	case Poison:
		return v
	}
	panic(unsupported("conversion of %T", v))
}

func (w *Worker) compileSlice(c *fnCode, x *ssa.Slice, dst int32) func(f *Frame) {
	a := w.opnd(c, x.X)
	none := opnd{-1, nil}
	lo, hi, mx := none, none, none
	if x.Low != nil {
		lo = w.opnd(c, x.Low)
	}
	if x.High != nil {
		hi = w.opnd(c, x.High)
	}
	if x.Max != nil {
		mx = w.opnd(c, x.Max)
	}
	hasLo, hasHi, hasMx := x.Low != nil, x.High != nil, x.Max != nil
	return func(f *Frame) {
		w := f.w
		v := f.get(a)
		var n, cp int
		switch s := v.(type) {
		case string, *SymStr:
			n = strLen(s)
			cp = n
		case Slice:
			n, cp = len(s), cap(s)
		case *Value:
			if s == nil {
				w.nilDeref()
			}
			arr := (*s).(Array)
			n, cp = len(arr), len(arr)
		case Poison:
			panic(unsupported("poison: %s", s.why))
		default:
			panic(unsupported("slice of %T", v))
		}
		l, h, m := int64(0), int64(n), int64(cp)
		if hasLo {
			l = w.concInt(f.get(lo))
		}
		if hasHi {
			h = w.concInt(f.get(hi))
		}
		if hasMx {
			m = w.concInt(f.get(mx))
		}
		if l < 0 || h < l || m < h || m > int64(cp) {
			w.runtimePanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, m, cp))
		}
		switch s := v.(type) {
		case string, *SymStr:
			f.regs[dst] = strSlice(s, int(l), int(h))
		case Slice:
			if s == nil {
				f.regs[dst] = s
				return
			}
			f.regs[dst] = s[l:h:m]
		case *Value:
			arr := (*s).(Array)
			f.regs[dst] = Slice(arr[l:h:m])
		}
	}
}

// ---- types ----

type methKey struct {
	t types.Type
	m *types.Func
}

func (w *Worker) sameType(a, b types.Type) bool {
	if a == b {
		return true
	}
	return types.Identical(a, b)
}

func (w *Worker) typeKey(t types.Type) string {
	if s, ok := w.typeKeys[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	w.typeKeys[t] = s
	return s
}

func (w *Worker) implements(t types.Type, iface types.Type) bool {
	it, ok := iface.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	k := assertKey{t, iface}
	if r, ok := w.assertC[k]; ok {
		return r
	}
	w.p.tmu.Lock()
	r := types.Implements(t, it)
	w.p.tmu.Unlock()
	w.assertC[k] = r
	return r
}

type assertKey struct{ t, i types.Type }

func (w *Worker) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if fn, ok := w.methCache[k]; ok {
		return fn
	}
	fn := w.p.prog.LookupMethod(t, m.Pkg(), m.Name())
	w.methCache[k] = fn
	return fn
}

func (w *Worker) methodByName(t types.Type, name string) *ssa.Function {
	w.p.tmu.Lock()
	ms := w.p.prog.MethodSets.MethodSet(t)
	var sel *types.Selection
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			sel = ms.At(i)
		}
	}
	w.p.tmu.Unlock()
	if sel == nil {
		return nil
	}
	return w.p.prog.MethodValue(sel)
}
