package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// A formatter over target values: the subset of package fmt that bab uses.

type fmtFlags struct {
	minus, plus, sharp, zero, space bool
	wid, prec                       int
	hasWid, hasPrec                 bool
}

func (w *Worker) fmtPrintf(format string, args []Value) Value {
	var out Value = ""
	app := func(v Value) { out = strConcat(out, v) }
	ai := 0
	i := 0
	for i < len(format) {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			app(format[i:])
			break
		}
		app(format[i : i+j])
		i += j + 1
		var fl fmtFlags
	flags:
		for i < len(format) {
			switch format[i] {
			case '-':
				fl.minus = true
			case '+':
				fl.plus = true
			case '#':
				fl.sharp = true
			case '0':
				fl.zero = true
			case ' ':
				fl.space = true
			default:
				break flags
			}
			i++
		}
		num := func() (int, bool) {
			if i < len(format) && format[i] == '*' {
				i++
				if ai >= len(args) {
					return 0, false
				}
				a := args[ai].(Iface)
				ai++
				return int(w.concInt(a.v)), true
			}
			st := i
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				i++
			}
			if st == i {
				return 0, false
			}
			n, _ := strconv.Atoi(format[st:i])
			return n, true
		}
		fl.wid, fl.hasWid = num()
		if fl.hasWid && fl.wid < 0 {
			fl.minus = true
			fl.wid = -fl.wid
		}
		if i < len(format) && format[i] == '.' {
			i++
			fl.prec, fl.hasPrec = num()
			fl.hasPrec = true
		}
		if i >= len(format) {
			app("%!(NOVERB)")
			break
		}
		verb, n := utf8.DecodeRuneInString(format[i:])
		i += n
		if verb == '%' {
			app("%")
			continue
		}
		if ai >= len(args) {
			app("%!" + string(verb) + "(MISSING)")
			continue
		}
		a := args[ai]
		ai++
		ia, ok := a.(Iface)
		if !ok {
			panic(unsupported("fmt argument %T", a))
		}
		app(w.pad(w.fmtValue(ia, verb, fl), fl))
	}
	if ai < len(args) {
		app("%!(EXTRA ...)")
	}
	return out
}

func (w *Worker) pad(v Value, fl fmtFlags) Value {
	if !fl.hasWid {
		return v
	}
	n := 0
	if s, ok := v.(string); ok {
		n = utf8.RuneCountInString(s)
	} else {
		b := strBytes(v)
		for k := 0; k < len(b); {
			_, m := w.decodeRune(b, k)
			k += m
			n++
		}
	}
	if n >= fl.wid {
		return v
	}
	p := strings.Repeat(" ", fl.wid-n)
	if fl.minus {
		return strConcat(v, p)
	}
	if fl.zero {
		p = strings.Repeat("0", fl.wid-n)
	}
	return strConcat(p, v)
}

func (w *Worker) callMethodStr(i Iface, name string) (Value, bool) {
	fn := w.methodByName(i.t, name)
	if fn == nil {
		return nil, false
	}
	sg := fn.Signature
	if sg.Params().Len() != 0 || sg.Results().Len() != 1 {
		return nil, false
	}
	if b, ok := sg.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
		return nil, false
	}
	if p, ok := i.v.(*Value); ok && p == nil {
		return "<nil>", true
	}
	return w.callFn(fn, []Value{i.v}, nil), true
}

func (w *Worker) quote(v Value) Value {
	if s, ok := v.(string); ok {
		return strconv.Quote(s)
	}
	if w.lazyOK() {
		return &SymStr{lz: func() Value { return w.quoteNow(v) }}
	}
	return w.quoteNow(v)
}

func (w *Worker) lazyOK() bool { return true }

func (w *Worker) quoteNow(v Value) Value {
	v = mkStr(strBytes(v))
	if s, ok := v.(string); ok {
		return strconv.Quote(s)
	}
	fn := w.p.fn("strconv.Quote")
	if fn == nil {
		panic(unsupported("quote of symbolic string"))
	}
	return w.callFn(fn, []Value{v}, nil)
}

func (w *Worker) fmtValue(i Iface, verb rune, fl fmtFlags) Value {
	if i.t == nil {
		if verb == 'v' || verb == 's' {
			if verb == 's' {
				return "%!s(<nil>)"
			}
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if verb == 'T' {
		return types.TypeString(i.t, func(p *types.Package) string { return p.Name() })
	}
	if verb == 'p' {
		return "0x0"
	}
	if !(verb == 'v' && fl.sharp) {
		switch verb {
		case 'v', 's', 'q', 'x', 'X', 'w':
			for _, m := range []string{"Error", "String"} {
				if s, ok := w.callMethodStr(i, m); ok {
					return w.fmtStr(s, verb, fl)
				}
			}
		}
	}
	return w.fmtPlain(i.t, i.v, verb, fl, 0)
}

func (w *Worker) fmtStr(s Value, verb rune, fl fmtFlags) Value {
	if fl.hasPrec && (verb == 's' || verb == 'v') {
		if cs, ok := s.(string); ok {
			r := []rune(cs)
			if len(r) > fl.prec {
				s = string(r[:fl.prec])
			}
		} else {
			panic(unsupported("precision on symbolic string"))
		}
	}
	switch verb {
	case 'q':
		return w.quote(s)
	case 'x', 'X':
		if cs, ok := s.(string); ok {
			return fmt.Sprintf("%"+string(verb), cs)
		}
		panic(unsupported("%%x of symbolic string"))
	case 'v', 's', 'w':
		return s
	}
	return strConcat("%!"+string(verb)+"(string=", strConcat(s, ")"))
}

func (w *Worker) fmtPlain(t types.Type, v Value, verb rune, fl fmtFlags, depth int) Value {
	if depth > 0 {
		if _, isI := t.Underlying().(*types.Interface); !isI {
			for _, m := range []string{"Error", "String"} {
				if s, ok := w.callMethodStr(Iface{t, v}, m); ok {
					return w.fmtStr(s, verb, fl)
				}
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return w.fmtStr(v, verb, fl)
		case u.Info()&types.IsBoolean != 0:
			if w.branchV(v) {
				return "true"
			}
			return "false"
		case u.Info()&types.IsInteger != 0:
			k, _ := basicInt(u)
			if _, sym := v.(*Term); sym && (verb == 'd' || verb == 'v') {
				return w.itoaSym(v, k)
			}
			x, ok := v.(uint64)
			if !ok {
				x = w.concretize(v.(*Term))
			}
			var a any
			if k.signed {
				a = sext(x, k.w)
				if k.w == 32 && (verb == 'c' || verb == 'q' || verb == 'U') {
					a = rune(sext(x, k.w))
				}
			} else {
				a = x
				if k.w == 8 {
					a = uint8(x)
				}
			}
			f := "%"
			if fl.sharp {
				f += "#"
			}
			if fl.plus {
				f += "+"
			}
			if fl.zero && fl.hasWid {
				f += "0" + strconv.Itoa(fl.wid)
			}
			return fmt.Sprintf(f+string(verb), a)
		case u.Info()&types.IsFloat != 0:
			f := "%"
			if fl.hasPrec {
				f += "." + strconv.Itoa(fl.prec)
			}
			return fmt.Sprintf(f+string(verb), v.(float64))
		}
	case *types.Pointer:
		p, ok := v.(*Value)
		if !ok || p == nil {
			return "<nil>"
		}
		if depth == 0 {
			if _, ok := u.Elem().Underlying().(*types.Struct); ok && verb == 'v' {
				return strConcat("&", w.fmtPlain(u.Elem(), *p, verb, fl, depth+1))
			}
		}
		return "0xc000000000"
	case *types.Slice:
		s := v.(Slice)
		if k, ok := basicInt(u.Elem()); ok && k.w == 8 && (verb == 's' || verb == 'q' || verb == 'x') {
			return w.fmtStr(mkStr(append([]Value(nil), s...)), verb, fl)
		}
		var out Value = "["
		for i, e := range s {
			if i > 0 {
				out = strConcat(out, " ")
			}
			out = strConcat(out, w.fmtElem(u.Elem(), e, verb, fl, depth))
		}
		return strConcat(out, "]")
	case *types.Array:
		var out Value = "["
		for i, e := range v.(Array) {
			if i > 0 {
				out = strConcat(out, " ")
			}
			out = strConcat(out, w.fmtElem(u.Elem(), e, verb, fl, depth))
		}
		return strConcat(out, "]")
	case *types.Map:
		m, _ := v.(*Map)
		var out Value = "map["
		if m != nil {
			li := m.liveIdx()
			sort.SliceStable(li, func(a, b int) bool {
				x, ok1 := m.ents[li[a]].k.(string)
				y, ok2 := m.ents[li[b]].k.(string)
				return ok1 && ok2 && x < y
			})
			for n, i := range li {
				if n > 0 {
					out = strConcat(out, " ")
				}
				out = strConcat(out, w.fmtElem(u.Key(), m.ents[i].k, verb, fl, depth))
				out = strConcat(out, ":")
				out = strConcat(out, w.fmtElem(u.Elem(), m.ents[i].v, verb, fl, depth))
			}
		}
		return strConcat(out, "]")
	case *types.Struct:
		var out Value = "{"
		for i, e := range v.(Struct) {
			if i > 0 {
				out = strConcat(out, " ")
			}
			if fl.plus {
				out = strConcat(out, u.Field(i).Name()+":")
			}
			out = strConcat(out, w.fmtElem(u.Field(i).Type(), e, verb, fl, depth))
		}
		return strConcat(out, "}")
	case *types.Interface:
		i := v.(Iface)
		if i.t == nil {
			return "<nil>"
		}
		return w.fmtPlain(i.t, i.v, verb, fl, depth+1)
	case *types.Signature, *types.Chan:
		return "0x1"
	}
	panic(unsupported("fmt %%%c of %s", verb, t))
}

func (w *Worker) fmtElem(t types.Type, v Value, verb rune, fl fmtFlags, depth int) Value {
	fl.hasWid = false
	if i, ok := v.(Iface); ok {
		if i.t == nil {
			return "<nil>"
		}
		return w.fmtPlain(i.t, i.v, verb, fl, depth+1)
	}
	return w.fmtPlain(t, v, verb, fl, depth+1)
}

// itoaSym renders a symbolic integer in decimal, forking on sign and number of digits.
func (w *Worker) itoaSym(v Value, k intKind) Value {
	t := v.(*Term)
	ts := w.ts
	neg := false
	x := t
	if k.signed {
		neg = w.branchV(w.fromTerm(ts.Bin(OSlt, t, ts.Const(0, k.w))))
		if neg {
			x = ts.Bin(OSub, ts.Const(0, k.w), t)
		}
	}
	p := uint64(10)
	n := 1
	for n < 19 {
		if p > mask(k.w) || w.branchV(w.fromTerm(ts.Bin(OUlt, x, ts.Const(p, k.w)))) {
			break
		}
		p *= 10
		n++
	}
	if n > 6 {
		// large values: enumerate instead of dividing symbolically
		return fmt.Sprint(sext(w.concretize(t), k.w))
	}
	d := make([]Value, n)
	if n == 1 {
		return signed(neg, mkStr([]Value{w.fromTerm(ts.Bin(OAdd, ts.Trunc(x, 8), ts.Const('0', 8)))}))
	}
	if n <= 4 && k.w > 16 {
		x, k.w = ts.Trunc(x, 16), 16
	} else if k.w > 32 {
		x, k.w = ts.Trunc(x, 32), 32
	}
	div := uint64(1)
	for i := n - 1; i >= 0; i-- {
		q := ts.Bin(OUrem, ts.Bin(OUdiv, x, ts.Const(div, k.w)), ts.Const(10, k.w))
		d[i] = w.fromTerm(ts.Trunc(ts.Bin(OAdd, q, ts.Const('0', k.w)), 8))
		div *= 10
	}
	return signed(neg, mkStr(d))
}

func signed(neg bool, s Value) Value {
	if neg {
		return strConcat("-", s)
	}
	return s
}

// Sprint / Sprintln semantics.
func (w *Worker) fmtPrint(args []Value, ln bool) Value {
	var out Value = ""
	prevStr := true
	for n, a := range args {
		i := a.(Iface)
		isStr := false
		if i.t != nil {
			if b, ok := i.t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				isStr = true
			}
		}
		if n > 0 && (ln || (!isStr && !prevStr)) {
			out = strConcat(out, " ")
		}
		out = strConcat(out, w.fmtValue(i, 'v', fmtFlags{}))
		prevStr = isStr
	}
	if ln {
		out = strConcat(out, "\n")
	}
	return out
}
