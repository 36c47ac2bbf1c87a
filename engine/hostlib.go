package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/types"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"gopkg.in/yaml.v3"
)

// YAML and JSON are decoded by the host libraries. Symbolic runs inside the text are replaced
// by markers first and put back into the decoded values; the alphabets of the symbolic bytes
// are checked so that a marker scans exactly like every value it stands for.

type markers struct {
	runs  [][]Value
	times []Value
}

var markRe = regexp.MustCompile(`zQ[0-9]+Qz`)

func (w *Worker) marks() *markers {
	if m, ok := w.side["markers"].(*markers); ok {
		return m
	}
	m := &markers{}
	w.side["markers"] = m
	return m
}

func (w *Worker) mark(run []Value) string {
	m := w.marks()
	m.runs = append(m.runs, run)
	return fmt.Sprintf("zQ%dQz", len(m.runs)-1)
}

// mText renders a string with markers for its symbolic runs.
func (w *Worker) mText(v Value) string {
	if s, ok := v.(string); ok {
		return s
	}
	b := strBytes(v)
	var sb strings.Builder
	for i := 0; i < len(b); {
		if u, ok := b[i].(uint64); ok {
			sb.WriteByte(byte(u))
			i++
			continue
		}
		j := i
		for j < len(b) {
			if _, ok := b[j].(*Term); !ok {
				break
			}
			j++
		}
		sb.WriteString(w.mark(b[i:j]))
		i = j
	}
	return sb.String()
}

func (w *Worker) unmark(s string) Value {
	if !strings.Contains(s, "zQ") {
		return s
	}
	var out Value = ""
	last := 0
	for _, m := range markRe.FindAllStringIndex(s, -1) {
		n, _ := strconv.Atoi(s[m[0]+2 : m[1]-2])
		if n >= len(w.marks().runs) {
			continue
		}
		out = strConcat(out, s[last:m[0]])
		out = strConcat(out, mkStr(append([]Value(nil), w.marks().runs[n]...)))
		last = m[1]
	}
	return strConcat(out, s[last:])
}

const plainOK = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"

func (w *Worker) alphaOf(t *Term) (string, bool) {
	if t.op == OVar {
		if a, ok := w.alpha[t]; ok {
			return a, true
		}
	}
	return "", false
}

// checkRun verifies that every byte of the run can only take values that scan like the marker.
func (w *Worker) checkRun(run []Value, plain bool, what string) {
	for _, v := range run {
		t := v.(*Term)
		var set bitmap
		ok := plainOK
		if !plain {
			ok = ""
			for c := byte(0x20); c < 0x7f; c++ {
				if c != '"' && c != '\\' && c != '\'' {
					ok += string(c)
				}
			}
		}
		for i := 0; i < len(ok); i++ {
			set[ok[i]>>6] |= 1 << (ok[i] & 63)
		}
		k, vr := t.support()
		if k == supOne && vr == t {
			if !w.domOf(vr).andNot(set).empty() {
				panic(unsupported("symbolic byte in %s may need quoting", what))
			}
			continue
		}
		panic(unsupported("derived symbolic byte in %s", what))
	}
}

var yamlWords = []string{"null", "Null", "NULL", "true", "True", "TRUE", "false", "False", "FALSE", "y", "Y", "yes", "Yes", "YES", "on", "On", "ON", "n", "N", "no", "No", "NO", "off", "Off", "OFF"}

func (w *Worker) yamlRead(text Value) (*yaml.Node, error) {
	s := w.mText(text)
	var n yaml.Node
	err := yaml.Unmarshal([]byte(s), &n)
	if err != nil {
		return nil, err
	}
	return &n, nil
}

func (w *Worker) checkYamlScalar(n *yaml.Node) {
	if !strings.Contains(n.Value, "zQ") {
		return
	}
	plain := n.Style&(yaml.DoubleQuotedStyle|yaml.SingleQuotedStyle|yaml.LiteralStyle|yaml.FoldedStyle) == 0
	for _, m := range markRe.FindAllString(n.Value, -1) {
		k, _ := strconv.Atoi(m[2 : len(m)-2])
		w.checkRun(w.marks().runs[k], plain, "YAML text")
	}
	if plain {
		v := w.unmark(n.Value)
		for _, wd := range yamlWords {
			if len(wd) == strLen(v) && w.branchV(w.equal(v, wd)) {
				// the scalar is this reserved word: decode it as such
				var d yaml.Node
				if yaml.Unmarshal([]byte(wd), &d) == nil && len(d.Content) == 1 {
					n.Tag = d.Content[0].Tag
					n.Value = wd
				}
				return
			}
		}
	}
}

type nodeConv struct {
	w     *Worker
	nt    *types.Named
	st    *types.Struct
	idx   map[string]int
	memo  map[*yaml.Node]*Value
	back  map[*Value]*yaml.Node
	toMrk bool
}

func (w *Worker) newNodeConv() *nodeConv {
	pk := w.p.pkgs["gopkg.in/yaml.v3"]
	nt := pk.Members["Node"].(*ssa.Type).Type().(*types.Named)
	st := nt.Underlying().(*types.Struct)
	c := &nodeConv{w: w, nt: nt, st: st, idx: map[string]int{}, memo: map[*yaml.Node]*Value{}, back: map[*Value]*yaml.Node{}}
	for i := 0; i < st.NumFields(); i++ {
		c.idx[st.Field(i).Name()] = i
	}
	return c
}

func (c *nodeConv) fill(s Struct, n *yaml.Node) {
	c.w.checkYamlScalar(n)
	set := func(f string, v Value) { s[c.idx[f]] = v }
	set("Kind", uint64(n.Kind))
	set("Style", uint64(n.Style))
	set("Tag", n.Tag)
	set("Value", c.w.unmark(n.Value))
	set("Anchor", c.w.unmark(n.Anchor))
	if n.Alias != nil {
		set("Alias", c.to(n.Alias))
	}
	if n.Content != nil {
		ct := make(Slice, len(n.Content))
		for i, k := range n.Content {
			ct[i] = c.to(k)
		}
		set("Content", ct)
	}
	set("Line", uint64(n.Line))
	set("Column", uint64(n.Column))
}

func (c *nodeConv) to(n *yaml.Node) *Value {
	if p, ok := c.memo[n]; ok {
		return p
	}
	p := new(Value)
	*p = c.w.zero(c.nt)
	c.memo[n] = p
	c.fill((*p).(Struct), n)
	return p
}

// from converts an engine node back to a host node, with markers for symbolic values.
func (c *nodeConv) from(p *Value, conc bool) *yaml.Node {
	if p == nil {
		return nil
	}
	if n, ok := c.back[p]; ok {
		return n
	}
	n := &yaml.Node{}
	c.back[p] = n
	s := (*p).(Struct)
	get := func(f string) Value { return s[c.idx[f]] }
	n.Kind = yaml.Kind(get("Kind").(uint64))
	n.Style = yaml.Style(get("Style").(uint64))
	n.Tag = c.w.concStr(get("Tag"))
	if conc {
		n.Value = c.w.concStr(get("Value"))
	} else {
		n.Value = c.w.mText(get("Value"))
	}
	n.Anchor = c.w.mText(get("Anchor"))
	n.Line = int(get("Line").(uint64))
	n.Column = int(get("Column").(uint64))
	n.Alias = c.from(get("Alias").(*Value), conc)
	ct, _ := get("Content").(Slice)
	for _, k := range ct {
		n.Content = append(n.Content, c.from(k.(*Value), conc))
	}
	return n
}

var timeType = reflect.TypeOf(time.Time{})

// hostType mirrors a target type; hasNum reports numeric or boolean parts.
func (w *Worker) hostType(t types.Type) (rt reflect.Type, hasNum bool) {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time" {
			return timeType, false
		}
		for _, m := range []string{"UnmarshalYAML", "UnmarshalJSON", "MarshalJSON", "UnmarshalText", "MarshalText"} {
			if w.methodByName(types.NewPointer(t), m) != nil {
				panic(unsupported("custom (un)marshalling of %s", t))
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.String:
			return reflect.TypeOf(""), false
		case types.Bool:
			return reflect.TypeOf(false), true
		case types.Int:
			return reflect.TypeOf(int(0)), true
		case types.Int64:
			return reflect.TypeOf(int64(0)), true
		case types.Int32:
			return reflect.TypeOf(int32(0)), true
		case types.Uint64:
			return reflect.TypeOf(uint64(0)), true
		case types.Uint:
			return reflect.TypeOf(uint(0)), true
		case types.Uint32:
			return reflect.TypeOf(uint32(0)), true
		case types.Float64:
			return reflect.TypeOf(float64(0)), true
		}
	case *types.Slice:
		e, n := w.hostType(u.Elem())
		return reflect.SliceOf(e), n
	case *types.Pointer:
		e, n := w.hostType(u.Elem())
		return reflect.PointerTo(e), n
	case *types.Map:
		k, _ := w.hostType(u.Key())
		e, n := w.hostType(u.Elem())
		return reflect.MapOf(k, e), n
	case *types.Interface:
		return reflect.TypeOf((*any)(nil)).Elem(), true
	case *types.Struct:
		var fs []reflect.StructField
		num := false
		for i := 0; i < u.NumFields(); i++ {
			if !u.Field(i).Exported() {
				continue
			}
			e, n := w.hostType(u.Field(i).Type())
			num = num || n
			fs = append(fs, reflect.StructField{Name: u.Field(i).Name(), Type: e, Tag: reflect.StructTag(u.Tag(i)), Anonymous: false})
		}
		return reflect.StructOf(fs), num
	}
	panic(unsupported("host type for %s", t))
}

func (w *Worker) timeTo(v Value) time.Time {
	s := v.(Struct)
	ext := s[1]
	if t, ok := ext.(*Term); ok {
		m := w.marks()
		m.times = append(m.times, t)
		return time.Date(8000, 1, 1, 0, 0, len(m.times)-1, 0, time.UTC)
	}
	wall := s[0].(uint64)
	if wall>>63 != 0 {
		panic(unsupported("monotonic time"))
	}
	return time.Unix(int64(ext.(uint64))-unixToInternal, int64(wall&(1<<30-1))).UTC()
}

func (w *Worker) timeFrom(t time.Time) Value {
	t = t.UTC()
	if t.Year() == 8000 {
		k := int(t.Sub(time.Date(8000, 1, 1, 0, 0, 0, 0, time.UTC)) / time.Second)
		if m := w.marks(); k >= 0 && k < len(m.times) {
			return Struct{uint64(0), m.times[k], (*Value)(nil)}
		}
	}
	return Struct{uint64(t.Nanosecond()), uint64(t.Unix() + unixToInternal), (*Value)(nil)}
}

func (w *Worker) hostPut(dst reflect.Value, t types.Type, v Value) {
	if dst.Type() == timeType {
		dst.Set(reflect.ValueOf(w.timeTo(v)))
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch dst.Kind() {
		case reflect.String:
			dst.SetString(w.mText(v))
		case reflect.Bool:
			dst.SetBool(w.branchV(v))
		case reflect.Float64:
			dst.SetFloat(v.(float64))
		case reflect.Int, reflect.Int64, reflect.Int32:
			k, _ := basicInt(t)
			dst.SetInt(sext(w.concU(v), k.w))
		default:
			dst.SetUint(w.concU(v))
		}
	case *types.Slice:
		s := v.(Slice)
		if s == nil {
			return
		}
		dst.Set(reflect.MakeSlice(dst.Type(), len(s), len(s)))
		for i := range s {
			w.hostPut(dst.Index(i), u.Elem(), s[i])
		}
	case *types.Pointer:
		p := v.(*Value)
		if p == nil {
			return
		}
		dst.Set(reflect.New(dst.Type().Elem()))
		w.hostPut(dst.Elem(), u.Elem(), *p)
	case *types.Map:
		m := v.(*Map)
		if m == nil {
			return
		}
		dst.Set(reflect.MakeMap(dst.Type()))
		for _, i := range m.liveIdx() {
			k := reflect.New(dst.Type().Key()).Elem()
			e := reflect.New(dst.Type().Elem()).Elem()
			w.hostPut(k, u.Key(), m.ents[i].k)
			w.hostPut(e, u.Elem(), m.ents[i].v)
			dst.SetMapIndex(k, e)
		}
	case *types.Struct:
		s := v.(Struct)
		j := 0
		for i := 0; i < u.NumFields(); i++ {
			if !u.Field(i).Exported() {
				continue
			}
			w.hostPut(dst.Field(j), u.Field(i).Type(), s[i])
			j++
		}
	case *types.Interface:
		i := v.(Iface)
		if i.t == nil {
			return
		}
		rt, _ := w.hostType(i.t)
		e := reflect.New(rt).Elem()
		w.hostPut(e, i.t, i.v)
		dst.Set(e)
	default:
		panic(unsupported("hostPut %s", t))
	}
}

func (w *Worker) hostGet(src reflect.Value, t types.Type, old Value) Value {
	if src.Type() == timeType {
		return w.timeFrom(src.Interface().(time.Time))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if src.Kind() == reflect.String {
			return w.unmark(src.String())
		}
		return fromHost(src)
	case *types.Slice:
		if src.IsNil() {
			return Slice(nil)
		}
		s := make(Slice, src.Len())
		for i := range s {
			s[i] = w.hostGet(src.Index(i), u.Elem(), nil)
		}
		return s
	case *types.Pointer:
		if src.IsNil() {
			return (*Value)(nil)
		}
		p := new(Value)
		*p = w.hostGet(src.Elem(), u.Elem(), nil)
		return p
	case *types.Map:
		if src.IsNil() {
			return (*Map)(nil)
		}
		m := newMap(w.epoch)
		for _, k := range src.MapKeys() {
			w.mapSet(m, w.hostGet(k, u.Key(), nil), w.hostGet(src.MapIndex(k), u.Elem(), nil))
		}
		return m
	case *types.Struct:
		s := w.zero(t).(Struct)
		if o, ok := old.(Struct); ok {
			s = copyVal(o).(Struct)
		}
		j := 0
		for i := 0; i < u.NumFields(); i++ {
			if !u.Field(i).Exported() {
				continue
			}
			s[i] = w.hostGet(src.Field(j), u.Field(i).Type(), s[i])
			j++
		}
		return s
	case *types.Interface:
		if src.IsNil() {
			return Iface{}
		}
		var dyn types.Type
		switch src.Elem().Interface().(type) {
		case string:
			dyn = types.Typ[types.String]
		case bool:
			dyn = types.Typ[types.Bool]
		case int:
			dyn = types.Typ[types.Int]
		case float64:
			dyn = types.Typ[types.Float64]
		case []any:
			dyn = types.NewSlice(types.Universe.Lookup("any").Type())
		case map[string]any:
			dyn = types.NewMap(types.Typ[types.String], types.Universe.Lookup("any").Type())
		default:
			panic(unsupported("hostGet any of %s", src.Elem().Type()))
		}
		return Iface{dyn, w.hostGet(src.Elem(), dyn, nil)}
	}
	panic(unsupported("hostGet %s", t))
}

func (w *Worker) yamlErr(err error) Value {
	if te, ok := err.(*yaml.TypeError); ok {
		pk := w.p.pkgs["gopkg.in/yaml.v3"]
		s := make(Slice, len(te.Errors))
		for i, e := range te.Errors {
			s[i] = w.unmark(e)
		}
		p := new(Value)
		*p = Struct{s}
		return Iface{types.NewPointer(pk.Members["TypeError"].(*ssa.Type).Type()), p}
	}
	return w.strErr(w.unmark(err.Error()))
}

func initHostLib(I map[string]intrinsic) {
	isNode := func(t types.Type) bool {
		n, ok := types.Unalias(t).(*types.Named)
		return ok && n.Obj().Name() == "Node" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "gopkg.in/yaml.v3"
	}
	decodeNode := func(w *Worker, n func(conc bool) *yaml.Node, out Iface) Value {
		pt, ok := out.t.(*types.Pointer)
		if !ok {
			return w.strErr("yaml: cannot decode into non-pointer")
		}
		rt, num := w.hostType(pt.Elem())
		rv := reflect.New(rt)
		dst := out.v.(*Value)
		w.hostPut(rv.Elem(), pt.Elem(), *dst)
		err := n(num).Decode(rv.Interface())
		w.store(dst, w.hostGet(rv.Elem(), pt.Elem(), *dst))
		if err != nil {
			return w.yamlErr(err)
		}
		return Iface{}
	}
	I["gopkg.in/yaml.v3.Unmarshal"] = func(f *Frame, a []Value) Value {
		w := f.w
		text := mkStr(append([]Value(nil), a[0].(Slice)...))
		out := a[1].(Iface)
		n, err := w.yamlRead(text)
		if err != nil {
			return w.yamlErr(err)
		}
		pt, ok := out.t.(*types.Pointer)
		if ok && isNode(pt.Elem()) {
			if n.Kind != 0 {
				c := w.newNodeConv()
				w.store(out.v.(*Value), *c.to(n))
			}
			return Iface{}
		}
		if n.Kind == 0 {
			return Iface{}
		}
		return decodeNode(w, func(bool) *yaml.Node { return n }, out)
	}
	I["(*gopkg.in/yaml.v3.Node).Decode"] = func(f *Frame, a []Value) Value {
		w := f.w
		nilCheck(f, a[0])
		out := a[1].(Iface)
		p := a[0].(*Value)
		if pt, ok := out.t.(*types.Pointer); ok && isNode(pt.Elem()) {
			w.store(out.v.(*Value), copyVal(*p))
			return Iface{}
		}
		return decodeNode(w, func(conc bool) *yaml.Node { return w.newNodeConv().from(p, conc) }, out)
	}

	unJSON := func(w *Worker, text Value, out Iface) Value {
		pt, ok := out.t.(*types.Pointer)
		if !ok {
			return w.strErr("json: Unmarshal(non-pointer)")
		}
		rt, _ := w.hostType(pt.Elem())
		rv := reflect.New(rt)
		dst := out.v.(*Value)
		w.hostPut(rv.Elem(), pt.Elem(), *dst)
		err := json.Unmarshal([]byte(w.mText(text)), rv.Interface())
		w.store(dst, w.hostGet(rv.Elem(), pt.Elem(), *dst))
		if err != nil {
			return w.strErr(w.unmark(err.Error()))
		}
		return Iface{}
	}
	I["encoding/json.Unmarshal"] = func(f *Frame, a []Value) Value {
		return unJSON(f.w, mkStr(append([]Value(nil), a[0].(Slice)...)), a[1].(Iface))
	}
	mar := func(w *Worker, i Iface, prefix, indent string) Value {
		rt, _ := w.hostType(i.t)
		rv := reflect.New(rt)
		w.hostPut(rv.Elem(), i.t, i.v)
		b, err := json.Marshal(rv.Interface())
		if err != nil {
			return Tuple{Slice(nil), w.strErr(err.Error())}
		}
		if prefix != "" || indent != "" {
			var bb bytes.Buffer
			_ = json.Indent(&bb, b, prefix, indent)
			b = bb.Bytes()
		}
		return Tuple{w.byteSlice(string(b)), Iface{}}
	}
	I["encoding/json.Marshal"] = func(f *Frame, a []Value) Value { return mar(f.w, a[0].(Iface), "", "") }
	I["encoding/json.MarshalIndent"] = func(f *Frame, a []Value) Value {
		return mar(f.w, a[0].(Iface), f.w.concStr(a[1]), f.w.concStr(a[2]))
	}
	type dk struct{ p *Value }
	I["encoding/json.NewDecoder"] = func(f *Frame, a []Value) Value {
		p := new(Value)
		*p = Struct{}
		f.w.side[dk{p}] = a[0]
		return p
	}
	I["(*encoding/json.Decoder).Decode"] = func(f *Frame, a []Value) Value {
		w := f.w
		k := dk{a[0].(*Value)}
		rd, ok := w.side[k].(Iface)
		if !ok {
			panic(unsupported("json.Decoder"))
		}
		ra := w.p.fn("io.ReadAll")
		r := w.callFn(ra, []Value{rd}, nil).(Tuple)
		s := r[0].(Slice)
		e := r[1].(Iface)
		if len(s) == 0 {
			if e.t != nil {
				return e
			}
			g := w.p.pkgs["io"].Members["EOF"].(*ssa.Global)
			return *w.globalPtr(g)
		}
		// The decoder reads one value and ignores what follows it, an error of the reader included.
		text := w.mText(mkStr(append([]Value(nil), s...)))
		var raw json.RawMessage
		d := json.NewDecoder(strings.NewReader(text))
		if err := d.Decode(&raw); err != nil && e.t != nil {
			return e
		} else if err != nil {
			return w.strErr(w.unmark(err.Error()))
		}
		return unJSON(w, string(raw), a[1].(Iface))
	}
}
