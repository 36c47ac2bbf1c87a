package main

import (
	"net/url"
	"path"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// natives are pure library functions evaluated by the host when all arguments are
// concrete; with symbolic arguments their source is interpreted instead.
var natives = map[string]func(w *Worker, args []Value) (Value, bool){}

func init() {
	reg := map[string]any{
		"strings.Contains": strings.Contains, "strings.Index": strings.Index, "strings.LastIndex": strings.LastIndex,
		"strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.TrimSpace": strings.TrimSpace,
		"strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight,
		"strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix,
		"strings.Split": strings.Split, "strings.SplitN": strings.SplitN, "strings.Join": strings.Join, "strings.Fields": strings.Fields,
		"strings.Repeat": strings.Repeat, "strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll,
		"strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.EqualFold": strings.EqualFold,
		"strings.Count": strings.Count, "strings.IndexByte": strings.IndexByte, "strings.LastIndexByte": strings.LastIndexByte,
		"strings.ContainsRune": strings.ContainsRune, "strings.IndexRune": strings.IndexRune, "strings.ContainsAny": strings.ContainsAny, "strings.IndexAny": strings.IndexAny,
		"strings.Compare": strings.Compare,
		"strconv.Itoa":    strconv.Itoa, "strconv.Quote": strconv.Quote, "strconv.FormatInt": strconv.FormatInt,
		"path/filepath.Clean": filepath.Clean, "path/filepath.Base": filepath.Base, "path/filepath.Dir": filepath.Dir, "path/filepath.IsAbs": filepath.IsAbs,
		"path/filepath.Ext": filepath.Ext, "path.Clean": path.Clean, "path.Base": path.Base, "path.Dir": path.Dir,
		"unicode/utf8.RuneCountInString": utf8.RuneCountInString, "unicode/utf8.ValidString": utf8.ValidString, "unicode/utf8.RuneLen": utf8.RuneLen,
		"unicode.IsSpace": unicode.IsSpace, "unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsLetter": unicode.IsLetter,
		"unicode.IsDigit": unicode.IsDigit, "unicode.IsPrint": unicode.IsPrint, "unicode.ToLower": unicode.ToLower, "unicode.ToUpper": unicode.ToUpper, "unicode.IsControl": unicode.IsControl,
		"unicode.SimpleFold": unicode.SimpleFold, "unicode.IsPunct": unicode.IsPunct,
		"net/url.PathEscape": url.PathEscape,
	}
	for k, f := range reg {
		natives[k] = nat(f)
	}
	// decimal numbers with symbolic digits
	num := func(name string, at int, signed, app, base bool) {
		old := natives[name]
		natives[name] = func(w *Worker, a []Value) (Value, bool) {
			if _, ok := a[at].(*Term); ok && (!base || a[at+1] == Value(uint64(10))) {
				s := w.itoaSym(a[at], intKind{64, signed})
				if app {
					return w.appendSlice(a[0].(Slice), strBytes(s), 1), true
				}
				return s, true
			}
			if old == nil {
				return nil, false
			}
			return old(w, a)
		}
	}
	num("strconv.Itoa", 0, true, false, false)
	num("strconv.FormatInt", 0, true, false, true)
	num("strconv.FormatUint", 0, false, false, true)
	num("strconv.AppendInt", 1, true, true, true)
	num("strconv.AppendUint", 1, false, true, true)
}

func nat(fn any) func(w *Worker, args []Value) (Value, bool) {
	rf := reflect.ValueOf(fn)
	rt := rf.Type()
	return func(w *Worker, args []Value) (Value, bool) {
		in := make([]reflect.Value, rt.NumIn())
		for i := range in {
			v, ok := toHost(args[i], rt.In(i))
			if !ok {
				return nil, false
			}
			in[i] = v
		}
		var out []reflect.Value
		if rt.IsVariadic() {
			out = rf.CallSlice(in)
		} else {
			out = rf.Call(in)
		}
		if len(out) == 1 {
			return fromHost(out[0]), true
		}
		t := make(Tuple, len(out))
		for i, o := range out {
			t[i] = fromHost(o)
		}
		return t, true
	}
}

func toHost(v Value, t reflect.Type) (reflect.Value, bool) {
	switch t.Kind() {
	case reflect.String:
		s, ok := v.(string)
		if !ok {
			return reflect.Value{}, false
		}
		return reflect.ValueOf(s), true
	case reflect.Bool:
		b, ok := v.(bool)
		if !ok {
			return reflect.Value{}, false
		}
		return reflect.ValueOf(b), true
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		u, ok := v.(uint64)
		if !ok {
			return reflect.Value{}, false
		}
		r := reflect.New(t).Elem()
		r.SetInt(sext(u, uint8(t.Bits())))
		return r, true
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		u, ok := v.(uint64)
		if !ok {
			return reflect.Value{}, false
		}
		r := reflect.New(t).Elem()
		r.SetUint(u)
		return r, true
	case reflect.Slice:
		s, ok := v.(Slice)
		if !ok {
			return reflect.Value{}, false
		}
		if s == nil {
			return reflect.Zero(t), true
		}
		r := reflect.MakeSlice(t, len(s), len(s))
		for i, e := range s {
			x, ok := toHost(e, t.Elem())
			if !ok {
				return reflect.Value{}, false
			}
			r.Index(i).Set(x)
		}
		return r, true
	}
	return reflect.Value{}, false
}

func fromHost(v reflect.Value) Value {
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return v.Bool()
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		return uint64(v.Int()) & mask(uint8(v.Type().Bits()))
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		return v.Uint()
	case reflect.Slice:
		if v.IsNil() {
			return Slice(nil)
		}
		s := make(Slice, v.Len())
		for i := range s {
			s[i] = fromHost(v.Index(i))
		}
		return s
	case reflect.Float64:
		return v.Float()
	}
	panic(unsupported("native result %s", v.Kind()))
}
