package h32

import (
	"context"
	"encoding/json"
	"sort"
	"strconv"
	"strings"

	"github.com/bab-sh/bab/internal/parser"
	"github.com/bab-sh/bab/internal/schema"
	"github.com/bab-sh/bab/internal/zzverif/kit"
	"github.com/bab-sh/bab/internal/zzverif/model"
	"github.com/bab-sh/bab/internal/zzverif/modelrun"
	"github.com/bab-sh/bab/internal/zzverif/repofiles"
	"github.com/bab-sh/bab/internal/zzverif/sym"
	"github.com/invopop/jsonschema"
)

// judge tells what the schema and bab say of a document.
func judge(doc *node) (bySchema, byBab bool, err error) {
	text := doc.yaml() + "\n"
	sym.Log("document", text)
	model.Write(model.P("lib/Babfile.yml"), "tasks: {x: {run: [{cmd: x}]}}\n")
	model.Write(kit.Path(), text)
	_, err = parser.Parse(kit.Path())
	s := schema.GenerateSchema()
	return valid(s, s, doc), err == nil, err
}

func both(doc *node, what string) {
	s, b, err := judge(doc)
	sym.Assert(b, "bab rejects "+what+": "+kit.Msg(err))
	sym.Assert(s, "the schema rejects "+what)
}

func agree(doc *node, what string) {
	s, b, _ := judge(doc)
	sym.Assert(!s || b, "the schema accepts "+what+", bab does not")
	sym.Assert(s || !b, "bab accepts "+what+", the schema does not")
}

func neither(doc *node, what string) {
	s, b, _ := judge(doc)
	sym.Assert(!b, "bab accepts "+what)
	sym.Assert(!s, "the schema accepts "+what)
}

type setting struct {
	key    string
	values []*node
}

func flags() []*node { return []*node{is(true), is(false)} }

var (
	env       = setting{"env", []*node{obj("E", str("1")), obj("E", str("${{ v }}"), "F_2", str(""))}}
	vars      = setting{"vars", []*node{obj("w", str("x")), obj("_w", str("${{ v }}"), "W2", str("${{ env.HOME }}"))}}
	dir       = setting{"dir", []*node{str("."), str("./src"), str("${{ v }}/a b")}}
	platforms = setting{"platforms", []*node{words("linux"), words("darwin", "windows"), words("windows", "linux", "darwin")}}
	when      = setting{"when", []*node{str("${{ v }}"), str("${{ v }} == 'x'"), str("${{ v }} != \"x\"")}}
	silent    = setting{"silent", flags()}
	output    = setting{"output", flags()}
	label     = setting{"label", []*node{str("l"), str("a label")}}
	level     = setting{"level", []*node{str("debug"), str("info"), str("warn"), str("error")}}
	message   = setting{"message", []*node{str("Which one?")}}
)

// kinds of items: what they are made of, and what else they may have.
var kinds = []struct {
	what  string
	base  func() *node
	extra []setting
}{
	{"a command", func() *node { return obj("cmd", str("echo \"a\" 'b' # ${{ v }}")) }, []setting{dir, env, silent, output, platforms, when, label}},
	{"a task reference", func() *node { return obj("task", str("lib:x")) }, []setting{silent, output, platforms, when, label}},
	{"a log", func() *node { return obj("log", str("a ${{ v }}")) }, []setting{level, platforms, when}},
	{"a confirm prompt", prompt("confirm"), []setting{{"default", flags()}, platforms, when}},
	{"an input prompt", prompt("input"), []setting{{"default", words("my-app").kids}, {"placeholder", words("name").kids}, {"validate", words("^[a-z-]+$").kids}, platforms, when}},
	{"a select prompt", prompt("select"), []setting{{"default", words("b c", "a").kids}, platforms, when}},
	{"a multiselect prompt", prompt("multiselect"), []setting{{"defaults", []*node{words("a"), words("a", "b c")}}, {"min", []*node{num(1), num(0)}}, {"max", []*node{num(3), num(2)}}, platforms, when}},
	{"a password prompt", prompt("password"), []setting{{"confirm", flags()}, platforms, when}},
	{"a number prompt", prompt("number"), []setting{{"default", []*node{num(3), str("3"), num(1)}}, {"min", []*node{num(1), num(-2)}}, {"max", []*node{num(10), num(3)}}, platforms, when}},
	{"a parallel block", func() *node { return obj("parallel", list(obj("cmd", str("c")), obj("log", str("m")))) }, []setting{{"mode", words("interleaved", "grouped").kids}, {"limit", []*node{num(0), num(1), num(9)}}, {"color", flags()}, silent, output, platforms, when}},
}

func prompt(typ string) func() *node {
	return func() *node {
		n := obj("prompt", str("_p1"), "type", str(typ), "message", str("Which ${{ v }}?"))
		if strings.HasSuffix(typ, "select") {
			n.set("options", words("a", "b c", "3"))
		}
		return n
	}
}

// some gives a part any two of the settings it may have, each with any of its values.
func some(n *node, of []setting) {
	i, j := sym.Choice("first", len(of)+1), sym.Choice("second", len(of)+1)
	sym.Assume(i < j || i == len(of) && j == len(of))
	for _, k := range []int{i, j} {
		if k < len(of) {
			n.set(of[k].key, of[k].values[sym.Choice("value", len(of[k].values))])
		}
	}
}

func file(task *node) *node {
	return obj("vars", obj("v", str("x")), "includes", obj("lib", obj("babfile", str("./lib/Babfile.yml"))), "tasks", obj("d", obj("run", list(obj("cmd", str("d")))), "t", task))
}

// Items: an item of any kind with any two settings, as a part of a task or of a parallel block.
func Items() {
	kit.Setup()
	k := kinds[sym.Choice("kind", len(kinds))]
	it := k.base()
	some(it, k.extra)
	if it.get("cmd") != nil || it.get("task") != nil || it.get("log") != nil {
		if sym.Flag("in a block") {
			if it.get("log") != nil && sym.Flag("labelled") {
				it.set("label", str("l"))
			}
			it = obj("parallel", list(obj("cmd", str("c")), it))
		}
	}
	both(file(obj("run", list(obj("cmd", str("c")), it))), k.what)
}

// Settings: a task with any two settings and a file with any of its settings.
func Settings() {
	kit.Setup()
	t := obj()
	some(t, []setting{{"desc", words("Build it").kids}, {"alias", words("b", "a-b_C:9").kids}, {"aliases", []*node{words("e"), words("c", "d:e")}},
		vars, env, silent, output, dir, when, {"deps", []*node{words("d"), words("d", "lib:x")}}, {"run", []*node{list(obj("cmd", str("c")))}}})
	if len(t.keys) == 0 {
		t.set("desc", str(""))
	}
	doc := file(t)
	switch sym.Choice("file", 7) {
	case 1:
		doc.set("env", env.values[sym.Choice("env", 2)])
	case 2:
		doc.set("silent", is(sym.Flag("silent")))
	case 3:
		doc.set("output", is(sym.Flag("output")))
	case 4:
		doc.set("dir", dir.values[sym.Choice("dir", 3)])
	case 5:
		doc.without(0)
		doc.set("vars", obj("v", str("x"), "_9", str("${{ v }}")))
	case 6:
		doc = obj("tasks", doc.get("tasks"))
		sym.Assume(t.get("deps") == nil && t.get("when") == nil && t.get("env") == nil && t.get("vars") == nil && t.get("dir") == nil)
	}
	both(doc, "a documented setting")
}

// Words: any text where one of several words belongs.
func Words() {
	kit.Setup()
	w := sym.Choice("setting", 6)
	n := sym.Choice("length", 13)
	v := sym.StrN("word", n, "abcdefghijklmnopqrstuvwxyzL -")
	var it *node
	what := ""
	switch w {
	case 0:
		it, what = obj("log", str("m"), "level", str(v)), "level"
	case 1:
		it, what = obj("cmd", str("c"), "platforms", words("linux", v)), "platform"
	case 2:
		it, what = obj("parallel", list(obj("cmd", str("c"), "platforms", words(v)))), "platform"
	case 3:
		it, what = obj("parallel", list(obj("cmd", str("c"))), "mode", str(v)), "mode"
	case 4:
		it, what = obj("prompt", str("p"), "type", str(v), "message", str("m")), "type of a prompt"
		if v == "select" || v == "multiselect" {
			it.set("options", words("a"))
		}
	case 5:
		it, what = obj("parallel", list(obj("log", str("m"), "level", str(v)))), "level"
	}
	if n == 0 && (w == 0 || w == 3 || w == 5) {
		return // not given
	}
	if w == 1 {
		sym.Assume(v != "linux")
	}
	agree(file(obj("run", list(it))), "a "+what)
}

// Required: a part that lacks something or has too much.
func Required() {
	kit.Setup()
	c := sym.Choice("kind", len(kinds)+1)
	if c == len(kinds) {
		doc := file(obj("run", list(obj("cmd", str("c")))))
		doc.get("includes").kids[0] = obj()
		neither(doc, "an include without a file")
		return
	}
	k := kinds[c]
	it := k.base()
	what := k.what
	main := 1
	if it.keys[0] == "prompt" {
		main = 3
	}
	switch i := sym.Choice("change", 6); i {
	case 0, 1, 2:
		sym.Assume(i < main)
		what += " without " + it.keys[i]
		it.without(i)
		some(it, k.extra)
	case 3:
		for j := 0; j < main; j++ {
			if it.kids[j].kind == "string" && sym.Choice("empty", main) == j {
				what += " with an empty " + it.keys[j]
				it.kids[j] = str("")
			}
		}
		if it.get("parallel") != nil {
			what += " without items"
			it.kids[0] = list()
		}
		s, b, _ := judge(file(obj("run", list(it))))
		sym.Assert(s == b, "the schema and bab differ about "+what)
		return
	case 4:
		o := kinds[sym.Choice("other", len(kinds))].base()
		sym.Assume(o.keys[0] != it.keys[0])
		what += " that is something else as well"
		for j := range o.keys {
			it.set(o.keys[j], o.kids[j])
		}
	case 5:
		sym.Assume(it.get("prompt") != nil || it.get("parallel") != nil)
		what += " in a parallel block"
		it = obj("parallel", list(obj("cmd", str("c")), it))
	}
	neither(file(obj("run", list(it))), what)
}

// Bounds: numbers and lists that may be too small.
func Bounds() {
	kit.Setup()
	switch sym.Choice("setting", 3) {
	case 0:
		agree(file(obj("run", list(obj("parallel", list(obj("cmd", str("c"))), "limit", num(sym.ConcInt(sym.Int("limit", -3, 3))))))), "a limit")
	case 1:
		o := list()
		for i, n := 0, sym.Choice("options", 3); i < n; i++ {
			o.kids = append(o.kids, str(strconv.Itoa(i)))
		}
		it := prompt([]string{"select", "multiselect"}[sym.Choice("type", 2)])()
		it.kids[3] = o
		agree(file(obj("run", list(it))), "a list of options")
	case 2:
		o := list()
		for i, n := 0, sym.Choice("items", 3); i < n; i++ {
			o.kids = append(o.kids, obj("cmd", str("c")))
		}
		agree(file(obj("run", list(obj("parallel", o)))), "a list of parallel items")
	}
}

func wordByte(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_'
}

// Names: every name of a task, a namespace, an alias, a variable or a prompt of the documented form.
func Names() {
	kit.Setup()
	n := 1 + sym.Choice("length", sym.Param("name", 3))
	v := sym.StrN("name", n, "")
	for i := 0; i < n; i++ {
		sym.Assume(v[i] > ' ' && v[i] < 0x7f && v[i] != '\'' && v[i] != '"' && v[i] != '\\')
	}
	variable := !(v[0] >= '0' && v[0] <= '9')
	task := v[0] != ':' && v[n-1] != ':'
	for i := 0; i < n; i++ {
		variable = variable && wordByte(v[i])
		task = task && (wordByte(v[i]) || v[i] == '-' || v[i] == ':' && (i == 0 || v[i-1] != ':'))
	}
	doc := file(obj("run", list(obj("cmd", str("c")))))
	tasks := doc.get("tasks")
	form := task
	where := sym.Choice("where", 8)
	switch where {
	case 0:
		sym.Assume(v != "t" && v != "d")
		tasks.keys[1] = v
	case 1:
		sym.Assume(v != "t" && v != "d")
		tasks.kids[1].set("alias", str(v))
	case 2:
		sym.Assume(v != "t" && v != "d" && v != "x2")
		tasks.kids[1].set("aliases", words("x2", v))
	case 3, 4:
		sym.Assume(v != "t" && v != "d")
		tasks.set(v, obj("run", list(obj("cmd", str("r")))))
		if where == 3 {
			tasks.kids[1].set("deps", words("d", v))
		} else {
			tasks.kids[1].get("run").kids[0] = obj("task", str(v))
		}
	case 5:
		doc.get("includes").keys[0] = v
	case 6:
		form = variable
		sym.Assume(v != "v")
		doc.get("vars").set(v, str("value"))
		tasks.kids[1].get("run").kids[0] = obj("cmd", str("${{ "+v+" }}"))
	case 7:
		form = variable
		tasks.kids[1].get("run").kids[0] = obj("prompt", str(v), "type", str("input"), "message", str("m"))
		s, b, _ := judge(doc)
		sym.Assert(s == form, "the schema does not tell names of prompts from others")
		sym.Assert(b == form, "bab does not tell names of prompts from others")
		return
	}
	s, b, err := judge(doc)
	sym.Assert(s == form, "the schema does not tell names from others")
	if form {
		sym.Assert(b, "bab rejects a name: "+kit.Msg(err))
		if where == 6 {
			err := kit.Run(context.Background(), "t", false)
			sym.Assert(err == nil, "a variable that is defined cannot be used: "+kit.Msg(err))
			sym.Assert(len(modelrun.Started()) == 1 && modelrun.Started()[0] == "value", "a variable does not have its value")
		}
	}
}

// Published: the schema in the repository is the one the code describes.
func Published() {
	var file any
	err := json.Unmarshal([]byte(repofiles.Schema), &file)
	sym.Assert(err == nil, "the published schema is no JSON document: "+kit.Msg(err))
	same("", plain(schema.GenerateSchema()), file)
	sym.Cover("published")
}

// plain is the document a schema is published as.
func plain(s *jsonschema.Schema) any {
	if s == jsonschema.TrueSchema {
		return true
	}
	if s == jsonschema.FalseSchema {
		return false
	}
	m := map[string]any{}
	text := func(k, t string) {
		if t != "" {
			m[k] = t
		}
	}
	number := func(k string, n *uint64) {
		if n != nil {
			m[k] = float64(*n)
		}
	}
	sub := func(k string, x *jsonschema.Schema) {
		if x != nil {
			m[k] = plain(x)
		}
	}
	all := func(k string, l []*jsonschema.Schema) {
		if len(l) > 0 {
			var o []any
			for _, x := range l {
				o = append(o, plain(x))
			}
			m[k] = o
		}
	}
	text("$schema", s.Version)
	text("$id", string(s.ID))
	text("$ref", s.Ref)
	text("type", s.Type)
	text("pattern", s.Pattern)
	text("title", s.Title)
	text("description", s.Description)
	text("format", s.Format)
	number("minLength", s.MinLength)
	number("maxLength", s.MaxLength)
	number("minItems", s.MinItems)
	number("maxItems", s.MaxItems)
	number("minProperties", s.MinProperties)
	number("maxProperties", s.MaxProperties)
	for k, n := range map[string]json.Number{"minimum": s.Minimum, "maximum": s.Maximum, "exclusiveMinimum": s.ExclusiveMinimum, "exclusiveMaximum": s.ExclusiveMaximum} {
		if n != "" {
			m[k] = float64(toInt(string(n)))
		}
	}
	all("allOf", s.AllOf)
	all("anyOf", s.AnyOf)
	all("oneOf", s.OneOf)
	sub("not", s.Not)
	sub("if", s.If)
	sub("then", s.Then)
	sub("else", s.Else)
	sub("items", s.Items)
	sub("propertyNames", s.PropertyNames)
	sub("additionalProperties", s.AdditionalProperties)
	if s.UniqueItems {
		m["uniqueItems"] = true
	}
	if len(s.Enum) > 0 {
		m["enum"] = s.Enum
	}
	if s.Const != nil {
		m["const"] = s.Const
	}
	if s.Default != nil {
		m["default"] = s.Default
	}
	if len(s.Required) > 0 {
		var l []any
		for _, r := range s.Required {
			l = append(l, r)
		}
		m["required"] = l
	}
	if s.Properties != nil {
		o := map[string]any{}
		for p := s.Properties.Oldest(); p != nil; p = p.Next() {
			o[p.Key] = plain(p.Value)
		}
		m["properties"] = o
	}
	if len(s.Definitions) > 0 {
		o := map[string]any{}
		for k, x := range s.Definitions {
			o[k] = plain(x)
		}
		m["$defs"] = o
	}
	return m
}

// same compares what the code describes with what is published.
func same(at string, a, b any) {
	switch x := a.(type) {
	case map[string]any:
		y, ok := b.(map[string]any)
		sym.Assert(ok, "the published schema has no object at "+at)
		var keys []string
		for k := range x {
			keys = append(keys, k)
		}
		for k := range y {
			if _, ok := x[k]; !ok {
				keys = append(keys, k)
			}
		}
		sort.Strings(keys)
		for _, k := range keys {
			_, inA := x[k]
			_, inB := y[k]
			sym.Assert(inA, "the published schema has "+at+"/"+k+", the code does not describe it")
			sym.Assert(inB, "the published schema lacks "+at+"/"+k)
			same(at+"/"+k, x[k], y[k])
		}
	case []any:
		y, ok := b.([]any)
		sym.Assert(ok && len(x) == len(y), "the published schema has another list at "+at)
		if strings.HasSuffix(at, "/enum") || strings.HasSuffix(at, "/required") {
			for _, e := range x {
				in := false
				for _, f := range y {
					in = in || e == f
				}
				sym.Assert(in, "the published schema lacks a word at "+at)
			}
			return
		}
		for i := range x {
			same(at+"/"+strconv.Itoa(i), x[i], y[i])
		}
	default:
		sym.Assert(a == b, "the published schema has another value at "+at)
	}
}
