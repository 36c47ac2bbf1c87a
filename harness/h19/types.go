package h19

import (
	"strings"

	"github.com/bab-sh/bab/internal/babfile"
	"github.com/bab-sh/bab/internal/zzverif/kit"
	"github.com/bab-sh/bab/internal/zzverif/model"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

// node is a value of a Babfile: a flow text, a mapping or a list, with what may stand there.
type node struct {
	typ  string
	text string
	list bool
	keys []string
	kids []*node
}

func leaf(typ, text string) *node { return &node{typ: typ, text: text} }

func mapping(typ string, kv ...any) *node {
	n := &node{typ: typ}
	for i := 0; i < len(kv); i += 2 {
		n.keys = append(n.keys, kv[i].(string))
		n.kids = append(n.kids, kv[i+1].(*node))
	}
	return n
}

func list(typ string, kids ...*node) *node { return &node{typ: typ, list: true, kids: kids} }

func (n *node) write(b *strings.Builder, ind string) {
	switch {
	case n.text != "":
		b.WriteString(" " + n.text + "\n")
	case n.list:
		b.WriteString("\n")
		for _, k := range n.kids {
			if k.text != "" || len(k.keys) == 0 {
				b.WriteString(ind + "-")
				k.write(b, ind+"  ")
				continue
			}
			b.WriteString(ind + "-")
			k.write(b, ind+"  ")
		}
	case len(n.keys) > 0:
		b.WriteString("\n")
		for i, k := range n.keys {
			b.WriteString(ind + k + ":")
			n.kids[i].write(b, ind+"  ")
		}
	default:
		b.WriteString("\n")
	}
}

func (n *node) all(l []*node) []*node {
	l = append(l, n)
	for _, k := range n.kids {
		l = k.all(l)
	}
	return l
}

func gates(kv ...any) []any {
	return append(kv, "platforms", leaf("platforms", "[linux]"), "when", leaf("str", "a == b"))
}

// template is a Babfile with every setting there is.
func template() *node {
	strs := func(kv ...string) *node {
		n := &node{typ: "strmap"}
		for i := 0; i < len(kv); i += 2 {
			n.keys = append(n.keys, kv[i])
			n.kids = append(n.kids, leaf("str", kv[i+1]))
		}
		return n
	}
	cmd := mapping("item", gates("cmd", leaf("main", "c"), "dir", leaf("str", "d"), "env", strs("E", "e"), "silent", leaf("bool", "true"), "output", leaf("bool", "false"))...)
	task := mapping("item", gates("task", leaf("ref", "a"), "silent", leaf("bool", "true"), "output", leaf("bool", "false"))...)
	log := mapping("item", gates("log", leaf("main", "l"), "level", leaf("enum", "warn"))...)
	sel := mapping("item", gates("prompt", leaf("name", "p"), "type", leaf("enum!", "select"), "message", leaf("str!", "m"), "options", leaf("options", "[o, zz, q]"), "default", leaf("option", "o"))...)
	multi := mapping("item", "prompt", leaf("name", "p"), "type", leaf("enum!", "multiselect"), "message", leaf("str!", "m"), "options", leaf("strlist!", "[o, zz]"), "defaults", leaf("strlist", "[zz]"), "min", leaf("int", "1"), "max", leaf("max", "2"))
	input := mapping("item", "prompt", leaf("name", "p"), "type", leaf("enum!", "input"), "message", leaf("str!", "m"), "default", leaf("str", "o"), "placeholder", leaf("str", "o"), "validate", leaf("str", "^o$"))
	pass := mapping("item", "prompt", leaf("name", "p"), "type", leaf("enum!", "password"), "message", leaf("str!", "m"), "confirm", leaf("bool", "true"))
	number := mapping("item", "prompt", leaf("name", "p"), "type", leaf("enum!", "number"), "message", leaf("str!", "m"), "default", leaf("numtext", "1"), "min", leaf("int", "1"), "max", leaf("max", "2"))
	inner := mapping("item", "cmd", leaf("main", "c"), "label", leaf("str", "b"))
	par := mapping("item", gates("parallel", list("parallel", inner), "mode", leaf("enum", "grouped"), "limit", leaf("limit", "2"), "color", leaf("bool", "true"), "silent", leaf("bool", "true"), "output", leaf("bool", "false"))...)
	t := mapping("task", "desc", leaf("str", "d"), "alias", leaf("str", "al"), "aliases", leaf("strlist", "[am, an]"), "vars", strs("v", "x"), "env", strs("E", "e"),
		"silent", leaf("bool", "true"), "output", leaf("bool", "false"), "dir", leaf("str", "d"), "when", leaf("str", "a"), "deps", leaf("deps", "[a]"),
		"run", list("run", cmd, task, log, sel, multi, input, pass, number, par))
	return mapping("root", "vars", strs("v", "x"), "env", strs("E", "e"), "silent", leaf("bool", "true"), "output", leaf("bool", "false"), "dir", leaf("str", "d"),
		"includes", mapping("includes", "n", mapping("include", "babfile", leaf("path", "lib.yml"))),
		"tasks", mapping("tasks", "a", mapping("task", "desc", leaf("str", "d")), "t", t))
}

var forms = []struct{ kind, text string }{
	{"text", "zz"}, {"number", "1"}, {"bool", "true"}, {"float", "1.5"}, {"huge", "99999999999999999999"}, {"negative", "-1"},
	{"list", "[zz]"}, {"lists", "[[zz]]"}, {"map", "{zz: zz}"}, {"maps", "[{zz: zz}]"}, {"maplist", "{zz: [zz]}"}, {"listnone", "[]"}, {"mapnone", "{}"},
	{"self", "&s [*s]"}, {"self", "&s {zz: *s}"}, {"self", "*nope"}, {"null", "~"}, {"null", ""}, {"mapnull", "{zz: ~}"}, {"listnull", "[~]"},
	{"keylist", "{[zz]: zz}"}, {"keylist", "{? {zz: zz} : zz}"}, {"merge", "{<<: zz}"}, {"merge", "{<<: [zz]}"}, {"dup", "{zz: zz, zz: zz}"},
}

const (
	reject = iota
	accept
	either
)

// verdict is what must happen if a value of a type is replaced.
func verdict(typ, form string) int {
	scalar := form == "text" || form == "number" || form == "bool" || form == "float" || form == "huge" || form == "negative"
	if form == "self" || form == "keylist" || form == "merge" || form == "dup" {
		return reject // no valid Babfile has such a value anywhere
	}
	if form == "null" {
		return either
	}
	switch typ {
	case "str", "main", "str!":
		if scalar {
			return accept
		}
	case "name":
		if form == "text" || form == "bool" {
			return accept
		}
	case "bool":
		if form == "bool" {
			return accept
		}
	case "int":
		switch form {
		case "number":
			return accept
		case "negative":
			return either
		}
	case "max", "limit":
		if form == "number" {
			return accept
		}
	case "numtext":
		if form == "number" {
			return accept
		}
		if form == "negative" {
			return either // below min
		}
	case "option":
		if form == "text" {
			return accept
		}
	case "strlist", "strlist!":
		switch form {
		case "list":
			return accept
		case "listnone":
			if typ == "strlist" {
				return accept
			}
		case "listnull":
			return either
		}
	case "deps", "platforms":
		switch form {
		case "listnone":
			return accept
		case "listnull":
			return either
		}
	case "strmap":
		switch form {
		case "map", "mapnone":
			return accept
		case "mapnull":
			return either
		}
	case "task":
		if form == "map" || form == "mapnone" || form == "maplist" || form == "mapnull" {
			return either // unknown settings
		}
	case "tasks":
		if form == "mapnone" || form == "mapnull" {
			return either
		}
	case "includes":
		if form == "mapnone" {
			return accept
		}
	case "run":
		if form == "listnone" {
			return either
		}
	case "root":
		if form == "map" || form == "mapnone" || form == "maplist" || form == "mapnull" {
			return either // unknown settings
		}
	}
	return reject
}

func (n *node) doc() string {
	var b strings.Builder
	n.write(&b, "")
	return b.String()
}

func judge(doc string, want int, what string) {
	model.Write(model.P("lib.yml"), "tasks:\n  x:\n    desc: d\n")
	_, err := parse(doc)
	switch want {
	case accept:
		sym.Assert(err == nil, what+" is rejected: "+kit.Msg(err))
	case reject:
		sym.Assert(err != nil, what+" is accepted")
	}
}

// Types: any value of a Babfile replaced by a value of another form.
func Types() {
	kit.Setup()
	root := template()
	nodes := root.all(nil)
	n := nodes[sym.Choice("node", len(nodes))]
	f := forms[sym.Choice("form", len(forms))]
	typ := n.typ
	*n = node{typ: typ, text: f.text}
	want := verdict(typ, f.kind)
	if typ == "deps" && f.kind == "listnone" {
		want = accept
	}
	judge(root.doc(), want, "a "+typ+" given as "+f.text)
}

// Keys: any setting given twice, left out, or one added that contradicts the others.
func Keys() {
	kit.Setup()
	root := template()
	var maps []*node
	var at []int
	for _, n := range root.all(nil) {
		for i := range n.keys {
			maps = append(maps, n)
			at = append(at, i)
		}
	}
	c := sym.Choice("setting", len(maps))
	m, i := maps[c], at[c]
	key := m.keys[i]
	want, what := accept, "a Babfile without "+key
	switch sym.Choice("change", 3) {
	case 0:
		to, kid := []int{len(m.keys), i + 1, 0}[sym.Choice("to", 3)], m.kids[i]
		if sym.Flag("flow") && (m.typ == "tasks" || m.typ == "task") {
			kid = leaf(kid.typ, "{desc: d}")
			if m.typ == "task" {
				kid = leaf(kid.typ, "zz")
			}
		}
		m.keys = append(append(append([]string(nil), m.keys[:to]...), key), m.keys[to:]...)
		m.kids = append(append(append([]*node(nil), m.kids[:to]...), kid), m.kids[to:]...)
		want, what = reject, "a setting given twice ("+key+")"
	case 1:
		switch m.kids[i].typ {
		case "main", "ref", "name", "enum!", "str!", "strlist!", "options", "path", "parallel":
			want = reject
		}
		if m.typ == "root" && key == "tasks" || m.typ == "tasks" && key == "a" {
			want = either
		}
		m.keys = append(append([]string(nil), m.keys[:i]...), m.keys[i+1:]...)
		m.kids = append(append([]*node(nil), m.kids[:i]...), m.kids[i+1:]...)
		if m.typ == "tasks" && key == "a" {
			want = reject // others refer to it
		}
		if len(m.keys) == 0 {
			m.text = "{}"
		}
	case 2:
		if m.typ != "item" {
			return
		}
		k := []string{"cmd", "task", "log", "prompt", "parallel"}[sym.Choice("kind", 5)]
		for _, o := range m.keys {
			if o == k {
				return
			}
		}
		m.keys = append(m.keys, k)
		if k == "parallel" {
			m.kids = append(m.kids, leaf("parallel", "[{cmd: c}]"))
		} else {
			m.kids = append(m.kids, leaf("ref", "a"))
		}
		want, what = reject, "an item with "+m.keys[0]+" and "+k
	}
	judge(root.doc(), want, what)
}

// Nested: items that may not stand in a parallel block.
func Nested() {
	kit.Setup()
	bad := []string{"{prompt: p, type: input, message: m}", "{parallel: [{cmd: c}]}"}[sym.Choice("item", 2)]
	items := []string{"{cmd: c}", "{task: a}", "{log: l}"}
	at := sym.Choice("at", 4)
	var l []string
	for i := 0; i < 4; i++ {
		if i == at {
			l = append(l, bad)
		} else {
			l = append(l, items[i%3])
		}
	}
	judge("tasks:\n  a:\n    desc: d\n  t:\n    run:\n      - parallel: ["+strings.Join(l, ", ")+"]\n", reject, "a parallel block with "+bad)
}

// Empty: documents that are no Babfile.
func Empty() {
	kit.Setup()
	docs := []struct {
		text string
		want int
	}{{"", reject}, {"\n", reject}, {"# comment\n", reject}, {"---\n", reject}, {"~\n", reject}, {"zz\n", reject}, {"- zz\n", reject}, {"'", reject}, {"a: b: c\n", reject},
		{"tasks:\n\tt:\n", reject}, {"tasks: {t: {run: [{cmd: c}]}}\n", accept}, {"tasks: {t: {run: [{cmd: c}]}, t: {run: [{cmd: c}]}}\n", reject}, {"%YAML 1.1\n---\ntasks: {}\n", either}, {"tasks: {}\n---\ntasks: {}\n", either}, {"\x00", reject}, {"\xff", reject}, {"{", reject}, {"&a *a\n", reject}, {"*a\n", reject},
		{"&a {tasks: *a}\n", reject}, {"<<: {tasks: {t: {run: [{cmd: c}]}}}\n", accept}, {"tasks: &t {t: *t}\n", reject}, {"tasks: {t: {run: &r [{parallel: *r}]}}\n", reject}}
	d := docs[sym.Choice("doc", len(docs))]
	judge(d.text, d.want, "the document "+d.text)
}

// Scalars: a text is what is written, whatever type YAML would give it.
func Scalars() {
	kit.Setup()
	texts := []string{"007", "1.50", "0x1F", "1e3", "yes", "True", "2001-01-01", ".inf", "1_000", "0o7", "'a: b'", "\"a\\tb\"", "a b", "-", "<<", "!!str 12", "|\n            two\n            lines\n"}
	c := sym.Choice("text", len(texts))
	text, want := texts[c], texts[c]
	switch c {
	case 10:
		want = "a: b"
	case 11:
		want = "a\tb"
	case 13:
		text, want = "'-'", "-"
	case 15:
		want = "12"
	case 16:
		want = "two\nlines\n"
	}
	flow := text
	if c == 16 {
		flow, want = "'two lines'", "two lines"
		text = flow
	}
	doc := "vars:\n  v: " + text + "\nenv:\n  E: " + text + "\ndir: " + text + "\ntasks:\n  a:\n    desc: d\n  t:\n    desc: " + text + "\n    alias: " + text + "\n    dir: " + text +
		"\n    when: " + text + "\n    vars:\n      v: " + text + "\n    env:\n      E: " + text + "\n    run:\n      - cmd: " + text + "\n        dir: " + text + "\n        when: " + text +
		"\n        env: {E: " + flow + "}\n      - log: " + text + "\n      - prompt: p\n        type: select\n        message: " + text + "\n        options: [o, " + flow + "]\n        default: " + text +
		"\n      - prompt: p\n        type: multiselect\n        message: m\n        options: [" + flow + ", o]\n        defaults: [" + flow + "]\n      - prompt: p\n        type: input\n        message: m\n        default: " + text +
		"\n        placeholder: " + text + "\n      - parallel:\n          - cmd: c\n            label: " + text + "\n        when: " + text + "\n"
	res, err := parse(doc)
	sym.Assert(err == nil, "a valid Babfile is rejected: "+kit.Msg(err))
	is := func(what, got string) { sym.Assert(got == want, what+" is "+got+", not "+want) }
	is("a variable", res.GlobalVars["v"])
	is("an environment value", res.GlobalEnv["E"])
	is("the directory", res.GlobalDir)
	t := res.Tasks["t"]
	is("the description", t.Desc)
	is("the alias", t.Alias)
	is("the alias", t.GetAllAliases()[0])
	sym.Assert(res.Aliases[want] == "t", "the alias does not lead to its task")
	is("the task's directory", t.Dir)
	is("the task's condition", t.When)
	is("the task's variable", t.Vars["v"])
	is("the task's environment value", t.Env["E"])
	cmd := t.Run[0].(babfile.CommandRun)
	is("the command", cmd.Cmd)
	is("the command's directory", cmd.Dir)
	is("the command's condition", cmd.When)
	is("the command's environment value", cmd.Env["E"])
	is("the log", t.Run[1].(babfile.LogRun).Log)
	sel, multi, input := t.Run[2].(babfile.PromptRun), t.Run[3].(babfile.PromptRun), t.Run[4].(babfile.PromptRun)
	is("the message", sel.Message)
	is("the option", sel.Options[1])
	is("the default", sel.Default)
	is("the option", multi.Options[0])
	is("the default", multi.Defaults[0])
	is("the default", input.Default)
	is("the placeholder", input.Placeholder)
	par := t.Run[5].(babfile.ParallelRun)
	is("the label", par.ItemLabel(0))
	is("the block's condition", par.When)
}
