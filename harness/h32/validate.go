// Package h32: the published schema and what bab accepts.
package h32

import (
	"regexp"
	"strconv"
	"strings"

	"github.com/invopop/jsonschema"
)

// node is a document.
type node struct {
	kind string // string, integer, number, boolean, array, object
	s    string
	n    int
	b    bool
	keys []string
	kids []*node
}

func str(s string) *node { return &node{kind: "string", s: s} }
func num(n int) *node    { return &node{kind: "integer", n: n} }
func is(b bool) *node    { return &node{kind: "boolean", b: b} }
func list(l ...*node) *node {
	return &node{kind: "array", kids: l}
}
func words(l ...string) *node {
	n := list()
	for _, s := range l {
		n.kids = append(n.kids, str(s))
	}
	return n
}

// obj is an object of keys and values.
func obj(kv ...any) *node {
	n := &node{kind: "object"}
	for i := 0; i < len(kv); i += 2 {
		n.set(kv[i].(string), kv[i+1].(*node))
	}
	return n
}

func (n *node) set(k string, v *node) *node {
	n.keys = append(n.keys, k)
	n.kids = append(n.kids, v)
	return n
}

func (n *node) get(k string) *node {
	for i := range n.keys {
		if n.keys[i] == k {
			return n.kids[i]
		}
	}
	return nil
}

func (n *node) without(i int) {
	n.keys = append(append([]string(nil), n.keys[:i]...), n.keys[i+1:]...)
	n.kids = append(append([]*node(nil), n.kids[:i]...), n.kids[i+1:]...)
}

func quote(s string) string {
	for _, c := range []byte(`"\`) {
		if strings.IndexByte(s, c) >= 0 {
			return strconv.Quote(s)
		}
	}
	return `"` + s + `"`
}

// yaml writes the document.
func (n *node) yaml() string {
	switch n.kind {
	case "string":
		return quote(n.s)
	case "integer":
		return strconv.Itoa(n.n)
	case "boolean":
		return strconv.FormatBool(n.b)
	case "array":
		var l []string
		for _, k := range n.kids {
			l = append(l, k.yaml())
		}
		return "[" + strings.Join(l, ", ") + "]"
	}
	var l []string
	for i, k := range n.kids {
		l = append(l, quote(n.keys[i])+": "+k.yaml())
	}
	return "{" + strings.Join(l, ", ") + "}"
}

// matches tells if a text holds what a pattern of a schema asks for.
func matches(pattern, s string) bool { return regexp.MustCompile(pattern).MatchString(s) }

// valid tells if a document satisfies a schema (JSON Schema, draft 7).
func valid(root, s *jsonschema.Schema, n *node) bool {
	if s == nil || s == jsonschema.TrueSchema {
		return true
	}
	if s == jsonschema.FalseSchema {
		return false
	}
	if s.Ref != "" {
		d := root.Definitions[strings.TrimPrefix(s.Ref, "#/$defs/")]
		return d != nil && valid(root, d, n)
	}
	for _, x := range s.AllOf {
		if !valid(root, x, n) {
			return false
		}
	}
	if len(s.AnyOf) > 0 && count(root, s.AnyOf, n) == 0 || len(s.OneOf) > 0 && count(root, s.OneOf, n) != 1 {
		return false
	}
	if s.Not != nil && valid(root, s.Not, n) {
		return false
	}
	if s.If != nil {
		if valid(root, s.If, n) {
			if !valid(root, s.Then, n) {
				return false
			}
		} else if !valid(root, s.Else, n) {
			return false
		}
	}
	if s.Type != "" && s.Type != n.kind && !(s.Type == "number" && n.kind == "integer") {
		return false
	}
	if len(s.Enum) > 0 {
		found := false
		for _, e := range s.Enum {
			found = found || equal(e, n)
		}
		if !found {
			return false
		}
	}
	if s.Const != nil && !equal(s.Const, n) {
		return false
	}
	switch n.kind {
	case "string":
		if s.MinLength != nil && len(n.s) < int(*s.MinLength) || s.MaxLength != nil && len(n.s) > int(*s.MaxLength) {
			return false
		}
		if s.Pattern != "" && !matches(s.Pattern, n.s) {
			return false
		}
	case "integer":
		if s.Minimum != "" && n.n < toInt(string(s.Minimum)) || s.Maximum != "" && n.n > toInt(string(s.Maximum)) ||
			s.ExclusiveMinimum != "" && n.n <= toInt(string(s.ExclusiveMinimum)) || s.ExclusiveMaximum != "" && n.n >= toInt(string(s.ExclusiveMaximum)) {
			return false
		}
	case "array":
		if s.MinItems != nil && len(n.kids) < int(*s.MinItems) || s.MaxItems != nil && len(n.kids) > int(*s.MaxItems) {
			return false
		}
		for i, k := range n.kids {
			if s.Items != nil && !valid(root, s.Items, k) {
				return false
			}
			for j := 0; s.UniqueItems && j < i; j++ {
				if n.kids[j].yaml() == k.yaml() {
					return false
				}
			}
		}
	case "object":
		if s.MinProperties != nil && len(n.kids) < int(*s.MinProperties) || s.MaxProperties != nil && len(n.kids) > int(*s.MaxProperties) {
			return false
		}
		for _, r := range s.Required {
			if n.get(r) == nil {
				return false
			}
		}
		for i, k := range n.keys {
			if s.PropertyNames != nil && !valid(root, s.PropertyNames, str(k)) {
				return false
			}
			var p *jsonschema.Schema
			known := false
			if s.Properties != nil {
				p, known = s.Properties.Get(k)
			}
			if !known {
				p = s.AdditionalProperties
			}
			if !valid(root, p, n.kids[i]) {
				return false
			}
		}
	}
	return true
}

func count(root *jsonschema.Schema, l []*jsonschema.Schema, n *node) int {
	c := 0
	for _, x := range l {
		if valid(root, x, n) {
			c++
		}
	}
	return c
}

func equal(e any, n *node) bool {
	switch x := e.(type) {
	case string:
		return n.kind == "string" && n.s == x
	case bool:
		return n.kind == "boolean" && n.b == x
	case int:
		return n.kind == "integer" && n.n == x
	}
	return false
}

func toInt(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		panic("a bound of the schema that is no integer: " + s)
	}
	return n
}
