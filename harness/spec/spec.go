// Package spec is the reference model of what a Babfile means when a task of it is run, and
// a writer of Babfiles. It is written from the documentation, not from the implementation.
package spec

import (
	"path/filepath"
	"strconv"
	"strings"
)

// Tri is an optional boolean.
type Tri int

const (
	Unset Tri = iota
	Yes
	No
)

type KV struct{ K, V string }

type Item struct {
	Cmd, Task, Log, Prompt string
	Level                  string
	When                   string
	Platforms              []string
	Silent, Output         Tri
	Dir                    string
	Env                    []KV
	Label                  string
	Raw                    []string // further lines of the item

	Parallel []Item
	Mode     string
	Limit    int
	Color    Tri
}

type Task struct {
	Name           string
	Desc           string
	Alias          string
	Aliases        []string
	Deps           []string
	When           string
	Vars, Env      []KV
	Silent, Output Tri
	Dir            string
	Run            []Item
}

// Include is another Babfile; Path is relative to the directory of the including one.
type Include struct {
	NS, Path string
	File     *File
}

type File struct {
	Vars, Env      []KV
	Silent, Output Tri
	Dir            string
	Includes       []Include
	Tasks          []Task
}

// q quotes a text for YAML.
func q(s string) string {
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' || s[i] == '\t' || s[i] == 0x1b {
			return strconv.Quote(s)
		}
	}
	return "'" + strings.ReplaceAll(s, "'", "''") + "'"
}

type w struct{ b []byte }

func (x *w) line(ind int, s string) {
	for i := 0; i < ind; i++ {
		x.b = append(x.b, ' ')
	}
	x.b = append(x.b, s...)
	x.b = append(x.b, '\n')
}

func (x *w) kvs(ind int, name string, l []KV) {
	if len(l) == 0 {
		return
	}
	x.line(ind, name+":")
	for _, e := range l {
		x.line(ind+2, e.K+": "+q(e.V))
	}
}

func (x *w) tri(ind int, name string, t Tri) {
	switch t {
	case Yes:
		x.line(ind, name+": true")
	case No:
		x.line(ind, name+": false")
	}
}

func (x *w) str(ind int, name, s string) {
	if s != "" {
		x.line(ind, name+": "+q(s))
	}
}

func (x *w) list(ind int, name string, l []string) {
	if len(l) == 0 {
		return
	}
	text := name + ": ["
	for i, s := range l {
		if i > 0 {
			text += ", "
		}
		text += q(s)
	}
	x.line(ind, text+"]")
}

func (x *w) item(ind int, it Item) {
	first := true
	key := func(s string) {
		if first {
			x.line(ind, "- "+s)
			first = false
		} else {
			x.line(ind+2, s)
		}
	}
	switch {
	case len(it.Parallel) > 0:
		key("parallel:")
		for _, c := range it.Parallel {
			x.item(ind+4, c)
		}
		if it.Mode != "" {
			key("mode: " + it.Mode)
		}
		if it.Limit != 0 {
			key("limit: " + strconv.Itoa(it.Limit))
		}
		x.tri(ind+2, "color", it.Color)
	case it.Cmd != "":
		key("cmd: " + q(it.Cmd))
	case it.Task != "":
		key("task: " + q(it.Task))
	case it.Log != "":
		key("log: " + q(it.Log))
	case it.Prompt != "":
		key("prompt: " + it.Prompt)
	}
	for _, r := range it.Raw {
		key(r)
	}
	x.str(ind+2, "level", it.Level)
	x.str(ind+2, "when", it.When)
	x.str(ind+2, "dir", it.Dir)
	x.str(ind+2, "label", it.Label)
	x.list(ind+2, "platforms", it.Platforms)
	x.tri(ind+2, "silent", it.Silent)
	x.tri(ind+2, "output", it.Output)
	x.kvs(ind+2, "env", it.Env)
}

// YAML writes the file.
func (f File) YAML() string {
	x := &w{}
	x.kvs(0, "vars", f.Vars)
	x.kvs(0, "env", f.Env)
	x.tri(0, "silent", f.Silent)
	x.tri(0, "output", f.Output)
	x.str(0, "dir", f.Dir)
	if len(f.Includes) > 0 {
		x.line(0, "includes:")
		for _, i := range f.Includes {
			x.line(2, i.NS+":")
			x.line(4, "babfile: "+q(i.Path))
		}
	}
	x.line(0, "tasks:")
	for _, t := range f.Tasks {
		x.line(2, t.Name+":")
		x.str(4, "desc", t.Desc)
		x.str(4, "alias", t.Alias)
		x.list(4, "aliases", t.Aliases)
		x.list(4, "deps", t.Deps)
		x.str(4, "when", t.When)
		x.kvs(4, "vars", t.Vars)
		x.kvs(4, "env", t.Env)
		x.tri(4, "silent", t.Silent)
		x.tri(4, "output", t.Output)
		x.str(4, "dir", t.Dir)
		if len(t.Run) > 0 {
			x.line(4, "run:")
			for _, it := range t.Run {
				x.item(6, it)
			}
		}
	}
	return string(x.b)
}

// def is the default of a prompt.
func (it Item) def() string {
	for _, r := range it.Raw {
		if strings.HasPrefix(r, "default: ") {
			return strings.Trim(r[len("default: "):], "\"")
		}
	}
	return ""
}

// Step is one thing a run must do.
type Step struct {
	Kind   string // start, log, head
	Text   string
	Env    []KV // what bab adds to the environment of a command
	Dir    string
	Stdin  bool
	Level  string
	Show   bool // command output is shown
	Header bool // the command line is shown
}

// Outcome decides whether a command fails (it may be symbolic).
type Outcome func(cmd string) bool

// Exec is the reference execution of one run.
type Exec struct {
	File    File
	Dir     string // directory of the file
	OS      string
	Fails   Outcome
	Answers []KV   // prompt variable -> answer
	BadDir  string // a directory that is not there
	Steps   []Step
	done    []string
	Failed  bool
	Error   bool // the run must fail without a command failing
}

func (f File) Task(name string) *Task {
	for i := range f.Tasks {
		if f.Tasks[i].Name == name {
			return &f.Tasks[i]
		}
	}
	return nil
}

func set(l []KV, k, v string) []KV {
	r := append([]KV(nil), l...)
	for i := range r {
		if r[i].K == k {
			r[i].V = v
			return r
		}
	}
	return append(r, KV{k, v})
}

// Get looks a name up.
func Get(l []KV, k string) (string, bool) {
	for _, e := range l {
		if e.K == k {
			return e.V, true
		}
	}
	return "", false
}

// missing is set when an undefined variable is used.
var missing bool

// Expand replaces the placeholders of a text once.
func Expand(s string, vars []KV) string {
	out := ""
	for {
		i := strings.Index(s, "${{")
		if i < 0 {
			return out + s
		}
		if i > 0 && s[i-1] == '$' {
			out += s[:i-1] + "${{"
			s = s[i+3:]
			continue
		}
		j := strings.Index(s[i:], " }}")
		if j < 0 {
			return out + s
		}
		v, ok := Get(vars, s[i+4:i+j])
		missing = missing || !ok
		out += s[:i] + v
		s = s[i+j+3:]
	}
}

// Cond evaluates the conditions the harnesses use.
func Cond(c string, vars []KV) bool {
	if c == "" {
		return true
	}
	if i := strings.Index(c, " == "); i >= 0 {
		return Expand(c[:i], vars) == strings.Trim(c[i+4:], "'")
	}
	if i := strings.Index(c, " != "); i >= 0 {
		return Expand(c[:i], vars) != strings.Trim(c[i+4:], "'")
	}
	v := strings.ToLower(Expand(c, vars))
	return v != "" && v != "false"
}

func pick(l ...Tri) Tri {
	for _, t := range l {
		if t != Unset {
			return t
		}
	}
	return Unset
}

func (x *Exec) platform(it Item) bool {
	if len(it.Platforms) == 0 {
		return true
	}
	for _, p := range it.Platforms {
		if p == x.OS {
			return true
		}
	}
	return false
}

// Scope is where a task is defined: the files that lead to it, the root first.
type Scope struct {
	Files []*File
	Dir   string
	NS    string
}

// Find looks a task up by its full name.
func (x *Exec) Find(name string) (Scope, *Task) {
	return find(Scope{Files: []*File{&x.File}, Dir: x.Dir}, name)
}

func find(s Scope, name string) (Scope, *Task) {
	f := s.Files[len(s.Files)-1]
	if t := f.Task(name); t != nil {
		return s, t
	}
	for _, i := range f.Includes {
		if strings.HasPrefix(name, i.NS+":") && i.File != nil {
			d := s.Dir
			if j := strings.LastIndex(i.Path, "/"); j >= 0 {
				d += "/" + i.Path[:j]
			}
			n := Scope{Files: append(append([]*File(nil), s.Files...), i.File), Dir: d, NS: s.NS + i.NS + ":"}
			if r, t := find(n, name[len(i.NS)+1:]); t != nil {
				return r, t
			}
		}
	}
	return s, nil
}

func (s Scope) vars() []KV {
	var vars []KV
	for _, f := range s.Files {
		for _, v := range f.Vars {
			vars = set(vars, v.K, Expand(v.V, vars))
		}
	}
	return vars
}

func (s Scope) silent() Tri {
	for i := len(s.Files) - 1; i >= 0; i-- {
		if s.Files[i].Silent != Unset {
			return s.Files[i].Silent
		}
	}
	return Unset
}

func (s Scope) output() Tri {
	for i := len(s.Files) - 1; i >= 0; i-- {
		if s.Files[i].Output != Unset {
			return s.Files[i].Output
		}
	}
	return Unset
}

// Main runs a task the way the command line does.
func (x *Exec) Main(name string) { x.task(name, true, Unset, Unset) }

func (x *Exec) stopped() bool { return x.Failed || x.Error }

func (x *Exec) undefined() bool {
	if missing {
		missing = false
		x.Error = true
	}
	return x.Error
}

func (x *Exec) task(name string, main bool, silent, output Tri) {
	for _, d := range x.done {
		if d == name {
			return
		}
	}
	sc, t := x.Find(name)
	vars := sc.vars()
	if !Cond(t.When, vars) {
		x.done = append(x.done, name)
		return
	}
	if pick(silent, t.Silent, sc.silent()) != Yes {
		k := "dep"
		if main {
			k = "main"
		}
		x.Steps = append(x.Steps, Step{Kind: k, Text: name})
	}
	for _, d := range t.Deps {
		x.task(sc.NS+d, false, Unset, Unset)
		if x.stopped() {
			return
		}
	}
	missing = false
	for _, v := range t.Vars {
		vars = set(vars, v.K, Expand(v.V, vars))
	}
	if x.undefined() {
		return
	}
	ran, cond := 0, 0
	for _, it := range t.Run {
		if !x.platform(it) {
			continue
		}
		if !Cond(it.When, vars) {
			cond++
			continue
		}
		ran++
		if it.Prompt != "" {
			v, ok := Get(x.Answers, it.Prompt)
			if d := it.def(); d != "" && !ok {
				v, ok = Expand(d, vars), true
			}
			if !ok {
				x.Error = true
				return
			}
			vars = set(vars, it.Prompt, v)
			continue
		}
		if len(it.Parallel) > 0 {
			x.Steps = append(x.Steps, Step{Kind: "fork", Text: strconv.Itoa(len(it.Parallel))})
			for _, c := range it.Parallel {
				if x.platform(c) && Cond(c.When, vars) {
					x.item(sc, t, c, vars, pick(it.Silent, silent), pick(it.Output, output))
				}
			}
			x.Steps = append(x.Steps, Step{Kind: "join"})
		} else {
			x.item(sc, t, it, vars, silent, output)
		}
		if x.stopped() {
			return
		}
	}
	if len(t.Run) > 0 && ran == 0 && cond == 0 {
		x.Error = true // nothing to run on this platform
		return
	}
	x.done = append(x.done, name)
}

func (x *Exec) item(sc Scope, t *Task, it Item, vars []KV, silent, output Tri) {
	switch {
	case it.Cmd != "":
		var env []KV
		for _, f := range sc.Files {
			for _, e := range f.Env {
				env = set(env, e.K, e.V)
			}
		}
		for _, l := range [][]KV{t.Env, it.Env} {
			for _, e := range l {
				env = set(env, e.K, e.V)
			}
		}
		for i := range env {
			env[i].V = Expand(env[i].V, vars)
		}
		dir := it.Dir
		if dir == "" {
			dir = t.Dir
		}
		if dir == "" {
			dir = sc.Files[len(sc.Files)-1].Dir
		}
		dir = Expand(dir, vars)
		switch {
		case dir == "":
			dir = sc.Dir
		case dir[0] != '/':
			dir = sc.Dir + "/" + dir
		}
		dir = filepath.Clean(dir)
		if x.BadDir != "" && dir == x.BadDir {
			x.Error = true
			return
		}
		s := Step{Kind: "start", Text: Expand(it.Cmd, vars), Env: env, Dir: dir}
		if x.undefined() {
			return
		}
		s.Header = pick(it.Silent, silent, t.Silent, sc.silent()) != Yes
		s.Show = pick(it.Output, output, t.Output, sc.output()) != No
		x.Steps = append(x.Steps, s)
		if x.Fails != nil && x.Fails(s.Text) {
			x.Failed = true
		}
	case it.Log != "":
		lvl := it.Level
		if lvl == "" {
			lvl = "info"
		}
		l := Expand(it.Log, vars)
		if x.undefined() {
			return
		}
		x.Steps = append(x.Steps, Step{Kind: "log", Text: l, Level: lvl})
	case it.Task != "":
		x.task(sc.NS+it.Task, false, pick(it.Silent, silent), pick(it.Output, output))
	}
}

// Commands lists the commands a run starts.
func (x *Exec) Commands() []string {
	var r []string
	for _, s := range x.Steps {
		if s.Kind == "start" {
			r = append(r, s.Text)
		}
	}
	return r
}

// Stderr is what a sequential run prints to standard error besides command output.
func (x *Exec) Stderr() string {
	r := ""
	for _, s := range x.Steps {
		switch s.Kind {
		case "main":
			r += "● Running " + s.Text + "\n"
		case "dep":
			r += "▶ " + s.Text + "\n"
		case "start":
			if s.Header {
				r += "$ " + s.Text + "\n"
			}
		}
	}
	return r
}
