// Package h23: the notice of a new version.
package h23

import (
	"context"
	"encoding/json"
	"os"
	"strings"
	"time"

	"github.com/bab-sh/bab/cmd"
	"github.com/bab-sh/bab/internal/update"
	"github.com/bab-sh/bab/internal/zzverif/kit"
	"github.com/bab-sh/bab/internal/zzverif/model"
	"github.com/bab-sh/bab/internal/zzverif/modelnet"
	"github.com/bab-sh/bab/internal/zzverif/modelrun"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/sym"
	"github.com/charmbracelet/log"
)

type stored struct {
	CheckedAt     time.Time `json:"checked_at"`
	LatestVersion string    `json:"latest_version"`
	ETag          string    `json:"etag"`
}

func write(s stored) string {
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	model.Mkdir(model.P("cache"))
	model.Mkdir(model.P("cache/bab"))
	model.Write(modelnet.Cache(), string(b))
	return string(b)
}

func read() (string, stored) {
	s, _ := model.Read(modelnet.Cache())
	var c stored
	_ = json.Unmarshal([]byte(s), &c)
	return s, c
}

// version is the reference reading of a version: numbers, then an optional pre-release.
type version struct {
	num [3]int
	pre []string
	ok  bool
}

func digits(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return s != ""
}

func number(s string) (n int) {
	for i := 0; i < len(s); i++ {
		n = n*10 + int(s[i]-'0')
	}
	return
}

func parse(s string) (v version) {
	if len(s) > 0 && s[0] == 'v' {
		s = s[1:]
	}
	if i := strings.Index(s, "+"); i >= 0 {
		s = s[:i]
	}
	if i := strings.Index(s, "-"); i >= 0 {
		v.pre = strings.Split(s[i+1:], ".")
		s = s[:i]
	}
	p := strings.Split(s, ".")
	if len(p) > 3 {
		return
	}
	for i, x := range p {
		if !digits(x) {
			return
		}
		v.num[i] = number(x)
	}
	v.ok = true
	return
}

// newer says whether version a is strictly newer than b.
func newer(a, b string) bool {
	x, y := parse(a), parse(b)
	if !x.ok || !y.ok {
		return false
	}
	for i := range x.num {
		if x.num[i] != y.num[i] {
			return x.num[i] > y.num[i]
		}
	}
	if len(x.pre) == 0 || len(y.pre) == 0 {
		return len(x.pre) == 0 && len(y.pre) > 0
	}
	for i := 0; i < len(x.pre) && i < len(y.pre); i++ {
		a, b := x.pre[i], y.pre[i]
		if a == b {
			continue
		}
		switch {
		case digits(a) && digits(b):
			return number(a) > number(b)
		case digits(a) != digits(b):
			return digits(b)
		}
		return a > b
	}
	return len(x.pre) > len(y.pre)
}

// settle lets the background check come to its end.
func settle() {
	if !sym.Symbolic() {
		time.Sleep(300 * time.Millisecond)
	}
	sym.Quiesce()
}

func one(name string) string { return sym.StrN(name, 1, "0123456789") }

// ver is any of many versions.
func ver(name string, full bool) string {
	n := 4
	if full {
		n = 8
	}
	switch sym.Choice(name, n) {
	case 1:
		return "v" + one(name+".a") + "." + one(name+".b") + "." + one(name+".c")
	case 2:
		return one(name+".a") + "." + one(name+".b") + one(name+".c") + ".0"
	case 3:
		return "v1.0.0-" + []string{"rc.", "alpha.", "", "rc.1.", "beta"}[sym.Choice(name+".pre", 5)] + one(name+".a")
	case 4:
		return "1." + one(name+".a")
	case 5:
		return "v" + one(name+".a")
	case 6:
		return "1.0." + one(name+".a") + "+b" + one(name+".b")
	case 7:
		return "1.0." + one(name+".a") + []string{"-rc.1", "-rc.2", "-1"}[sym.Choice(name+".pre", 3)]
	}
	return "1.0." + one(name+".a")
}

// Versions: which versions are newer than which.
func Versions() {
	kit.Setup()
	modelnet.Setup()
	cur, latest := ver("current", sym.Param("full", 0) > 0), ver("latest", true)
	write(stored{time.Unix(time.Now().Unix()-60, 0), latest, ""})
	info := update.CheckCached(cur)
	if newer(latest, cur) {
		sym.Assert(info != nil, "a newer version is not noticed")
		sym.Assert(info.LatestVersion == latest && info.CurrentVersion == cur, "the notice names other versions")
	} else {
		sym.Assert(info == nil, "a notice of a version that is not newer")
	}
}

// NoVersion: what is no version is not newer than anything, and nothing is newer than it.
func NoVersion() {
	kit.Setup()
	modelnet.Setup()
	odd := []string{"latest", "v", "1.0.x", "1..0", "release-9", " 9", "9 ", "-1", "v-9", "V9.0.0", "99999999999999999999.0.0", "9,0", "\n9"}[sym.Choice("odd", 13)]
	cur, latest := odd, "v9.0.0"
	if sym.Flag("swap") {
		cur, latest = "1.0.0", odd
	}
	write(stored{time.Unix(time.Now().Unix()-60, 0), latest, ""})
	sym.Assert(update.CheckCached(cur) == nil, "a notice although one is no version")
}

// bab runs the program as of a version.
func bab(v string, args ...string) error {
	log.SetDefault(log.NewWithOptions(os.Stderr, log.Options{Level: log.InfoLevel}))
	cmd.SetVersionInfo(v, "none", "unknown")
	old := os.Args
	os.Args = append([]string{"bab"}, args...)
	defer func() { os.Args = old }()
	return cmd.ExecuteContext(context.Background())
}

func load() {
	kit.Load(spec.File{Tasks: []spec.Task{{Name: "t", Run: []spec.Item{{Cmd: "c"}, {Cmd: "c2"}}}}})
}

// Disabled: with the check disabled nothing is asked and nothing is shown.
func Disabled() {
	kit.Setup()
	modelnet.Setup()
	load()
	model.Chdir(model.Root())
	v := "1.0.0"
	off := true
	switch sym.Choice("how", 9) {
	case 0:
		model.SetEnv("BAB_NO_UPDATE_CHECK", "1")
	case 1:
		model.SetEnv("CI", "true")
	case 2:
		model.SetEnv("CI", "1")
	case 3:
		v = "dev"
	case 4:
		v = ""
	case 5:
		model.SetEnv("BAB_NO_UPDATE_CHECK", "1")
		v = "v0.1.0"
	case 6:
		off = false
	case 7:
		model.SetEnv("BAB_NO_UPDATE_CHECK", "0")
		off = false
	case 8:
		model.SetEnv("CI", "")
		off = false
	}
	before := ""
	switch sym.Choice("cache", 3) {
	case 1:
		before = write(stored{time.Unix(time.Now().Unix()-60, 0), "v9.0.0", "e"})
	case 2:
		before = write(stored{time.Unix(time.Now().Unix()-100*3600, 0), "v9.0.0", "e"})
	}
	modelnet.Serve(modelnet.Answer{Status: 200, Body: "{\"tag_name\":\"v9.1.0\"}"})
	args := [][]string{{"t"}, {"-l"}, {"--validate"}, {"nope"}, {"-c", "bash"}}[sym.Choice("args", 5)]
	err := bab(v, args...)
	sym.Assert((err != nil) == (args[0] == "nope"), "the run fails or not because of the check")
	warn := kit.Reported("warn")
	if off {
		if sym.Flag("force") {
			sym.Assert(update.ForceCheck(v) == nil, "a check although it is disabled")
		}
		settle()
		sym.Assert(len(modelnet.Requests()) == 0, "the network is asked although the check is disabled")
		sym.Assert(len(warn) == 0, "a notice although the check is disabled")
		now, _ := read()
		sym.Assert(now == before, "the cache changes although the check is disabled")
	} else {
		sym.Assert(before == "" || len(warn) == 1, "no notice of a newer version")
	}
}

// Age: the network is asked only if the last check is a day old.
func Age() {
	kit.Setup()
	modelnet.Setup()
	age := sym.Int("age", -200000, 200000)
	for !sym.Symbolic() && time.Now().Nanosecond() > 800e6 {
		time.Sleep(20 * time.Millisecond) // so that the second does not end on the way
	}
	etag := []string{"", "e1"}[sym.Choice("etag", 2)]
	write(stored{time.Unix(time.Now().Unix()-int64(age), 0), "v1.5.0", etag})
	modelnet.Serve(modelnet.Answer{Status: 200, Body: "{\"tag_name\":\"v2.0.0\"}"})
	update.StartBackgroundRefresh(context.Background(), "1.0.0")
	settle()
	r := modelnet.Requests()
	if age >= 0 && age < 24*3600 {
		sym.Assert(len(r) == 0, "the network is asked although the last check is not a day old")
	} else {
		sym.Assert(len(r) == 1, "the network is not asked although the last check is a day old or dated in the future")
		sym.Assert(age < 0 || r[0].Match == etag, "the request does not name the tag of the cached answer")
	}
}

var bodies = []string{"{\"tag_name\":\"v2.0.0\"}", "{\"tag_name\":\"\"}", "{}", "null", "[]", "\"v2.0.0\"", "{\"tag_name\":5}", "{\"tag_name\":\"v2.0.0\"", "", "<html>", "{\"name\":\"v2.0.0\"}", "v2.0.0",
	"{\"id\":1,\"tag_name\":\"v2.0.0\",\"assets\":[{\"tag_name\":\"v3.0.0\"}]}",
	"{\"assets\":[" + strings.Repeat("{\"name\":\"bab_linux_amd64.tar.gz\",\"size\":1234567},", 400) + "{}],\"tag_name\":\"v2.0.0\"}"} // of the size of real ones

// Answers: what the server may answer, and what becomes of the cache, the notice and the run.
func Answers() {
	kit.Setup()
	modelnet.Setup()
	load()
	model.Chdir(model.Root())
	before, old := "", ""
	if sym.Flag("cache") {
		old = []string{"v1.5.0", "v1.0.0", "v2.0.0"}[sym.Choice("old", 3)]
		before = write(stored{time.Unix(time.Now().Unix()-100*3600, 0), old, "e1"})
	}
	a := modelnet.Answer{Status: 200, ETag: "e2", Wait: sym.Flag("wait")}
	good := false
	switch sym.Choice("answer", 6) {
	case 0:
		a.Fail = true
	case 1:
		a.Never = true
	case 2:
		a.Status = []int{301, 302, 403, 404, 429, 500, 503, 304, 204, 100, 201}[sym.Choice("status", 11)]
		a.Body = bodies[0]
		good = a.Status == 304 && old != ""
	case 3:
		k := sym.Choice("body", len(bodies))
		a.Body = bodies[k]
		good = k == 0 || k >= len(bodies)-2
	case 4:
		a.Body = bodies[0][:sym.Choice("cut", len(bodies[0]))]
		a.Cut = true
	case 5:
		a.ETag, a.Match, a.Body = "e1", true, bodies[0]
		good = true
	}
	modelnet.Serve(a)
	fails := sym.Flag("fails")
	if fails {
		modelrun.Command("c2", modelrun.Cmd{Echo: true, Exit: 1})
	}
	err := bab("1.0.0", "t")
	sym.Assert((err != nil) == fails, "the run fails or not because of the check")
	sym.Assert(strings.Join(modelrun.Started(), ",") == "c,c2", "the check changes what is run")
	warn := kit.Reported("warn")
	sym.Assert(len(warn) <= 1, "more than one notice")
	settle()
	now, c := read()
	want := "v2.0.0"
	if a.Status == 304 || a.Match && old != "" {
		want = old
	}
	if len(warn) == 1 {
		sym.Assert(newer(old, "1.0.0") || good && newer(want, "1.0.0"), "a notice although no newer version is known")
	} else {
		sym.Assert(old == "" || !newer(old, "1.0.0"), "no notice of a newer version that is known")
	}
	sym.Assert(len(modelnet.Requests()) == 1, "the network is not asked once")
	if !good {
		sym.Assert(now == before, "a failed answer changes the cache")
		return
	}
	sym.Assert(c.LatestVersion == want, "the answer is not kept")
	sym.Assert(c.ETag == map[bool]string{true: "e1", false: "e2"}[a.Match || a.Status == 304], "the tag of the answer is not kept")
	sym.Assert(!c.CheckedAt.Before(time.Unix(time.Now().Unix()-3600, 0)) && !c.CheckedAt.After(time.Now()), "the time of the check is not kept")
	// A second run asks nothing.
	update.StartBackgroundRefresh(context.Background(), "1.0.0")
	settle()
	sym.Assert(len(modelnet.Requests()) == 1, "the network is asked again within the day")
}
