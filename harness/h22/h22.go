// Package h22: the update cache on disk.
package h22

import (
	"context"
	"encoding/json"
	"strings"
	"time"

	"github.com/bab-sh/bab/internal/update"
	"github.com/bab-sh/bab/internal/zzverif/kit"
	"github.com/bab-sh/bab/internal/zzverif/model"
	"github.com/bab-sh/bab/internal/zzverif/modelnet"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

// stored is the documented content of the cache file.
type stored struct {
	CheckedAt     time.Time `json:"checked_at"`
	LatestVersion string    `json:"latest_version"`
	ETag          string    `json:"etag"`
}

func text(s stored) string {
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func ago(d time.Duration) time.Time {
	return time.Unix(time.Now().Unix()-int64(d/time.Second), 0).UTC()
}

const dir = "cache/bab"

func setup() {
	kit.Setup()
	modelnet.Setup()
	model.Mkdir(model.P("cache"))
}

// before puts a cache file there: none, an old one or a damaged one.
func before() string {
	switch sym.Choice("before", 3) {
	case 1:
		old := text(stored{ago(48 * time.Hour), "v1.5.0", "\"e1\""})
		model.Mkdir(model.P(dir))
		model.Write(modelnet.Cache(), old)
		return old
	case 2:
		model.Mkdir(model.P(dir))
		model.Write(modelnet.Cache(), "{\"checked_at\":\"20")
		return "{\"checked_at\":\"20"
	}
	return ""
}

// content is what is in the cache file, and what of it can be read.
func content() (string, *stored) {
	s, ok := model.Read(modelnet.Cache())
	if !ok {
		return "", nil
	}
	var c stored
	if json.Unmarshal([]byte(s), &c) != nil {
		return s, nil
	}
	return s, &c
}

// complete says whether the file holds the old content or a complete new one.
var engineOnly bool

func complete(old string, latest ...string) {
	got, c := content()
	if got == old {
		return
	}
	fine := false
	for _, l := range latest {
		fine = fine || c != nil && c.LatestVersion == l && c.ETag == "\"e"+l+"\"" && !c.CheckedAt.IsZero()
	}
	if !fine && engineOnly {
		sym.Virtual()
	}
	sym.Assert(fine, "the cache holds neither its old content nor a complete new one: "+got)
}

func answer(v string) modelnet.Answer {
	return modelnet.Answer{Status: 200, Body: "{\"tag_name\":\"" + v + "\"}", ETag: "\"e" + v + "\""}
}

func temps() (r []string) {
	for _, n := range model.Names(model.P(dir)) {
		if n != "update-check.json" {
			r = append(r, n)
		}
	}
	return
}

// Crash: the process dies, or the power fails, at any moment of saving.
func Crash() {
	setup()
	old := before()
	modelnet.Serve(answer("v2.0.0"))
	at := sym.Int("crash", 0, 12)
	model.CrashAt = at
	update.ForceCheck("1.0.0")
	done := !model.Dead()
	model.Restart(sym.Flag("power"))
	complete(old, "v2.0.0")
	if done {
		_, c := content()
		sym.Assert(c != nil && c.LatestVersion == "v2.0.0", "a save that went through is lost")
		sym.Assert(len(temps()) == 0, "a save leaves files behind: "+strings.Join(temps(), ", "))
	}
	if got, c := content(); got != "" && c == nil || got == old {
		// what is left behind does not hinder the next run
		modelnet.Serve(answer("v3.0.0"))
		info := update.ForceCheck("1.0.0")
		sym.Assert(info != nil && info.LatestVersion == "v3.0.0", "a later check fails after a crash")
		complete("", "v3.0.0")
	}
}

// Faults: any file operations fail.
func Faults() {
	setup()
	old := before()
	modelnet.Serve(answer("v2.0.0"))
	model.Faults = sym.Param("faults", 2)
	info := update.ForceCheck("1.0.0")
	model.Faults = 0
	complete(old, "v2.0.0")
	sym.Assert(info != nil, "an I/O error hides a new version")
	removal := false
	for _, f := range model.FaultLog {
		removal = removal || f == "remove"
	}
	sym.Assert(removal || len(temps()) == 0, "a failed save leaves files behind: "+strings.Join(temps(), ", "))
	if len(model.FaultLog) == 0 {
		_, c := content()
		sym.Assert(c != nil && c.LatestVersion == "v2.0.0", "nothing failed, yet nothing is saved")
	}
}

// FaultThenCrash: an operation fails and the process dies later on.
func FaultThenCrash() {
	setup()
	old := before()
	modelnet.Serve(answer("v2.0.0"))
	model.Faults = 1
	model.CrashAt = sym.Int("crash", 0, 12)
	update.ForceCheck("1.0.0")
	model.Faults = 0
	model.Restart(sym.Flag("power"))
	complete(old, "v2.0.0")
}

// Exit: the program ends while its background check is anywhere; power may fail right then.
func Exit() {
	setup()
	old := before()
	modelnet.Serve(answer("v2.0.0"))
	model.FSSteps = true
	ctx, cancel := context.WithCancel(context.Background())
	update.StartBackgroundRefresh(ctx, "1.0.0")
	for i := sym.Choice("time", sym.Param("steps", 12)); i > 0; i-- {
		sym.Yield()
	}
	if sym.Flag("cancelled") {
		cancel()
		sym.Yield()
	}
	model.Crash()
	model.FSSteps = false
	model.Restart(sym.Flag("power"))
	complete(old, "v2.0.0")
	cancel()
}

// Two: two programs save at the same time and die at any moment.
func Two() {
	setup()
	old := before()
	modelnet.Serve(answer("v2.0.0"), answer("v3.0.0"))
	model.FSSteps = true
	if sym.Flag("crash") {
		model.CrashAt = sym.Int("at", 0, 12)
	}
	done := make(chan bool, 2)
	for i := 0; i < 2; i++ {
		go func() {
			update.ForceCheck("1.0.0")
			done <- true
		}()
	}
	<-done
	<-done
	model.FSSteps = false
	dead := model.Dead()
	model.Restart(sym.Flag("power"))
	complete(old, "v2.0.0", "v3.0.0")
	if !dead {
		got, _ := content()
		sym.Assert(got != old, "nothing failed, yet nothing is saved")
		sym.Assert(len(temps()) == 0, "files are left behind: "+strings.Join(temps(), ", "))
	}
}

// Leftovers: a save removes what crashed saves left more than an hour ago, and nothing else.
func Leftovers() {
	setup()
	model.Mkdir(model.P(dir))
	names := []string{"update-check-1.tmp", "update-check-2.tmp", "update-check.tmp", "update-check-3.json", "other-4.tmp", "update-check-5.tmp"}
	ages := []time.Duration{2 * time.Hour, 30 * time.Minute, 2 * time.Hour, 2 * time.Hour, 2 * time.Hour, 0}
	n := sym.Choice("file", len(names))
	age := []time.Duration{ages[n], 59 * time.Minute, 61 * time.Minute, 1000 * time.Hour}[sym.Choice("age", 4)]
	p := model.P(dir + "/" + names[n])
	if n == 5 {
		model.Mkdir(p)
	} else {
		model.Write(p, "x")
	}
	model.SetModTime(p, ago(age))
	modelnet.Serve(answer("v2.0.0"))
	update.ForceCheck("1.0.0")
	complete("", "v2.0.0")
	gone := age > time.Hour && (n == 0 || n == 1)
	left := temps()
	sym.Log("left", strings.Join(left, ","))
	if gone {
		sym.Assert(len(left) == 0, "a leftover stays: "+strings.Join(left, ", "))
	} else {
		sym.Assert(len(left) == 1 && left[0] == names[n], "a file is removed which is no leftover: "+names[n])
	}
}

var odd = []string{"", "null", "[]", "0", "{}", "{", "\x00\x00\x00", "{\"latest_version\":5}", "{\"checked_at\":\"yesterday\",\"latest_version\":\"v9.0.0\"}",
	"{\"checked_at\":null,\"latest_version\":null,\"etag\":null}", "{\"checked_at\":\"2026-01-01T00:00:00Z\",\"latest_version\":[\"v9.0.0\"]}", "\xef\xbb\xbf{}",
	"{\"checked_at\":\"2026-01-01T00:00:00Z\",\"latest_version\":\"v9.0.0\"", "<html>v9.0.0</html>", "{\"checked_at\":\"2026-13-41T25:61:61Z\",\"latest_version\":\"v9.0.0\"}",
	"{\"latest_version\":\"\"}", "{\"checked_at\":\"9999-12-31T23:59:59Z\",\"latest_version\":\"v9.0.0\",\"etag\":\"x\"}", "v9.0.0", "\"v9.0.0\"", "{\"checked_at\":1,\"latest_version\":\"v9.0.0\"}"}

// Damaged: a cache file that is damaged in any of many ways counts as none, and is replaced.
func Damaged() {
	setup()
	model.Mkdir(model.P(dir))
	good := text(stored{ago(time.Hour), "v1.5.0", "e1"})
	var bad string
	switch sym.Choice("how", 4) {
	case 0:
		bad = odd[sym.Choice("doc", len(odd))]
	case 1: // cut off
		bad = good[:sym.Choice("cut", len(good))]
	case 2: // one byte is another
		i := sym.Choice("at", len(good))
		bad = good[:i] + []string{"\x00", "\"", "{", "}", "\\", "\xff", ","}[sym.Choice("byte", 7)] + good[i+1:]
	case 3: // dated in the future
		bad = text(stored{ago(-time.Duration(1+sym.Choice("ahead", 3)*100000) * time.Minute), "v9.0.0", "e1"})
	}
	model.Write(modelnet.Cache(), bad)
	var c stored
	fine := json.Unmarshal([]byte(bad), &c) == nil && c.LatestVersion != "" && !c.CheckedAt.After(time.Now())
	info := update.CheckCached("1.4.0")
	sym.Assert(fine || info == nil, "a damaged cache gives a version")
	modelnet.Serve(modelnet.Answer{Status: 200, Body: "{\"tag_name\":\"v2.0.0\"}", ETag: "\"ev2.0.0\"", Match: true})
	update.StartBackgroundRefresh(context.Background(), "1.4.0")
	sym.Quiesce()
	if sym.Symbolic() {
		kit.Assert(fine || len(modelnet.Requests()) == 1, "a damaged cache is not renewed")
		if len(modelnet.Requests()) == 1 {
			kit.Assert(fine || modelnet.Requests()[0].Match == "", "the tag of a damaged cache is used")
			engineOnly = true
			complete("", "v2.0.0")
		}
	}
}
