package kit

import (
	"os"
	"strings"

	"github.com/bab-sh/bab/internal/zzverif/mainpkg"
	"github.com/bab-sh/bab/internal/zzverif/model"
	"github.com/bab-sh/bab/internal/zzverif/modelrun"
	"github.com/bab-sh/bab/internal/zzverif/modelui"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

// Bab runs the program with the arguments and returns its exit status.
func Bab(args ...string) int {
	old := os.Args
	os.Args = append([]string{"bab"}, args...)
	defer func() { os.Args = old }()
	code := mainpkg.Main()
	sym.Log("code", string(rune('0'+code)))
	return code
}

// Elsewhere moves to a directory with a Babfile of its own and returns the option that names
// the loaded one.
func Elsewhere() []string {
	model.Write(model.P("work/Babfile"), "tasks: {wrong: {run: [{cmd: wrong}]}}\n")
	model.Chdir(model.P("work"))
	return []string{"--babfile", model.P("Babfile.yml")}
}

// Reported lists the messages of a level (error, warn, info) a run of Bab logged.
func Reported(level string) []string {
	var r []string
	if sym.Symbolic() {
		for _, e := range modelrun.Events() {
			if e.Kind == "log" && e.Level == level {
				r = append(r, e.Msg)
			}
		}
		return r
	}
	tag := map[string]string{"error": "ERRO ", "warn": "WARN ", "info": "INFO ", "debug": "DEBU "}[level]
	last := false
	for _, l := range strings.Split(modelui.Plain(model.Stderr()), "\n") {
		if s, ok := strings.CutPrefix(l, tag); ok {
			r = append(r, s)
			last = true
		} else if last && strings.HasPrefix(l, "  ") {
			r[len(r)-1] += "\n" + l // a message of several lines
		} else {
			last = false
		}
	}
	return r
}
