package h28

import (
	"context"
	"encoding/json"
	"os"
	"time"

	"github.com/bab-sh/bab/cmd"
	"github.com/bab-sh/bab/internal/zzverif/kit"
	"github.com/bab-sh/bab/internal/zzverif/model"
	"github.com/bab-sh/bab/internal/zzverif/modelnet"
	"github.com/bab-sh/bab/internal/zzverif/modelrun"
	"github.com/bab-sh/bab/internal/zzverif/sym"
	"github.com/charmbracelet/log"
)

// Notice: a release of bab, which may know of a newer one, ends as any other.
func Notice() {
	kit.Setup()
	modelnet.Setup()
	if latest := sym.Choice("latest", 4); latest > 0 {
		b, err := json.Marshal(map[string]any{
			"checked_at":     time.Unix(time.Now().Unix()-60, 0),
			"latest_version": []string{"", "v9.0.0", "v1.0.0", "v0.9.0"}[latest],
			"etag":           "e"})
		if err != nil {
			panic(err)
		}
		model.Mkdir(model.P("cache"))
		model.Mkdir(model.P("cache/bab"))
		model.Write(modelnet.Cache(), string(b))
	}
	modelnet.Serve(modelnet.Answer{Fail: true})
	if sym.Flag("disabled") {
		model.SetEnv("BAB_NO_UPDATE_CHECK", "1")
	}
	text := "tasks:\n  t:\n    run:\n      - cmd: c\n"
	broken := sym.Flag("broken")
	if broken {
		text += "    deps: [gone]\n"
	}
	model.Write(model.P("Babfile"), text)
	model.Chdir(model.Root())
	exit := 0
	if sym.Flag("fails") {
		exit = exits[sym.Choice("exit", len(exits))]
		modelrun.Command("c", modelrun.Cmd{Echo: true, Exit: exit})
	}
	ok := !broken
	var args []string
	switch sym.Choice("what", 7) {
	case 0:
		args = []string{"t"}
		ok = !broken && exit == 0
	case 1:
		args = []string{"gone"}
		ok = false
	case 2:
		args = []string{"-n", "t"}
	case 3:
		args = []string{"--list"}
	case 4:
		args = []string{"--validate"}
	case 5:
		args = []string{"t", "--nonsense"}
		ok = false
	case 6:
		args = []string{"-c", "nosuch"}
		ok = false
	}
	log.SetDefault(log.NewWithOptions(os.Stderr, log.Options{Level: log.InfoLevel}))
	cmd.SetVersionInfo("1.0.0", "none", "unknown")
	old := os.Args
	os.Args = append([]string{"bab"}, args...)
	err := cmd.ExecuteContext(context.Background())
	os.Args = old
	sym.Assert(err != nil || ok, "a failure is no failure of the program")
	sym.Assert(err == nil || !ok, "the program fails although nothing did")
}
