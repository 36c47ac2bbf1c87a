// Package modelrun replaces what the runner uses to act on the world: processes, the
// logger, signals and the terminal. Natively a stand-in shell, first in PATH, records what
// it is asked to run, and the logger writes to the same event file.
package modelrun

import (
	"fmt"
	"io"

	"github.com/charmbracelet/log"
)

// Event is something the program did, in order.
type Event struct {
	Kind   string // start, end, log
	Cmd    string // shell text
	Args   []string
	Dir    string
	Env    []string
	Exit   int
	Kill   bool
	Level  string
	Msg    string
	KV     map[string]string
	Pid    int
	Group  int     // process group
	Direct [3]bool // whether its streams are bab's own (not known in native runs)
}

// Getenv is the value the child sees for k.
func (e Event) Getenv(k string) (string, bool) {
	v, ok := "", false
	for _, x := range e.Env {
		if len(x) > len(k) && x[:len(k)] == k && x[len(k)] == '=' {
			v, ok = x[len(k)+1:], true
		}
	}
	return v, ok
}

var (
	events   []Event
	logOut   io.Writer
	logSet   bool
	logLevel = log.InfoLevel
)

func record(e Event) {
	events = append(events, e)
}

//zz:replace (*github.com/charmbracelet/log.Logger).Log
func logLog(l *log.Logger, level log.Level, msg any, keyvals ...any) {
	if level < logLevel || (logSet && logOut == io.Discard) {
		return
	}
	kv := map[string]string{}
	for i := 0; i+1 < len(keyvals); i += 2 {
		kv[fmt.Sprint(keyvals[i])] = fmt.Sprint(keyvals[i+1])
	}
	record(Event{Kind: "log", Level: level.String(), Msg: fmt.Sprint(msg), KV: kv})
}

//zz:replace github.com/charmbracelet/log.NewWithOptions
func logNew(w io.Writer, o log.Options) *log.Logger {
	logLevel = o.Level
	logOut = w
	logSet = true
	return new(log.Logger)
}

//zz:replace (*github.com/charmbracelet/log.Logger).SetOutput
func logSetOutput(l *log.Logger, w io.Writer) { logOut = w; logSet = true }

//zz:replace (*github.com/charmbracelet/log.Logger).SetLevel
func logSetLevel(l *log.Logger, v log.Level) { logLevel = v }

//zz:replace (*github.com/charmbracelet/log.Logger).GetLevel
func logGetLevel(l *log.Logger) log.Level { return logLevel }
