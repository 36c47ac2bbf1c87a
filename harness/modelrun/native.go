package modelrun

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/bab-sh/bab/internal/zzverif/sym"
	"github.com/charmbracelet/log"
)

type nativeCmd struct {
	Text     []byte
	Exit     int
	Out, Err []byte
	Block    bool
	Child    bool
	Stubborn bool
	Echo     bool
}

var npmu sync.Mutex

func binDir() string { return filepath.Join(filepath.Dir(os.Getenv("ZZSCRATCH")), "bin") }

// Setup prepares the stand-in shell and the logger of a native run.
func Setup() {
	if sym.Symbolic() {
		return
	}
	d := binDir()
	chk(os.MkdirAll(d, 0o755))
	self, err := os.Executable()
	chk(err)
	chk(os.Link(self, filepath.Join(d, "sh")))
	chk(os.Setenv("PATH", d+":"+os.Getenv("PATH")))
	f, err := os.OpenFile(filepath.Join(d, "events"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	chk(err)
	l := log.NewWithOptions(f, log.Options{Level: log.InfoLevel})
	l.SetFormatter(log.JSONFormatter)
	log.SetDefault(l)
	nativePlan()
	sym.AtExit(killStarted)
}

func killStarted() {
	for _, e := range nativeEvents() {
		if e.Kind == "start" || e.Kind == "child" {
			_ = syscall.Kill(e.Pid, syscall.SIGKILL)
		}
	}
}

func chk(err error) {
	if err != nil {
		panic("zz model: " + err.Error())
	}
}

func nativePlan() {
	npmu.Lock()
	defer npmu.Unlock()
	conv := func(t string, c Cmd) nativeCmd {
		return nativeCmd{[]byte(t), c.Exit, []byte(c.Out), []byte(c.Err), c.Block, c.Child, c.Stubborn, c.Echo}
	}
	ps := []nativeCmd{conv("", deflt)}
	for _, p := range plans {
		ps = append(ps, conv(p.text, p.c))
	}
	b, _ := json.Marshal(ps)
	if _, err := os.Stat(binDir()); err == nil {
		chk(os.WriteFile(filepath.Join(binDir(), "plan"), b, 0o644))
	}
}

type nativeEvent struct {
	Kind, Dir string
	Cmd       []byte
	Args, Env [][]byte
	Exit, Pid int
	Group     int
}

func nativeEvents() []Event {
	b, _ := os.ReadFile(filepath.Join(binDir(), "events"))
	var r []Event
	for _, l := range strings.Split(string(b), "\n") {
		if l == "" {
			continue
		}
		var n nativeEvent
		if json.Unmarshal([]byte(l), &n) == nil && n.Kind != "" {
			e := Event{Kind: n.Kind, Cmd: string(n.Cmd), Dir: n.Dir, Exit: n.Exit, Pid: n.Pid, Group: n.Group}
			for _, a := range n.Args {
				e.Args = append(e.Args, string(a))
			}
			for _, a := range n.Env {
				e.Env = append(e.Env, string(a))
			}
			r = append(r, e)
			continue
		}
		var m map[string]any
		if json.Unmarshal([]byte(l), &m) == nil {
			e := Event{Kind: "log", KV: map[string]string{}}
			for k, v := range m {
				s := fmt.Sprint(v)
				switch k {
				case "level":
					e.Level = s
				case "msg":
					e.Msg = s
				default:
					e.KV[k] = s
				}
			}
			r = append(r, e)
		}
	}
	return r
}

func nativeAlive() int {
	n := nativeAliveNow()
	for i := 0; i < 100 && n > 0; i++ { // a signal takes effect a moment later
		time.Sleep(10 * time.Millisecond)
		n = nativeAliveNow()
	}
	return n
}

func nativeAliveNow() int {
	n := 0
	for _, e := range nativeEvents() {
		if e.Kind != "start" && e.Kind != "child" {
			continue
		}
		b, err := os.ReadFile("/proc/" + strconv.Itoa(e.Pid) + "/stat")
		if err != nil {
			continue
		}
		s := string(b)
		if i := strings.LastIndex(s, ")"); i >= 0 && i+2 < len(s) && s[i+2] != 'Z' && s[i+2] != 'X' {
			n++
		}
	}
	return n
}

func watchNative(text string, f func()) {
	for {
		for _, e := range nativeEvents() {
			if e.Kind == "start" && e.Cmd == text {
				f()
				return
			}
		}
		time.Sleep(2 * time.Millisecond)
	}
}

func init() {
	if sym.Symbolic() || len(os.Args) == 0 || filepath.Base(os.Args[0]) != "sh" {
		return
	}
	fakeShell()
}

// fakeShell is the program run in place of the shell.
func fakeShell() {
	self, err := os.Executable()
	chk(err)
	dir := filepath.Dir(self)
	if len(os.Args) >= 2 && os.Args[1] == "--zzchild" {
		if len(os.Args) == 3 {
			signal.Ignore(syscall.SIGTERM, syscall.SIGINT, syscall.SIGHUP, syscall.SIGQUIT)
		}
		time.Sleep(time.Hour)
		os.Exit(0)
	}
	text := ""
	if len(os.Args) == 3 && os.Args[1] == "-c" {
		text = os.Args[2]
	} else {
		text = strings.Join(os.Args, " ")
	}
	var ps []nativeCmd
	b, err := os.ReadFile(filepath.Join(dir, "plan"))
	chk(err)
	chk(json.Unmarshal(b, &ps))
	c := ps[0]
	for _, p := range ps[1:] {
		if string(p.Text) == text {
			c = p
		}
	}
	if c.Stubborn {
		signal.Ignore(syscall.SIGTERM, syscall.SIGINT, syscall.SIGHUP, syscall.SIGQUIT)
	}
	f, err := os.OpenFile(filepath.Join(dir, "events"), os.O_WRONLY|os.O_APPEND, 0o644)
	chk(err)
	emit := func(e nativeEvent) {
		b, _ := json.Marshal(e)
		_, _ = f.Write(append(b, '\n'))
	}
	wd, _ := os.Getwd()
	s := nativeEvent{Kind: "start", Cmd: []byte(text), Dir: wd, Pid: os.Getpid(), Group: syscall.Getpgrp()}
	for _, a := range os.Args {
		s.Args = append(s.Args, []byte(a))
	}
	for _, a := range os.Environ() {
		s.Env = append(s.Env, []byte(a))
	}
	emit(s)
	if c.Child {
		ch := exec.Command(self, "--zzchild")
		ch.Args[0] = "sh"
		if c.Stubborn {
			ch.Args = append(ch.Args, "stubborn")
		}
		ch.Stdout = os.Stdout
		ch.Stderr = os.Stderr
		chk(ch.Start())
		emit(nativeEvent{Kind: "child", Pid: ch.Process.Pid})
	}
	if c.Echo {
		_, _ = io.WriteString(os.Stdout, text+"\n")
	}
	_, _ = io.WriteString(os.Stdout, string(c.Out))
	_, _ = io.WriteString(os.Stderr, string(c.Err))
	if c.Block {
		time.Sleep(time.Hour)
	}
	emit(nativeEvent{Kind: "end", Cmd: []byte(text), Exit: c.Exit, Pid: os.Getpid()})
	if c.Exit < 0 {
		_ = syscall.Kill(os.Getpid(), syscall.SIGKILL)
		select {}
	}
	os.Exit(c.Exit)
}
