package modelrun

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strconv"
	"syscall"
	"time"

	"github.com/bab-sh/bab/internal/zzverif/model"
	"github.com/bab-sh/bab/internal/zzverif/sym"
	"golang.org/x/term"
)

// Cmd says how the program behind a command text behaves.
type Cmd struct {
	Exit     int  // negative: ended by a signal of somebody else
	Echo     bool // prints its own text
	Out, Err string
	Block    bool // runs until it is killed
	Stubborn bool // it and its child end on no signal but SIGKILL
	Child    bool // leaves a child of its own that runs until it is killed and holds the output open
	Late     bool // a cancellation that comes while it runs takes effect when it has just gone (engine only)
	Reads    bool // reads its input
	Steps    int  // scheduling points while it runs
	OnRun    func()
}

type plan struct {
	text string
	c    Cmd
}

type proc struct {
	pid, pgid int
	parent    int
	text      string
	alive     bool
	killed    bool
	exit      int
	c         Cmd
	cmd       *exec.Cmd
	ctx       context.Context
	dead      chan struct{}
}

type cmdInfo struct {
	c   *exec.Cmd
	ctx context.Context
	p   *proc
}

type exitInfo struct {
	st *os.ProcessState
	p  *proc
}

const selfPid = 100

var (
	plans    []plan
	deflt    Cmd
	cmds     []*cmdInfo
	procs    []*proc
	states   []exitInfo
	nextPid  = 200
	terminal [3]bool
	signals  []context.CancelFunc
	// SelfKilled is set when the program signals its own process group.
	SelfKilled bool
	// Running is the number of commands running now, MaxRunning the most there were.
	Running, MaxRunning int
	// Stopped lists the commands that were stopped for reading the terminal (engine only).
	Stopped []string
)

// Command sets the behaviour of the command with the given shell text.
func Command(text string, c Cmd) {
	plans = append(plans, plan{text, c})
	if !sym.Symbolic() {
		nativePlan()
		if c.OnRun != nil {
			go watchNative(text, c.OnRun)
		}
	}
}

// Others sets the behaviour of all other commands.
func Others(c Cmd) {
	deflt = c
	if !sym.Symbolic() {
		nativePlan()
	}
}

// Terminal says which of the standard streams are terminals (engine only).
func Terminal(in, out, err bool) {
	terminal = [3]bool{in, out, err}
	if in || out || err {
		sym.Virtual()
	}
}

// Interrupt delivers SIGINT to the program.
func Interrupt() {
	for _, c := range signals {
		c()
	}
}

// OnInterrupt registers what else SIGINT does (engine only).
func OnInterrupt(f func()) { signals = append(signals, f) }

// Events returns what happened so far.
func Events() []Event {
	if !sym.Symbolic() {
		return nativeEvents()
	}
	return append([]Event(nil), events...)
}

// Started lists the texts of the commands started, in order.
func Started() []string {
	var r []string
	for _, e := range Events() {
		if e.Kind == "start" {
			r = append(r, e.Cmd)
		}
	}
	return r
}

// Alive counts the processes that still run.
func Alive() int {
	if !sym.Symbolic() {
		return nativeAlive()
	}
	n := 0
	for _, p := range procs {
		if p.alive {
			n++
		}
	}
	return n
}

//zz:replace golang.org/x/term.IsTerminal
func isTerminal(fd int) bool { return fd >= 0 && fd < 3 && terminal[fd] }

//zz:replace golang.org/x/term.GetState
func getState(fd int) (*term.State, error) {
	if !isTerminal(fd) {
		return nil, syscall.ENOTTY
	}
	return new(term.State), nil
}

//zz:replace golang.org/x/term.Restore
func restore(fd int, s *term.State) error { return nil }

//zz:replace os/signal.NotifyContext
func notifyContext(parent context.Context, sigs ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	signals = append(signals, cancel)
	return ctx, cancel
}

//zz:replace os/signal.Notify
func notify(c chan<- os.Signal, sigs ...os.Signal) {
	signals = append(signals, func() {
		select {
		case c <- os.Interrupt:
		default:
		}
	})
}

//zz:replace os/signal.Stop os/signal.Reset
func signalStop(c chan<- os.Signal) {}

var _ = signal.Stop

//zz:replace os/exec.LookPath
func lookPath(file string) (string, error) { return filepath.Join("/bin", file), nil }

//zz:replace os/exec.Command
func command(name string, arg ...string) *exec.Cmd {
	c := &exec.Cmd{Path: name, Args: append([]string{name}, arg...)}
	cmds = append(cmds, &cmdInfo{c: c})
	return c
}

//zz:replace os/exec.CommandContext
func commandContext(ctx context.Context, name string, arg ...string) *exec.Cmd {
	if ctx == nil {
		panic("nil Context")
	}
	c := command(name, arg...)
	c.Cancel = func() error { return c.Process.Kill() }
	infoOf(c).ctx = ctx
	return c
}

func infoOf(c *exec.Cmd) *cmdInfo {
	for _, i := range cmds {
		if i.c == c {
			return i
		}
	}
	i := &cmdInfo{c: c}
	cmds = append(cmds, i)
	return i
}

//zz:replace (*os/exec.Cmd).Environ
func cmdEnviron(c *exec.Cmd) []string {
	if c.Env == nil {
		return os.Environ()
	}
	return c.Env
}

//zz:replace (*os/exec.Cmd).Start
func cmdStart(c *exec.Cmd) error {
	ci := infoOf(c)
	if c.Process != nil {
		return errors.New("exec: already started")
	}
	if ci.ctx != nil && ci.ctx.Err() != nil {
		return ci.ctx.Err()
	}
	if c.Dir != "" {
		fi, err := os.Stat(c.Dir)
		if err != nil {
			return &fs.PathError{Op: "chdir", Path: c.Dir, Err: syscall.ENOENT}
		}
		if !fi.IsDir() {
			return &fs.PathError{Op: "chdir", Path: c.Dir, Err: syscall.ENOTDIR}
		}
	}
	text := ""
	if len(c.Args) == 3 && c.Args[1] == "-c" {
		text = c.Args[2]
	} else {
		for i, a := range c.Args {
			if i > 0 {
				text += " "
			}
			text += a
		}
	}
	beh := deflt
	for _, p := range plans {
		if p.text == text {
			beh = p.c
		}
	}
	p := &proc{pid: nextPid, pgid: selfPid, parent: selfPid, text: text, alive: true, c: beh, cmd: c, ctx: ci.ctx, dead: make(chan struct{})}
	nextPid++
	if c.SysProcAttr != nil && c.SysProcAttr.Setpgid {
		p.pgid = c.SysProcAttr.Pgid
		if p.pgid == 0 {
			p.pgid = p.pid
		}
	}
	procs = append(procs, p)
	ci.p = p
	c.Process = &os.Process{Pid: p.pid}
	dir := c.Dir
	if dir == "" {
		dir, _ = os.Getwd()
	}
	record(Event{Kind: "start", Cmd: text, Args: c.Args, Dir: dir, Env: append([]string(nil), cmdEnviron(c)...), Pid: p.pid, Group: p.pgid, Direct: [3]bool{c.Stdin == os.Stdin, c.Stdout == os.Stdout, c.Stderr == os.Stderr}})
	Running++
	if Running > MaxRunning {
		MaxRunning = Running
	}
	if beh.Child {
		procs = append(procs, &proc{pid: nextPid, pgid: p.pgid, parent: p.pid, alive: true, c: Cmd{Stubborn: beh.Stubborn}, dead: make(chan struct{})})
		nextPid++
	}
	// who reads the terminal from a process group in the background is stopped (SIGTTIN)
	if beh.Reads && c.Stdin == os.Stdin && terminal[0] && p.pgid != selfPid && !c.SysProcAttr.Foreground {
		Stopped = append(Stopped, text)
	}
	if beh.OnRun != nil {
		beh.OnRun()
	}
	return nil
}

func (p *proc) die(killed bool) {
	if !p.alive {
		return
	}
	p.alive = false
	p.killed = killed
	p.exit = p.c.Exit
	close(p.dead)
}

func same(a, b io.Writer) bool {
	defer func() { _ = recover() }()
	return a == b
}

func isPipe(w io.Writer) bool {
	if w == nil {
		return false
	}
	_, file := w.(*os.File)
	return !file
}

//zz:replace (*os/exec.Cmd).Wait
func cmdWait(c *exec.Cmd) error {
	ci := infoOf(c)
	p := ci.p
	if p == nil {
		return errors.New("exec: not started")
	}
	var interrupt error
	var done <-chan struct{}
	if ci.ctx != nil {
		done = ci.ctx.Done()
	}
	cancel := func() {
		done = nil
		if c.Cancel == nil {
			return
		}
		if err := c.Cancel(); err == nil {
			interrupt = ci.ctx.Err()
		} else if !errors.Is(err, os.ErrProcessDone) {
			interrupt = err
		}
	}
	for i := 0; i < p.c.Steps && p.alive; i++ {
		sym.Yield()
		if done != nil && ci.ctx.Err() != nil {
			cancel()
		}
	}
	if p.alive {
		out := p.c.Out
		if p.c.Echo {
			out = p.text + "\n" + out
		}
		toOut := out != "" && c.Stdout != nil
		toErr := p.c.Err != "" && c.Stderr != nil
		if toOut && toErr && isPipe(c.Stdout) && isPipe(c.Stderr) && !same(c.Stdout, c.Stderr) {
			// each stream has a goroutine of its own that copies it
			copied := make(chan struct{})
			go func() {
				_, _ = io.WriteString(c.Stderr, p.c.Err)
				close(copied)
			}()
			_, _ = io.WriteString(c.Stdout, out)
			<-copied
		} else {
			if toOut {
				_, _ = io.WriteString(c.Stdout, out)
			}
			if toErr {
				_, _ = io.WriteString(c.Stderr, p.c.Err)
			}
		}
	}
	if !p.c.Block {
		p.die(false)
		if p.c.Late && done != nil && ci.ctx.Err() != nil {
			cancel()
		}
	}
	for p.alive {
		if done == nil && ci.ctx != nil && c.WaitDelay > 0 {
			p.die(true) // the delay passes, and the process is killed by itself
			break
		}
		select {
		case <-p.dead:
		case <-done:
			cancel()
		}
	}
	// a pipe stays open as long as a descendant holds it; the context is no longer watched
	if (isPipe(c.Stdout) || isPipe(c.Stderr)) && c.WaitDelay == 0 {
		for _, q := range procs {
			if q.parent == p.pid {
				<-q.dead
			}
		}
	}
	Running--
	record(Event{Kind: "end", Cmd: p.text, Exit: p.exit, Kill: p.killed, Pid: p.pid})
	st := new(os.ProcessState)
	states = append(states, exitInfo{st, p})
	c.ProcessState = st
	if p.killed || p.exit != 0 {
		return &exec.ExitError{ProcessState: st}
	}
	return interrupt
}

//zz:replace (*os/exec.Cmd).Run
func cmdRun(c *exec.Cmd) error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

//zz:replace (*os/exec.Cmd).Output
func cmdOutput(c *exec.Cmd) ([]byte, error) {
	var b sliceWriter
	c.Stdout = &b
	err := c.Run()
	return b, err
}

//zz:replace (*os/exec.Cmd).CombinedOutput
func cmdCombined(c *exec.Cmd) ([]byte, error) {
	var b sliceWriter
	c.Stdout = &b
	c.Stderr = &b
	err := c.Run()
	return b, err
}

type sliceWriter []byte

func (s *sliceWriter) Write(p []byte) (int, error) { *s = append(*s, p...); return len(p), nil }

func procOf(st *os.ProcessState) *proc {
	for _, x := range states {
		if x.st == st {
			return x.p
		}
	}
	return nil
}

//zz:replace (*os.ProcessState).ExitCode
func stateExitCode(st *os.ProcessState) int {
	p := procOf(st)
	if p == nil || p.killed || p.exit < 0 {
		return -1
	}
	return p.exit
}

//zz:replace (*os.ProcessState).Success
func stateSuccess(st *os.ProcessState) bool { return stateExitCode(st) == 0 }

//zz:replace (*os.ProcessState).Exited
func stateExited(st *os.ProcessState) bool {
	p := procOf(st)
	return p != nil && !p.killed && p.exit >= 0
}

//zz:replace (*os.ProcessState).String
func stateString(st *os.ProcessState) string {
	p := procOf(st)
	if p == nil {
		return "<nil>"
	}
	if p.killed || p.exit < 0 {
		return "signal: killed"
	}
	return "exit status " + strconv.Itoa(p.exit)
}

//zz:replace (*os.ProcessState).Pid
func statePid(st *os.ProcessState) int { return procOf(st).pid }

func fatal(sig syscall.Signal) bool {
	return sig == syscall.SIGKILL || sig == syscall.SIGTERM || sig == syscall.SIGINT || sig == syscall.SIGHUP || sig == syscall.SIGQUIT
}

//zz:replace syscall.Kill
func kill(pid int, sig syscall.Signal) error {
	hit := false
	if pid == 0 || pid == -1 || pid == -selfPid || pid == selfPid || pid == 1 {
		SelfKilled = true
		return nil
	}
	for _, p := range procs {
		if !p.alive {
			continue
		}
		if pid > 0 && p.pid == pid || pid < 0 && p.pgid == -pid {
			hit = true
			if fatal(sig) && (sig == syscall.SIGKILL || !p.c.Stubborn) {
				p.die(true)
			}
		}
	}
	if !hit {
		return syscall.ESRCH
	}
	return nil
}

//zz:replace syscall.Getpgid
func getpgid(pid int) (int, error) {
	for _, p := range procs {
		if p.pid == pid {
			return p.pgid, nil
		}
	}
	return 0, syscall.ESRCH
}

//zz:replace (*os.Process).Signal
func processSignal(p *os.Process, sig os.Signal) error {
	s, _ := sig.(syscall.Signal)
	if err := kill(p.Pid, s); err != nil {
		return os.ErrProcessDone
	}
	return nil
}

//zz:replace (*os.Process).Kill
func processKill(p *os.Process) error { return processSignal(p, syscall.SIGKILL) }

//zz:replace (*os.Process).Release
func processRelease(p *os.Process) error { return nil }

//zz:replace os.Getpid
func getpid() int { return selfPid }

var _ = fmt.Sprint
var _ = model.Root
var _ time.Duration
