package model

import (
	"os"
	"path/filepath"
	"syscall"

	"github.com/bab-sh/bab/internal/zzverif/sym"
)

var captured bool
var saved [3]int

// Capture collects what is written to standard output and error from here on.
func Capture() {
	if sym.Symbolic() {
		stdoutBuf, stderrBuf = "", ""
		return
	}
	if captured {
		return
	}
	captured = true
	dir := filepath.Dir(os.Getenv("ZZSCRATCH"))
	for fd, name := range map[int]string{1: "stdout.txt", 2: "stderr.txt"} {
		f, err := os.OpenFile(filepath.Join(dir, name), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
		must(err)
		saved[fd], err = syscall.Dup(fd)
		must(err)
		syscall.CloseOnExec(saved[fd])
		must(syscall.Dup2(int(f.Fd()), fd))
		_ = f.Close()
	}
	sym.AtExit(func() {
		for fd := 1; fd <= 2; fd++ {
			_ = syscall.Dup2(saved[fd], fd)
		}
	})
}

// Stdout is what was written to standard output.
func Stdout() string { return capturedText(1, "stdout.txt") }

// Stderr is what was written to standard error, without log lines.
func Stderr() string { return capturedText(2, "stderr.txt") }

func capturedText(fd int, name string) string {
	if sym.Symbolic() {
		if fd == 1 {
			return stdoutBuf
		}
		return stderrBuf
	}
	b, _ := os.ReadFile(filepath.Join(filepath.Dir(os.Getenv("ZZSCRATCH")), name))
	return string(b)
}
