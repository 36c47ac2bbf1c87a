package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// Replay holds the concrete inputs of one path.
type Replay struct {
	vals map[string]uint64
	strs map[string]string
}

func newReplay(ins []Input) *Replay {
	r := &Replay{vals: map[string]uint64{}, strs: map[string]string{}}
	for _, i := range ins {
		if i.Kind == "str" {
			r.strs[i.Name] = string(i.Str)
		} else {
			r.vals[i.Name] = i.Val
		}
	}
	return r
}

func (r *Replay) val(n string) (uint64, bool) { v, ok := r.vals[n]; return v, ok }
func (r *Replay) str(n string) (string, bool) { v, ok := r.strs[n]; return v, ok }

type replayFile struct {
	Property string         `json:"property"`
	Pkg      string         `json:"pkg"`
	Harness  string         `json:"harness"`
	Kind     string         `json:"kind"`
	Msg      string         `json:"msg"`
	Params   map[string]int `json:"params"`
	Inputs   []Input        `json:"inputs"`
	Readable []string       `json:"readable"`
	Logs     []string       `json:"logs"`
	Stack    string         `json:"stack"`
	Confirm  string         `json:"confirmed"`
	Known    string         `json:"known,omitempty"`
}

func readable(ins []Input) []string {
	var r []string
	for _, i := range ins {
		if i.Kind == "str" {
			r = append(r, fmt.Sprintf("%s = %q", i.Name, string(i.Str)))
		} else {
			r = append(r, fmt.Sprintf("%s = %d", i.Name, int64(i.Val)))
		}
	}
	return r
}

// Native is the harness package compiled by the ordinary toolchain against the same sources.
type Native struct {
	bin  string
	dir  string
	err  error
	done chan struct{}
}

func buildNative(harnessDir, repo, pkg string, fns []string) *Native {
	n := &Native{done: make(chan struct{})}
	go func() {
		defer close(n.done)
		dir, err := os.MkdirTemp("", "zznative")
		if err != nil {
			n.err = err
			return
		}
		n.dir = dir
		ov, err := overlay(harnessDir, repo)
		if err != nil {
			n.err = err
			return
		}
		mc := filepath.Join(dir, "mainpkg")
		_ = os.Mkdir(mc, 0o755)
		if err := mainCopy(ov, repo, mc); err != nil {
			n.err = err
			return
		}
		var sb strings.Builder
		fmt.Fprintf(&sb, "package main\n\nimport (\n\t\"os\"\n\th %q\n\t%q\n)\n\nfunc main() {\n\tfs := map[string]func(){\n", zzPath+"/"+pkg, zzPath+"/sym")
		seen := map[string]bool{}
		for _, f := range fns {
			if seen[f] {
				continue
			}
			seen[f] = true
			fmt.Fprintf(&sb, "\t\t%q: h.%s,\n", f, f)
		}
		sb.WriteString("\t}\n\tsym.Main(fs[os.Args[1]])\n}\n")
		mainSrc := filepath.Join(dir, "main.go")
		if n.err = os.WriteFile(mainSrc, []byte(sb.String()), 0o644); n.err != nil {
			return
		}
		mdst := filepath.Join(repo, "internal/zzverif/zzmain/main.go")
		ov[mdst] = mainSrc
		b, _ := json.Marshal(map[string]any{"Replace": ov})
		ovf := filepath.Join(dir, "overlay.json")
		_ = os.WriteFile(ovf, b, 0o644)
		n.bin = filepath.Join(dir, "native")
		cmd := exec.Command("go", "build", "-overlay", ovf, "-o", n.bin, "./internal/zzverif/zzmain")
		cmd.Dir = repo
		cmd.Env = repoEnv()
		if p, err := lookGo(cmd.Env); err == nil {
			cmd.Path = p
		}
		if out, err := cmd.CombinedOutput(); err != nil {
			n.err = fmt.Errorf("native build: %v: %s", err, out)
		}
	}()
	return n
}

func lookGo(env []string) (string, error) {
	for _, e := range env {
		if p, ok := strings.CutPrefix(e, "PATH="); ok {
			for _, d := range filepath.SplitList(p) {
				f := filepath.Join(d, "go")
				if st, err := os.Stat(f); err == nil && !st.IsDir() {
					return f, nil
				}
			}
		}
	}
	return exec.LookPath("go")
}

func (n *Native) close() {
	if n == nil {
		return
	}
	<-n.done
	if n.dir != "" && strings.HasPrefix(n.dir, os.TempDir()+"/zznative") {
		_ = os.RemoveAll(n.dir)
	}
}

type nativeResult struct {
	code int
	out  string
	logs []LogEntry
}

// run executes one path natively in a fresh scratch directory.
func (n *Native) run(harness string, params map[string]int, ins []Input) (*nativeResult, error) {
	<-n.done
	if n.err != nil {
		return nil, n.err
	}
	d, err := os.MkdirTemp(n.dir, "run")
	if err != nil {
		return nil, err
	}
	defer func() { _ = os.RemoveAll(d) }()
	rf := filepath.Join(d, "replay.json")
	of := filepath.Join(d, "out.json")
	b, _ := json.Marshal(map[string]any{"inputs": ins, "params": params})
	if err := os.WriteFile(rf, b, 0o644); err != nil {
		return nil, err
	}
	sd := filepath.Join(d, "scratch")
	_ = os.Mkdir(sd, 0o755)
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, n.bin, harness)
	cmd.Dir = sd
	cmd.Env = []string{"PATH=/usr/local/bin:/usr/bin:/bin", "HOME=" + sd, "TMPDIR=" + sd, "ZZREPLAY=" + rf, "ZZOUT=" + of, "ZZSCRATCH=" + sd, "XDG_CACHE_HOME=" + sd + "/cache", "GOTRACEBACK=single", "NO_COLOR=1", "TZ=UTC"}
	var ob bytes.Buffer
	cmd.Stdout = &ob
	cmd.Stderr = &ob
	cmd.WaitDelay = 2 * time.Second
	err = cmd.Run()
	r := &nativeResult{out: ob.String()}
	if ctx.Err() != nil {
		r.code = -9
		r.out += "\n[native run timed out]"
	} else if ee, ok := err.(*exec.ExitError); ok {
		r.code = ee.ExitCode()
	} else if err != nil {
		return nil, err
	}
	if ob, err := os.ReadFile(of); err == nil {
		_ = json.Unmarshal(ob, &r.logs)
	}
	return r, nil
}

// reproduces reports whether the native run shows the violation.
func (r *nativeResult) reproduces(v *Violation) bool {
	switch v.Kind {
	case "assert":
		return r.code == 3 // the message may name the scratch directory
	case "panic":
		return r.code == 2 // what the runtime says may be where the model has put standard error
	case "deadlock":
		return r.code == -9 || r.code == 2
	}
	return false
}

func sameLogs(a, b []LogEntry) (bool, string) {
	for i := 0; i < len(a) || i < len(b); i++ {
		if i >= len(a) {
			return false, fmt.Sprintf("native has extra %s=%q", b[i].Key, b[i].Val)
		}
		if i >= len(b) {
			return false, fmt.Sprintf("native lacks %s=%q", a[i].Key, a[i].Val)
		}
		if a[i].Key != b[i].Key || !bytes.Equal(a[i].Val, b[i].Val) {
			return false, fmt.Sprintf("engine %s=%q, native %s=%q", a[i].Key, a[i].Val, b[i].Key, b[i].Val)
		}
	}
	return true, ""
}
