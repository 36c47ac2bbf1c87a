package main

import (
	"os"
	"os/exec"
	"strings"
	"sync"
)

var vpOnce sync.Once
var vpVars map[string]string

// vpEnv returns the toolchain settings the repository is built with.
func vpEnv() map[string]string {
	vpOnce.Do(func() {
		vpVars = map[string]string{}
		out, err := exec.Command("bash", "-c", ". /opt/vp/env.sh 2>/dev/null; env").Output()
		if err == nil {
			for _, l := range strings.Split(string(out), "\n") {
				k, v, ok := strings.Cut(l, "=")
				if !ok {
					continue
				}
				switch k {
				case "PATH", "GOPATH", "GOMODCACHE", "GOCACHE", "GOTOOLCHAIN", "GOPROXY", "GOWORK":
					vpVars[k] = v
				}
			}
		}
		vpVars["GOFLAGS"] = "-mod=readonly"
		vpVars["GOPROXY"] = "off"
		vpVars["GOSUMDB"] = "off"
		vpVars["GOWORK"] = "off"
		vpVars["GOTOOLCHAIN"] = "local"
		if vpVars["PATH"] == "" {
			vpVars["PATH"] = os.Getenv("PATH")
		}
	})
	return vpVars
}
