// Package model replaces the operating-system functions the code under test calls. Under the
// engine the //zz:replace functions stand for the named library functions; natively the same
// set-up calls act on the real environment inside a scratch directory.
package model

import (
	"os"

	"github.com/bab-sh/bab/internal/zzverif/sym"
)

type envVar struct{ k, v string }

var env []envVar

// SetEnv sets an environment variable of the process under test.
func SetEnv(k, v string) {
	if !sym.Symbolic() {
		_ = os.Setenv(k, v)
		return
	}
	for i := range env {
		if env[i].k == k {
			env[i].v = v
			return
		}
	}
	env = append(env, envVar{k, v})
}

func UnsetEnv(k string) {
	if !sym.Symbolic() {
		_ = os.Unsetenv(k)
		return
	}
	for i := range env {
		if env[i].k == k {
			env = append(env[:i:i], env[i+1:]...)
			return
		}
	}
}

//zz:replace os.Getenv syscall.runtime_envs_unused
func Getenv(k string) string {
	v, _ := LookupEnv(k)
	return v
}

//zz:replace os.LookupEnv syscall.Getenv
func LookupEnv(k string) (string, bool) {
	for i := range env {
		if env[i].k == k {
			return env[i].v, true
		}
	}
	return "", false
}

//zz:replace os.Setenv syscall.Setenv
func Setenv(k, v string) error {
	SetEnv(k, v)
	return nil
}

//zz:replace os.Unsetenv syscall.Unsetenv
func Unsetenv(k string) error {
	UnsetEnv(k)
	return nil
}

//zz:replace os.Environ syscall.Environ
func Environ() []string {
	r := make([]string, 0, len(env))
	for _, e := range env {
		r = append(r, e.k+"="+e.v)
	}
	return r
}

// EnvValue is what a lookup of k must give, for reference models.
func EnvValue(k string) string {
	if !sym.Symbolic() {
		return os.Getenv(k)
	}
	return Getenv(k)
}
