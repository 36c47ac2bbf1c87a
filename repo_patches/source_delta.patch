From a98f4e166469a44bfc57f377f34181372f3241c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 01/31] fix: decide when comparisons by the condition as
 written, not by the text of variable values

---
 internal/condition/condition.go | 45 ++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/internal/condition/condition.go b/internal/condition/condition.go
index 713e2d6..f23c5da 100644
--- a/internal/condition/condition.go
+++ b/internal/condition/condition.go
@@ -23,34 +23,43 @@ func Evaluate(condition string, ctx *interpolate.Context) (Result, error) {
 		return Result{ShouldRun: true, Reason: "no condition"}, nil
 	}
 
+	condition = strings.TrimSpace(condition)
+
+	// The operator is looked for in the condition as written, so that no value of a
+	// variable can change which comparison is made.
+	if left, op, right, ok := splitComparison(condition); ok {
+		leftValue, err := interpolate.Interpolate(left, ctx)
+		if err != nil {
+			return Result{ShouldRun: false}, fmt.Errorf("evaluating condition: %w", err)
+		}
+		rightValue, err := interpolate.Interpolate(right, ctx)
+		if err != nil {
+			return Result{ShouldRun: false}, fmt.Errorf("evaluating condition: %w", err)
+		}
+		return evaluateOp(leftValue, op, rightValue), nil
+	}
+
 	interpolated, err := interpolate.Interpolate(condition, ctx)
 	if err != nil {
 		return Result{ShouldRun: false}, fmt.Errorf("evaluating condition: %w", err)
 	}
 
-	interpolated = strings.TrimSpace(interpolated)
-
-	if result, ok := evaluateComparison(interpolated); ok {
-		return result, nil
-	}
-
 	return evaluateTruthy(interpolated), nil
 }
 
-func evaluateComparison(s string) (Result, bool) {
-	if matches := comparisonPatternSQ.FindStringSubmatch(s); len(matches) == 4 {
-		left := strings.TrimSpace(matches[1])
-		op := matches[2]
-		right := matches[3]
-		left = strings.Trim(left, "'\"")
-		return evaluateOp(left, op, right), true
+func splitComparison(s string) (left, op, right string, ok bool) {
+	matches := comparisonPatternSQ.FindStringSubmatch(s)
+	if len(matches) != 4 {
+		matches = comparisonPatternDQ.FindStringSubmatch(s)
 	}
+	if len(matches) != 4 {
+		return "", "", "", false
+	}
+	return strings.Trim(strings.TrimSpace(matches[1]), "'\""), matches[2], matches[3], true
+}
 
-	if matches := comparisonPatternDQ.FindStringSubmatch(s); len(matches) == 4 {
-		left := strings.TrimSpace(matches[1])
-		op := matches[2]
-		right := matches[3]
-		left = strings.Trim(left, "'\"")
+func evaluateComparison(s string) (Result, bool) {
+	if left, op, right, ok := splitComparison(s); ok {
 		return evaluateOp(left, op, right), true
 	}
 
-- 
2.43.0


From 143d149fbb7565d286d99a78e492cbe604c48d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 02/31] fix: an escaped placeholder in a variable definition is
 not a reference

---
 internal/interpolate/interpolate.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/interpolate/interpolate.go b/internal/interpolate/interpolate.go
index cd6369d..a9f02cc 100644
--- a/internal/interpolate/interpolate.go
+++ b/internal/interpolate/interpolate.go
@@ -146,7 +146,8 @@ func ResolveVarsWithLocation(vars map[string]string, parentVars map[string]strin
 		resolving[name] = true
 		resolvingStack = append(resolvingStack, name)
 
-		matches := Pattern.FindAllStringSubmatch(raw, -1)
+		unescaped := EscapePattern.ReplaceAllString(raw, escapePlaceholder)
+		matches := Pattern.FindAllStringSubmatch(unescaped, -1)
 		for _, match := range matches {
 			if len(match) < 2 {
 				continue
-- 
2.43.0


From f13489ffb68a9839a048df736959da0560602215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:09 +0000
Subject: [PATCH 03/31] fix: give a task without variables its own copy of the
 global ones

---
 internal/interpolate/interpolate.go | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/internal/interpolate/interpolate.go b/internal/interpolate/interpolate.go
index a9f02cc..e15decf 100644
--- a/internal/interpolate/interpolate.go
+++ b/internal/interpolate/interpolate.go
@@ -93,13 +93,6 @@ func ResolveVars(vars map[string]string, parentVars map[string]string) (map[stri
 }
 
 func ResolveVarsWithLocation(vars map[string]string, parentVars map[string]string, path string, line int) (map[string]string, error) {
-	if vars == nil {
-		if parentVars == nil {
-			return make(map[string]string), nil
-		}
-		return parentVars, nil
-	}
-
 	resolved := make(map[string]string)
 	for k, v := range parentVars {
 		resolved[k] = v
-- 
2.43.0


From 17c6af52d8cd8fd77a076d019d54e52de0e126bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:37 +0000
Subject: [PATCH 04/31] fix: text in a variable's value is never taken for an
 escaped placeholder

---
 internal/interpolate/interpolate.go | 39 +++++++++++++++--------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/internal/interpolate/interpolate.go b/internal/interpolate/interpolate.go
index e15decf..d084298 100644
--- a/internal/interpolate/interpolate.go
+++ b/internal/interpolate/interpolate.go
@@ -11,8 +11,6 @@ import (
 var Pattern = regexp.MustCompile(`\$\{\{\s*([a-zA-Z_][a-zA-Z0-9_.]*)\s*\}\}`)
 var EscapePattern = regexp.MustCompile(`\$\$\{\{`)
 
-const escapePlaceholder = "\x00ESCAPED_BRACE\x00"
-
 type Context struct {
 	Vars map[string]string
 	Path string
@@ -40,24 +38,27 @@ func Interpolate(input string, ctx *Context) (string, error) {
 
 	var errs []error
 
-	result := EscapePattern.ReplaceAllString(input, escapePlaceholder)
-
-	result = Pattern.ReplaceAllStringFunc(result, func(match string) string {
-		submatch := Pattern.FindStringSubmatch(match)
-		if len(submatch) < 2 {
-			return match
-		}
-		name := submatch[1]
+	// Escapes are taken out of the input, not out of the result, so that nothing in a
+	// variable's value can be mistaken for one.
+	parts := EscapePattern.Split(input, -1)
+	for i, part := range parts {
+		parts[i] = Pattern.ReplaceAllStringFunc(part, func(match string) string {
+			submatch := Pattern.FindStringSubmatch(match)
+			if len(submatch) < 2 {
+				return match
+			}
+			name := submatch[1]
 
-		value, err := resolveVar(name, ctx)
-		if err != nil {
-			errs = append(errs, err)
-			return match
-		}
-		return value
-	})
+			value, err := resolveVar(name, ctx)
+			if err != nil {
+				errs = append(errs, err)
+				return match
+			}
+			return value
+		})
+	}
 
-	result = strings.ReplaceAll(result, escapePlaceholder, "${{")
+	result := strings.Join(parts, "${{")
 
 	if len(errs) > 0 {
 		return result, errs[0]
@@ -139,7 +140,7 @@ func ResolveVarsWithLocation(vars map[string]string, parentVars map[string]strin
 		resolving[name] = true
 		resolvingStack = append(resolvingStack, name)
 
-		unescaped := EscapePattern.ReplaceAllString(raw, escapePlaceholder)
+		unescaped := EscapePattern.ReplaceAllString(raw, "\x00")
 		matches := Pattern.FindAllStringSubmatch(unescaped, -1)
 		for _, match := range matches {
 			if len(match) < 2 {
-- 
2.43.0


From bb5d8477e5263e7ab1a2f007823affc5ef6b1924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:30 +0000
Subject: [PATCH 05/31] fix: a streamed line ending in CR LF keeps its text

---
 internal/runner/writer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/runner/writer.go b/internal/runner/writer.go
index ac210c6..baf16b2 100644
--- a/internal/runner/writer.go
+++ b/internal/runner/writer.go
@@ -74,6 +74,7 @@ type lineBuffer struct {
 }
 
 func resolveCR(raw string) string {
+	raw = strings.TrimRight(raw, "\r")
 	if i := strings.LastIndexByte(raw, '\r'); i >= 0 {
 		return raw[i+1:]
 	}
-- 
2.43.0


From 27413ab52070356fda548fc681ba6717e812245c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 06/31] fix: no control character or non-style escape sequence
 of child output is shown, and a long style sequence does not crash

---
 internal/runner/writer.go | 43 ++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/internal/runner/writer.go b/internal/runner/writer.go
index baf16b2..2cb577c 100644
--- a/internal/runner/writer.go
+++ b/internal/runner/writer.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"strings"
 	"sync"
+	"unicode/utf8"
 
 	tea "charm.land/bubbletea/v2"
 	"charm.land/lipgloss/v2"
@@ -16,26 +17,30 @@ import (
 )
 
 func sanitizeLine(line string) string {
-	if !strings.ContainsRune(line, '\x1b') && !strings.ContainsRune(line, 0x9b) {
+	return filterLine(line, true)
+}
+
+func filterLine(line string, keepSGR bool) string {
+	if strings.IndexByte(line, '\x1b') < 0 && strings.IndexByte(line, 0x9b) < 0 {
 		return stripControlChars(line)
 	}
 	var b strings.Builder
 	b.Grow(len(line))
 	var state byte
-	p := ansi.NewParser()
 	input := line
 	for len(input) > 0 {
-		seq, _, n, newState := ansi.DecodeSequence(input, state, p)
+		seq, _, n, newState := ansi.DecodeSequence(input, state, nil)
 		if n == 0 {
 			break
 		}
 		state = newState
 		if ansi.HasCsiPrefix(seq) {
-			if p.Command()&0xff == 'm' {
+			if keepSGR && isSGR(seq) {
 				b.WriteString(seq)
 			}
 		} else if !ansi.HasOscPrefix(seq) && !ansi.HasEscPrefix(seq) &&
-			!ansi.HasDcsPrefix(seq) && !ansi.HasApcPrefix(seq) {
+			!ansi.HasDcsPrefix(seq) && !ansi.HasApcPrefix(seq) &&
+			!ansi.HasSosPrefix(seq) && !ansi.HasPmPrefix(seq) {
 			b.WriteString(seq)
 		}
 		input = input[n:]
@@ -43,29 +48,35 @@ func sanitizeLine(line string) string {
 	return stripControlChars(b.String())
 }
 
-func stripControlChars(s string) string {
-	if !strings.ContainsFunc(s, isUnsafeControl) {
-		return s
+func isSGR(seq string) bool {
+	params, ok := strings.CutPrefix(seq, "\x1b[")
+	if !ok {
+		return false
 	}
+	params, ok = strings.CutSuffix(params, "m")
+	return ok && strings.Trim(params, "0123456789;:") == ""
+}
+
+func stripControlChars(s string) string {
 	var b strings.Builder
 	b.Grow(len(s))
-	for _, r := range s {
-		if !isUnsafeControl(r) {
-			b.WriteRune(r)
+	for len(s) > 0 {
+		r, n := utf8.DecodeRuneInString(s)
+		rawC1 := r == utf8.RuneError && n == 1 && s[0] < 0xa0
+		if !rawC1 && !isUnsafeControl(r) {
+			b.WriteString(s[:n])
 		}
+		s = s[n:]
 	}
 	return b.String()
 }
 
 func isUnsafeControl(r rune) bool {
-	return r < 0x20 && r != '\t' && r != '\x1b'
+	return r < 0x20 && r != '\t' && r != '\x1b' || r >= 0x7f && r <= 0x9f
 }
 
 func cleanLine(line string, strip bool) string {
-	if strip {
-		return ansi.Strip(line)
-	}
-	return sanitizeLine(line)
+	return filterLine(line, !strip)
 }
 
 type lineBuffer struct {
-- 
2.43.0


From e7e4f1a1bab0ef9d97d88c3bfb8ca138fbe3a18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:18 +0000
Subject: [PATCH 07/31] fix: a task reached from two parallel branches is
 waited for, not reported as circular

---
 internal/runner/parallel.go | 43 ++++++++++-------
 internal/runner/runner.go   | 95 +++++++++++++++++++++++++------------
 2 files changed, 89 insertions(+), 49 deletions(-)

diff --git a/internal/runner/parallel.go b/internal/runner/parallel.go
index 6c95998..db9f686 100644
--- a/internal/runner/parallel.go
+++ b/internal/runner/parallel.go
@@ -33,39 +33,46 @@ func pathToKey(path []int) string {
 
 type syncState struct {
 	mu    sync.Mutex
-	state map[string]status
+	state map[string]*taskState
 }
 
-func (s *syncState) get(name string) status {
-	s.mu.Lock()
-	defer s.mu.Unlock()
-	return s.state[name]
+type taskState struct {
+	status   status
+	err      error
+	finished chan struct{}
+}
+
+func newSyncState() *syncState {
+	return &syncState{state: make(map[string]*taskState)}
 }
 
-func (s *syncState) set(name string, st status) {
+func (s *syncState) get(name string) status {
 	s.mu.Lock()
 	defer s.mu.Unlock()
-	s.state[name] = st
+	if ts := s.state[name]; ts != nil {
+		return ts.status
+	}
+	return 0
 }
 
-func (s *syncState) claim(name string) status {
+// claim returns the state of the task and whether the caller is the one to run it.
+func (s *syncState) claim(name string) (*taskState, bool) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
-	current := s.state[name]
-	if current == 0 {
-		s.state[name] = running
+	if ts := s.state[name]; ts != nil {
+		return ts, false
 	}
-	return current
+	ts := &taskState{status: running, finished: make(chan struct{})}
+	s.state[name] = ts
+	return ts, true
 }
 
-func (s *syncState) snapshot() map[string]status {
+func (s *syncState) finish(ts *taskState, err error) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
-	cp := make(map[string]status, len(s.state))
-	for k, v := range s.state {
-		cp[k] = v
-	}
-	return cp
+	ts.status = done
+	ts.err = err
+	close(ts.finished)
 }
 
 func (r *Runner) executeParallel(ctx context.Context, pr babfile.ParallelRun, task *babfile.Task, tasks babfile.TaskMap, state *syncState, taskVars map[string]string, taskEnv map[string]string, overrideSilent, overrideOutput *bool, stdout, stderr io.Writer, parentNoColor bool, pctx *ParallelContext) error {
diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index 07f56da..e4f2f21 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -8,6 +8,7 @@ import (
 	"os/exec"
 	"path/filepath"
 	"runtime"
+	"slices"
 	"strings"
 
 	"github.com/bab-sh/bab/internal/babfile"
@@ -101,7 +102,7 @@ func (r *Runner) RunWithTasks(ctx context.Context, taskName string, tasks babfil
 		}
 	}
 
-	state := &syncState{state: make(map[string]status)}
+	state := newSyncState()
 	return r.runTask(ctx, taskName, tasks, state, true, nil, nil, nil, nil, false, nil)
 }
 
@@ -133,16 +134,26 @@ func firstNonNil(vals ...*bool) *bool {
 }
 
 func (r *Runner) runTask(ctx context.Context, name string, tasks babfile.TaskMap, state *syncState, isMain bool, overrideSilent, overrideOutput *bool, stdout, stderr io.Writer, noColor bool, pctx *ParallelContext) error {
-	switch state.claim(name) {
-	case done:
-		return nil
-	case running:
-		return &errs.CircularDepError{
-			Type:  "dependency",
-			Chain: buildChainSlice(name, tasks, state.snapshot()),
+	ancestors := ancestorsFrom(ctx)
+	ts, claimed := state.claim(name)
+	if !claimed {
+		if chain := cycleThrough(name, ancestors, tasks); chain != nil {
+			return &errs.CircularDepError{Type: "dependency", Chain: chain}
+		}
+		select {
+		case <-ts.finished:
+			return ts.err
+		case <-ctx.Done():
+			return fmt.Errorf("cancelled: %w", ctx.Err())
 		}
 	}
 
+	err := r.runClaimedTask(withAncestor(ctx, ancestors, name), name, tasks, state, isMain, overrideSilent, overrideOutput, stdout, stderr, noColor, pctx)
+	state.finish(ts, err)
+	return err
+}
+
+func (r *Runner) runClaimedTask(ctx context.Context, name string, tasks babfile.TaskMap, state *syncState, isMain bool, overrideSilent, overrideOutput *bool, stdout, stderr io.Writer, noColor bool, pctx *ParallelContext) error {
 	task, ok := tasks[name]
 	if !ok {
 		available := tasks.Names()
@@ -163,7 +174,6 @@ func (r *Runner) runTask(ctx context.Context, name string, tasks babfile.TaskMap
 		}
 		if !result.ShouldRun {
 			log.Debug("Skipping task", "task", name, "reason", "when condition", "detail", result.Reason)
-			state.set(name, done)
 			return nil
 		}
 	}
@@ -197,7 +207,6 @@ func (r *Runner) runTask(ctx context.Context, name string, tasks babfile.TaskMap
 		}
 	}
 
-	state.set(name, done)
 	return nil
 }
 
@@ -548,31 +557,55 @@ func executeLog(l babfile.LogRun) {
 	}
 }
 
-func buildChainSlice(current string, tasks babfile.TaskMap, state map[string]status) []string {
-	chain := []string{current}
-	seen := make(map[string]bool)
+type ancestorsKey struct{}
 
-	for {
-		last := chain[len(chain)-1]
-		if seen[last] {
-			break
-		}
-		seen[last] = true
+// ancestorsFrom returns the tasks whose execution led to the current one, outermost first.
+func ancestorsFrom(ctx context.Context) []string {
+	ancestors, _ := ctx.Value(ancestorsKey{}).([]string)
+	return ancestors
+}
 
-		task, ok := tasks[last]
-		if !ok || len(task.Deps) == 0 {
-			break
-		}
+func withAncestor(ctx context.Context, ancestors []string, name string) context.Context {
+	return context.WithValue(ctx, ancestorsKey{}, append(slices.Clone(ancestors), name))
+}
 
-		for _, dep := range task.Deps {
-			if state[dep] == running {
-				chain = append(chain, dep)
-				if dep == current {
-					return chain
-				}
-				break
+// cycleThrough returns the cycle that waiting for name would close: a path from an ancestor
+// through name back to that ancestor, or nil if name does not lead back to any ancestor.
+func cycleThrough(name string, ancestors []string, tasks babfile.TaskMap) []string {
+	seen := make(map[string]bool)
+	var find func(current string, path []string) []string
+	find = func(current string, path []string) []string {
+		path = append(slices.Clone(path), current)
+		if i := slices.Index(ancestors, current); i >= 0 {
+			return append(slices.Clone(ancestors[i:]), path...)
+		}
+		if seen[current] {
+			return nil
+		}
+		seen[current] = true
+		task, ok := tasks[current]
+		if !ok {
+			return nil
+		}
+		for _, next := range append(slices.Clone(task.Deps), taskRefs(task.Run)...) {
+			if chain := find(next, path); chain != nil {
+				return chain
 			}
 		}
+		return nil
+	}
+	return find(name, nil)
+}
+
+func taskRefs(items []babfile.RunItem) []string {
+	var refs []string
+	for _, item := range items {
+		switch v := item.(type) {
+		case babfile.TaskRun:
+			refs = append(refs, v.Task)
+		case babfile.ParallelRun:
+			refs = append(refs, taskRefs(v.Items)...)
+		}
 	}
-	return chain
+	return refs
 }
-- 
2.43.0


From d606870926fc68cf4da2d94eace76983b16850f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:37 +0000
Subject: [PATCH 08/31] fix: a cancelled parallel block with items that never
 started is not a success

---
 internal/runner/parallel.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/runner/parallel.go b/internal/runner/parallel.go
index db9f686..87df584 100644
--- a/internal/runner/parallel.go
+++ b/internal/runner/parallel.go
@@ -149,6 +149,9 @@ func (r *Runner) executeParallelInterleaved(ctx context.Context, pr babfile.Para
 				select {
 				case sem <- struct{}{}:
 				case <-ctx.Done():
+					firstErrOnce.Do(func() {
+						firstErr = fmt.Errorf("parallel item %q not started: %w", labels[idx], ctx.Err())
+					})
 					return
 				}
 				defer func() { <-sem }()
@@ -249,6 +252,9 @@ func (r *Runner) executeParallelTUI(ctx context.Context, pr babfile.ParallelRun,
 					itemErrs[idx] = context.Canceled
 
 					program.Send(tui.ItemDoneMsg{Key: childKey, Err: context.Canceled})
+					firstErrOnce.Do(func() {
+						firstErr = fmt.Errorf("parallel item %q not started: %w", labels[idx], ctx.Err())
+					})
 					return
 				}
 				defer func() { <-sem }()
-- 
2.43.0


From 476e3cd57fca21fb1cb2b414692bac62e6a7203e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:38 +0000
Subject: [PATCH 09/31] fix: interpolate each environment value once

---
 internal/runner/runner.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index e4f2f21..22bf081 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -312,10 +312,11 @@ func (r *Runner) executeCommand(ctx context.Context, v babfile.CommandRun, task
 		return err
 	}
 
-	cmdEnv, err := r.interpolateEnv(babfile.MergeEnvMaps(taskEnv, v.Env), cmdCtx)
+	itemEnv, err := r.interpolateEnv(v.Env, cmdCtx)
 	if err != nil {
 		return err
 	}
+	cmdEnv := babfile.MergeEnvMaps(taskEnv, itemEnv)
 
 	cmdDir, err := r.resolveDir(task, v.Dir, cmdCtx)
 	if err != nil {
-- 
2.43.0


From 481fbc9b926eb4fce709f68721a4632feaade265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:03 +0000
Subject: [PATCH 10/31] fix: the root Babfile's dir does not apply to tasks of
 included files

---
 internal/parser/include.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/parser/include.go b/internal/parser/include.go
index 1a8ae84..b3c266b 100644
--- a/internal/parser/include.go
+++ b/internal/parser/include.go
@@ -35,6 +35,9 @@ func resolveInclude(namespace, babfilePath, baseDir string, tasks babfile.TaskMa
 		if taskDir == "" {
 			taskDir = result.GlobalDir
 		}
+		if taskDir == "" {
+			taskDir = "."
+		}
 
 		taskSilent := task.Silent
 		if taskSilent == nil {
-- 
2.43.0


From f7d87a9199a913684dd22ccba586dbb580a359b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:02 +0000
Subject: [PATCH 11/31] fix: parallel blocks of included files keep their
 silent and output settings

---
 internal/parser/include.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/parser/include.go b/internal/parser/include.go
index b3c266b..f3ddb60 100644
--- a/internal/parser/include.go
+++ b/internal/parser/include.go
@@ -126,6 +126,8 @@ func prefixTaskRuns(items []babfile.RunItem, namespace string) []babfile.RunItem
 				Labels:    v.Labels,
 				Mode:      v.Mode,
 				Limit:     v.Limit,
+				Silent:    v.Silent,
+				Output:    v.Output,
 				Color:     v.Color,
 				Platforms: v.Platforms,
 				When:      v.When,
-- 
2.43.0


From 23cc0226bb3311150af7da24cf984b5079d2e872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 12/31] fix: a parallel item whose task is skipped by its
 condition does not run that task's dependencies

---
 internal/runner/parallel.go |  5 +++++
 internal/runner/runner.go   | 33 +++++++++++++++++++++++----------
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/internal/runner/parallel.go b/internal/runner/parallel.go
index 87df584..c1d598e 100644
--- a/internal/runner/parallel.go
+++ b/internal/runner/parallel.go
@@ -354,6 +354,11 @@ func (r *Runner) preResolveDeps(ctx context.Context, items []babfile.RunItem, ta
 		if !exists {
 			return fmt.Errorf("parallel item references unknown task %q", tr.Task)
 		}
+		if shouldSkip, err := r.shouldSkipTask(tr.Task, task); err != nil {
+			return err
+		} else if shouldSkip {
+			continue
+		}
 		for _, dep := range task.Deps {
 			if seen[dep] {
 				continue
diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index 22bf081..d0ec447 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -166,16 +166,10 @@ func (r *Runner) runClaimedTask(ctx context.Context, name string, tasks babfile.
 		}
 	}
 
-	if task.When != "" {
-		whenCtx := interpolate.NewContextWithLocation(r.GlobalVars, r.BabfilePath, task.Line)
-		result, err := condition.Evaluate(task.When, whenCtx)
-		if err != nil {
-			return fmt.Errorf("task %q: evaluating when condition: %w", name, err)
-		}
-		if !result.ShouldRun {
-			log.Debug("Skipping task", "task", name, "reason", "when condition", "detail", result.Reason)
-			return nil
-		}
+	if shouldSkip, err := r.shouldSkipTask(name, task); err != nil {
+		return err
+	} else if shouldSkip {
+		return nil
 	}
 
 	if !r.DryRun && !isSilent(overrideSilent, task.Silent, r.GlobalSilent) {
@@ -352,6 +346,25 @@ func (r *Runner) executeCommand(ctx context.Context, v babfile.CommandRun, task
 	return nil
 }
 
+func (r *Runner) shouldSkipTask(name string, task *babfile.Task) (bool, error) {
+	if task.When == "" {
+		return false, nil
+	}
+
+	whenCtx := interpolate.NewContextWithLocation(r.GlobalVars, r.BabfilePath, task.Line)
+	result, err := condition.Evaluate(task.When, whenCtx)
+	if err != nil {
+		return false, fmt.Errorf("task %q: evaluating when condition: %w", name, err)
+	}
+
+	if !result.ShouldRun {
+		log.Debug("Skipping task", "task", name, "reason", "when condition", "detail", result.Reason)
+		return true, nil
+	}
+
+	return false, nil
+}
+
 func (r *Runner) shouldSkipRunItem(item babfile.RunItem, taskVars map[string]string, taskName string, index int) (bool, error) {
 	whenCond := item.GetWhen()
 	if whenCond == "" {
-- 
2.43.0


From e5aa04801d90667415481d3d49624efa77169edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 13/31] fix: platforms and when of the items of a parallel
 block are respected

---
 internal/runner/parallel.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/internal/runner/parallel.go b/internal/runner/parallel.go
index c1d598e..157bb12 100644
--- a/internal/runner/parallel.go
+++ b/internal/runner/parallel.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"runtime"
 	"strconv"
 	"strings"
 	"sync"
@@ -76,14 +77,28 @@ func (s *syncState) finish(ts *taskState, err error) {
 }
 
 func (r *Runner) executeParallel(ctx context.Context, pr babfile.ParallelRun, task *babfile.Task, tasks babfile.TaskMap, state *syncState, taskVars map[string]string, taskEnv map[string]string, overrideSilent, overrideOutput *bool, stdout, stderr io.Writer, parentNoColor bool, pctx *ParallelContext) error {
-	labels := make([]string, len(pr.Items))
+	items := make([]babfile.RunItem, 0, len(pr.Items))
+	labels := make([]string, 0, len(pr.Items))
 	maxLabelLen := 0
-	for i := range pr.Items {
-		labels[i] = pr.ItemLabel(i)
-		if len(labels[i]) > maxLabelLen {
-			maxLabelLen = len(labels[i])
+	for i, item := range pr.Items {
+		if !item.ShouldRunOnPlatform(runtime.GOOS) {
+			log.Debug("Skipping parallel item", "task", task.Name, "index", i+1, "reason", "platform")
+			continue
 		}
+		if shouldSkip, err := r.shouldSkipRunItem(item, taskVars, task.Name, i+1); err != nil {
+			return err
+		} else if shouldSkip {
+			continue
+		}
+
+		items = append(items, item)
+		labels = append(labels, pr.ItemLabel(i))
+		maxLabelLen = max(maxLabelLen, len(pr.ItemLabel(i)))
+	}
+	if len(items) == 0 {
+		return nil
 	}
+	pr.Items = items
 
 	noColor := parentNoColor || !pr.UseColor()
 
-- 
2.43.0


From d58fcc17e2c9be0b0f3834430bfa160ee13fda2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 14/31] fix: variables of an included file are resolved in that
 file's scope and seen by its tasks' conditions

---
 internal/babfile/task.go   | 10 ++++++++++
 internal/parser/include.go |  1 +
 internal/runner/runner.go  | 21 +++++++++++++++++++--
 3 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/internal/babfile/task.go b/internal/babfile/task.go
index 2bcc22a..299e9fc 100644
--- a/internal/babfile/task.go
+++ b/internal/babfile/task.go
@@ -15,6 +15,7 @@ type Task struct {
 	Desc       string            `json:"desc,omitempty" yaml:"desc,omitempty"`
 	Alias      string            `json:"alias,omitempty" yaml:"alias,omitempty"`
 	Aliases    []string          `json:"aliases,omitempty" yaml:"aliases,omitempty"`
+	VarScopes  []VarMap          `json:"-" yaml:"-"`
 	Vars       VarMap            `json:"vars,omitempty" yaml:"vars,omitempty"`
 	Env        map[string]string `json:"env,omitempty" yaml:"env,omitempty"`
 	Silent     *bool             `json:"silent,omitempty" yaml:"silent,omitempty"`
@@ -36,6 +37,15 @@ func (t *Task) GetAllAliases() []string {
 	return append(aliases, t.Aliases...)
 }
 
+// GetVarScopes returns the variables of the included files the task stands in, outermost
+// first, followed by the task's own: each can refer to those before it.
+func (t *Task) GetVarScopes() []VarMap {
+	if t.VarScopes == nil {
+		return []VarMap{t.Vars}
+	}
+	return t.VarScopes
+}
+
 type TaskMap map[string]*Task
 
 func (tm TaskMap) Has(name string) bool {
diff --git a/internal/parser/include.go b/internal/parser/include.go
index f3ddb60..ecc29ef 100644
--- a/internal/parser/include.go
+++ b/internal/parser/include.go
@@ -57,6 +57,7 @@ func resolveInclude(namespace, babfilePath, baseDir string, tasks babfile.TaskMa
 			Desc:       task.Desc,
 			Alias:      prefixAlias(task.Alias, namespace),
 			Aliases:    prefixAliases(task.Aliases, namespace),
+			VarScopes:  append([]babfile.VarMap{result.GlobalVars}, task.GetVarScopes()...),
 			Vars:       taskVars,
 			Env:        taskEnv,
 			Silent:     taskSilent,
diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index d0ec447..6559800 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -209,7 +209,7 @@ func (r *Runner) executeTask(ctx context.Context, task *babfile.Task, tasks babf
 	executed := 0
 	skippedByCondition := 0
 
-	taskVars, err := interpolate.ResolveVarsWithLocation(task.Vars, r.GlobalVars, r.BabfilePath, task.Line)
+	taskVars, err := r.resolveVars(task, task.GetVarScopes())
 	if err != nil {
 		return err
 	}
@@ -346,12 +346,29 @@ func (r *Runner) executeCommand(ctx context.Context, v babfile.CommandRun, task
 	return nil
 }
 
+func (r *Runner) resolveVars(task *babfile.Task, scopes []babfile.VarMap) (map[string]string, error) {
+	vars, err := interpolate.ResolveVarsWithLocation(nil, r.GlobalVars, r.BabfilePath, task.Line)
+	for _, scope := range scopes {
+		if err != nil {
+			return nil, err
+		}
+		vars, err = interpolate.ResolveVarsWithLocation(scope, vars, r.BabfilePath, task.Line)
+	}
+	return vars, err
+}
+
 func (r *Runner) shouldSkipTask(name string, task *babfile.Task) (bool, error) {
 	if task.When == "" {
 		return false, nil
 	}
 
-	whenCtx := interpolate.NewContextWithLocation(r.GlobalVars, r.BabfilePath, task.Line)
+	scopes := task.GetVarScopes()
+	fileVars, err := r.resolveVars(task, scopes[:len(scopes)-1])
+	if err != nil {
+		return false, err
+	}
+
+	whenCtx := interpolate.NewContextWithLocation(fileVars, r.BabfilePath, task.Line)
 	result, err := condition.Evaluate(task.When, whenCtx)
 	if err != nil {
 		return false, fmt.Errorf("task %q: evaluating when condition: %w", name, err)
-- 
2.43.0


From 9464ae5e925b32d2745d7b4230baf8eaec261ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 15/31] fix: a prompt interrupted by a cancellation reports the
 cancellation

---
 internal/tui/prompt.go | 51 +++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/internal/tui/prompt.go b/internal/tui/prompt.go
index 5fe1230..60d4ea7 100644
--- a/internal/tui/prompt.go
+++ b/internal/tui/prompt.go
@@ -81,6 +81,22 @@ func normalizeConfirmDefault(s string) string {
 	}
 }
 
+func runForm(ctx context.Context, form *huh.Form) error {
+	err := form.RunWithContext(ctx)
+	switch {
+	case ctx.Err() != nil:
+		return ctx.Err()
+	case errors.Is(err, huh.ErrUserAborted):
+		return ErrPromptCancelled
+	case err != nil:
+		return err
+	case form.State != huh.StateCompleted:
+		// The form was left without being submitted, as on SIGTERM.
+		return ErrPromptCancelled
+	}
+	return nil
+}
+
 func runConfirm(ctx context.Context, p babfile.PromptRun, message string) (string, error) {
 	var result bool
 
@@ -93,10 +109,7 @@ func runConfirm(ctx context.Context, p babfile.PromptRun, message string) (strin
 		Value(&result)
 
 	form := huh.NewForm(huh.NewGroup(confirm))
-	if err := form.RunWithContext(ctx); err != nil {
-		if errors.Is(err, huh.ErrUserAborted) {
-			return "", ErrPromptCancelled
-		}
+	if err := runForm(ctx, form); err != nil {
 		return "", err
 	}
 
@@ -128,10 +141,7 @@ func runInput(ctx context.Context, p babfile.PromptRun, message string) (string,
 	}
 
 	form := huh.NewForm(huh.NewGroup(input))
-	if err := form.RunWithContext(ctx); err != nil {
-		if errors.Is(err, huh.ErrUserAborted) {
-			return "", ErrPromptCancelled
-		}
+	if err := runForm(ctx, form); err != nil {
 		return "", err
 	}
 
@@ -155,10 +165,7 @@ func runSelect(ctx context.Context, p babfile.PromptRun, message string) (string
 		Value(&result)
 
 	form := huh.NewForm(huh.NewGroup(sel))
-	if err := form.RunWithContext(ctx); err != nil {
-		if errors.Is(err, huh.ErrUserAborted) {
-			return "", ErrPromptCancelled
-		}
+	if err := runForm(ctx, form); err != nil {
 		return "", err
 	}
 
@@ -195,10 +202,7 @@ func runMultiselect(ctx context.Context, p babfile.PromptRun, message string) (s
 	}
 
 	form := huh.NewForm(huh.NewGroup(multi))
-	if err := form.RunWithContext(ctx); err != nil {
-		if errors.Is(err, huh.ErrUserAborted) {
-			return "", ErrPromptCancelled
-		}
+	if err := runForm(ctx, form); err != nil {
 		return "", err
 	}
 
@@ -214,10 +218,7 @@ func runPassword(ctx context.Context, p babfile.PromptRun, message string) (stri
 		Value(&result)
 
 	form := huh.NewForm(huh.NewGroup(pw))
-	if err := form.RunWithContext(ctx); err != nil {
-		if errors.Is(err, huh.ErrUserAborted) {
-			return "", ErrPromptCancelled
-		}
+	if err := runForm(ctx, form); err != nil {
 		return "", err
 	}
 
@@ -235,10 +236,7 @@ func runPassword(ctx context.Context, p babfile.PromptRun, message string) (stri
 			})
 
 		confirmForm := huh.NewForm(huh.NewGroup(confirmPw))
-		if err := confirmForm.RunWithContext(ctx); err != nil {
-			if errors.Is(err, huh.ErrUserAborted) {
-				return "", ErrPromptCancelled
-			}
+		if err := runForm(ctx, confirmForm); err != nil {
 			return "", err
 		}
 	}
@@ -280,10 +278,7 @@ func runNumber(ctx context.Context, p babfile.PromptRun, message string) (string
 	}
 
 	form := huh.NewForm(huh.NewGroup(input))
-	if err := form.RunWithContext(ctx); err != nil {
-		if errors.Is(err, huh.ErrUserAborted) {
-			return "", ErrPromptCancelled
-		}
+	if err := runForm(ctx, form); err != nil {
 		return "", err
 	}
 
-- 
2.43.0


From 86605d4a7e729c2ec0071f3ca764754507af1d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 16/31] fix: YAML aliases and merge keys are resolved

---
 internal/parser/resolve.go   | 86 ++++++++++++++++++++++++++++++++++++
 internal/parser/unmarshal.go | 10 +++--
 2 files changed, 93 insertions(+), 3 deletions(-)
 create mode 100644 internal/parser/resolve.go

diff --git a/internal/parser/resolve.go b/internal/parser/resolve.go
new file mode 100644
index 0000000..78a34cd
--- /dev/null
+++ b/internal/parser/resolve.go
@@ -0,0 +1,86 @@
+package parser
+
+import (
+	"fmt"
+
+	"github.com/bab-sh/bab/internal/errs"
+	"gopkg.in/yaml.v3"
+)
+
+const mergeTag = "!!merge"
+
+// resolver replaces YAML aliases by what they refer to, and merge keys ("<<") by the entries
+// they add.
+type resolver struct {
+	path  string
+	nodes map[*yaml.Node]*yaml.Node
+	verrs *errs.ValidationErrors
+}
+
+func (r *resolver) resolve(node *yaml.Node) *yaml.Node {
+	line, name := node.Line, node.Value
+	if node.Kind == yaml.AliasNode {
+		node = node.Alias
+	}
+	if len(node.Content) == 0 {
+		return node
+	}
+
+	resolved, started := r.nodes[node]
+	if started && resolved == nil {
+		r.verrs.Add(&errs.ParseError{Path: r.path, Line: line, Message: fmt.Sprintf("anchor %q contains itself", name)})
+		return &yaml.Node{Kind: yaml.ScalarNode, Line: line}
+	}
+	if started {
+		return resolved
+	}
+	r.nodes[node] = nil
+
+	copied := *node
+	copied.Content = make([]*yaml.Node, len(node.Content))
+	for i, child := range node.Content {
+		copied.Content[i] = r.resolve(child)
+	}
+	if node.Kind == yaml.MappingNode {
+		copied.Content = r.mergeMapping(&copied)
+	}
+	r.nodes[node] = &copied
+	return &copied
+}
+
+// mergeMapping returns the entries of the mapping followed by those its merge keys add. An
+// entry of the mapping takes precedence over a merged one, as does an earlier merged one.
+func (r *resolver) mergeMapping(node *yaml.Node) []*yaml.Node {
+	var content, merged []*yaml.Node
+	for i := 0; i < len(node.Content); i += 2 {
+		key, val := node.Content[i], node.Content[i+1]
+		if key.ShortTag() != mergeTag {
+			content = append(content, key, val)
+			continue
+		}
+
+		sources := []*yaml.Node{val}
+		if val.Kind == yaml.SequenceNode {
+			sources = val.Content
+		}
+		for _, source := range sources {
+			if source.Kind != yaml.MappingNode {
+				r.verrs.Add(&errs.ParseError{Path: r.path, Line: key.Line, Message: "map merge requires a mapping or a sequence of mappings as the value"})
+				return content
+			}
+			merged = append(merged, source.Content...)
+		}
+	}
+
+	seen := make(map[string]bool, len(content)/2)
+	for i := 0; i < len(content); i += 2 {
+		seen[content[i].Value] = true
+	}
+	for i := 0; i < len(merged); i += 2 {
+		if !seen[merged[i].Value] {
+			seen[merged[i].Value] = true
+			content = append(content, merged[i], merged[i+1])
+		}
+	}
+	return content
+}
diff --git a/internal/parser/unmarshal.go b/internal/parser/unmarshal.go
index 5720a8b..24ac8cf 100644
--- a/internal/parser/unmarshal.go
+++ b/internal/parser/unmarshal.go
@@ -147,7 +147,13 @@ func unmarshalBabfile(path string, data []byte) (*babfile.Schema, error) {
 		return nil, &errs.ParseError{Path: path, Message: "invalid document"}
 	}
 
-	doc := root.Content[0]
+	verrs := &errs.ValidationErrors{}
+
+	r := &resolver{path: path, nodes: make(map[*yaml.Node]*yaml.Node), verrs: verrs}
+	doc := r.resolve(root.Content[0])
+	if verrs.HasErrors() {
+		return nil, verrs
+	}
 	if doc.Kind != yaml.MappingNode {
 		return nil, &errs.ParseError{Path: path, Line: doc.Line, Message: "expected mapping at root"}
 	}
@@ -159,8 +165,6 @@ func unmarshalBabfile(path string, data []byte) (*babfile.Schema, error) {
 		Includes: make(map[string]babfile.Include),
 	}
 
-	verrs := &errs.ValidationErrors{}
-
 	for i := 0; i < len(doc.Content); i += 2 {
 		key := doc.Content[i]
 		val := doc.Content[i+1]
-- 
2.43.0


From 1e2a21d48bb27e1071f9020398f422e96ae2db1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 17/31] fix: a setting given twice is an error

---
 internal/parser/resolve.go   | 41 +++++++++++++++++++++++++++++++++---
 internal/parser/unmarshal.go |  6 +-----
 2 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/internal/parser/resolve.go b/internal/parser/resolve.go
index 78a34cd..70c957e 100644
--- a/internal/parser/resolve.go
+++ b/internal/parser/resolve.go
@@ -13,15 +13,33 @@ const mergeTag = "!!merge"
 // they add.
 type resolver struct {
 	path  string
+	tasks *yaml.Node // whose duplicates are reported when the tasks are parsed
 	nodes map[*yaml.Node]*yaml.Node
 	verrs *errs.ValidationErrors
 }
 
-func (r *resolver) resolve(node *yaml.Node) *yaml.Node {
-	line, name := node.Line, node.Value
+func newResolver(path string, doc *yaml.Node, verrs *errs.ValidationErrors) *resolver {
+	r := &resolver{path: path, nodes: make(map[*yaml.Node]*yaml.Node), verrs: verrs}
+	if doc.Kind == yaml.MappingNode {
+		for i := 0; i < len(doc.Content); i += 2 {
+			if doc.Content[i].Value == keyTasks {
+				r.tasks = dealias(doc.Content[i+1])
+			}
+		}
+	}
+	return r
+}
+
+func dealias(node *yaml.Node) *yaml.Node {
 	if node.Kind == yaml.AliasNode {
-		node = node.Alias
+		return node.Alias
 	}
+	return node
+}
+
+func (r *resolver) resolve(node *yaml.Node) *yaml.Node {
+	line, name := node.Line, node.Value
+	node = dealias(node)
 	if len(node.Content) == 0 {
 		return node
 	}
@@ -42,12 +60,29 @@ func (r *resolver) resolve(node *yaml.Node) *yaml.Node {
 		copied.Content[i] = r.resolve(child)
 	}
 	if node.Kind == yaml.MappingNode {
+		r.checkKeys(&copied, node != r.tasks)
 		copied.Content = r.mergeMapping(&copied)
 	}
 	r.nodes[node] = &copied
 	return &copied
 }
 
+func (r *resolver) checkKeys(node *yaml.Node, unique bool) {
+	lines := make(map[string]int, len(node.Content)/2)
+	for i := 0; i < len(node.Content); i += 2 {
+		key := node.Content[i]
+		if key.Kind != yaml.ScalarNode {
+			r.verrs.Add(&errs.ParseError{Path: r.path, Line: key.Line, Message: "keys must be strings"})
+			continue
+		}
+		if line, exists := lines[key.Value]; exists && unique {
+			r.verrs.Add(&errs.ParseError{Path: r.path, Line: key.Line, Message: fmt.Sprintf("key %q is already set at line %d", key.Value, line)})
+			continue
+		}
+		lines[key.Value] = key.Line
+	}
+}
+
 // mergeMapping returns the entries of the mapping followed by those its merge keys add. An
 // entry of the mapping takes precedence over a merged one, as does an earlier merged one.
 func (r *resolver) mergeMapping(node *yaml.Node) []*yaml.Node {
diff --git a/internal/parser/unmarshal.go b/internal/parser/unmarshal.go
index 24ac8cf..efdff11 100644
--- a/internal/parser/unmarshal.go
+++ b/internal/parser/unmarshal.go
@@ -149,11 +149,7 @@ func unmarshalBabfile(path string, data []byte) (*babfile.Schema, error) {
 
 	verrs := &errs.ValidationErrors{}
 
-	r := &resolver{path: path, nodes: make(map[*yaml.Node]*yaml.Node), verrs: verrs}
-	doc := r.resolve(root.Content[0])
-	if verrs.HasErrors() {
-		return nil, verrs
-	}
+	doc := newResolver(path, root.Content[0], verrs).resolve(root.Content[0])
 	if doc.Kind != yaml.MappingNode {
 		return nil, &errs.ParseError{Path: path, Line: doc.Line, Message: "expected mapping at root"}
 	}
-- 
2.43.0


From f9cb1800ac0a0d2e370ad2cdcd72e1c16fdd902b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 18/31] fix: a list or mapping where a string belongs is an
 error

---
 internal/parser/unmarshal.go | 62 +++++++++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 15 deletions(-)

diff --git a/internal/parser/unmarshal.go b/internal/parser/unmarshal.go
index efdff11..f0a0220 100644
--- a/internal/parser/unmarshal.go
+++ b/internal/parser/unmarshal.go
@@ -121,6 +121,16 @@ func parseVarMap(path string, node *yaml.Node, vars *babfile.VarMap, verrs *errs
 	return !hasErrors
 }
 
+func parseString(path string, node *yaml.Node, what string, target *string, verrs *errs.ValidationErrors) bool {
+	if node.Kind != yaml.ScalarNode {
+		verrs.Add(&errs.ParseError{Path: path, Line: node.Line, Message: what + " must be a string"})
+		return false
+	}
+
+	*target = node.Value
+	return true
+}
+
 func parseBool(path string, node *yaml.Node, target **bool, verrs *errs.ValidationErrors) bool {
 	if node.Kind != yaml.ScalarNode {
 		verrs.Add(&errs.ParseError{Path: path, Line: node.Line, Message: "expected boolean value"})
@@ -242,9 +252,13 @@ func parseTask(path string, node *yaml.Node, taskName string, verrs *errs.Valida
 
 		switch key.Value {
 		case keyDesc:
-			task.Desc = val.Value
+			if !parseString(path, val, fmt.Sprintf("task %q: desc", taskName), &task.Desc, verrs) {
+				hasErrors = true
+			}
 		case keyAlias:
-			task.Alias = val.Value
+			if !parseString(path, val, fmt.Sprintf("task %q: alias", taskName), &task.Alias, verrs) {
+				hasErrors = true
+			}
 		case keyAliases:
 			if err := val.Decode(&task.Aliases); err != nil {
 				verrs.Add(&errs.ParseError{Path: path, Line: key.Line, Message: fmt.Sprintf("task %q: invalid aliases", taskName), Cause: err})
@@ -274,7 +288,9 @@ func parseTask(path string, node *yaml.Node, taskName string, verrs *errs.Valida
 				task.Dir = val.Value
 			}
 		case keyWhen:
-			task.When = val.Value
+			if !parseString(path, val, fmt.Sprintf("task %q: when", taskName), &task.When, verrs) {
+				hasErrors = true
+			}
 		case keyDeps:
 			task.DepsLine = key.Line
 			if err := val.Decode(&task.Deps); err != nil {
@@ -317,17 +333,17 @@ func parseRunItems(path string, node *yaml.Node, taskName string, verrs *errs.Va
 func parsePromptKey(key, val *yaml.Node, pf *promptFields, path, taskName string, index int, verrs *errs.ValidationErrors) bool {
 	switch key.Value {
 	case keyPrompt:
-		pf.name = val.Value
+		return parseString(path, val, fmt.Sprintf("task %q: run[%d]: prompt", taskName, index), &pf.name, verrs)
 	case keyType:
-		pf.promptType = val.Value
+		return parseString(path, val, fmt.Sprintf("task %q: run[%d]: type", taskName, index), &pf.promptType, verrs)
 	case keyMessage:
-		pf.message = val.Value
+		return parseString(path, val, fmt.Sprintf("task %q: run[%d]: message", taskName, index), &pf.message, verrs)
 	case keyDefault:
-		pf.dflt = val.Value
+		return parseString(path, val, fmt.Sprintf("task %q: run[%d]: default", taskName, index), &pf.dflt, verrs)
 	case keyPlaceholder:
-		pf.placeholder = val.Value
+		return parseString(path, val, fmt.Sprintf("task %q: run[%d]: placeholder", taskName, index), &pf.placeholder, verrs)
 	case keyValidate:
-		pf.validate = val.Value
+		return parseString(path, val, fmt.Sprintf("task %q: run[%d]: validate", taskName, index), &pf.validate, verrs)
 	case keyOptions:
 		if err := val.Decode(&pf.options); err != nil {
 			verrs.Add(&errs.ParseError{Path: path, Line: key.Line, Message: fmt.Sprintf("task %q: run[%d]: invalid options", taskName, index), Cause: err})
@@ -435,7 +451,9 @@ func parseRunFields(path string, node *yaml.Node, taskName string, index int, ve
 
 		switch key.Value {
 		case keyCmd:
-			rf.cmd = val.Value
+			if !parseString(path, val, fmt.Sprintf("task %q: run[%d]: cmd", taskName, index), &rf.cmd, verrs) {
+				rf.hasErrors = true
+			}
 		case keyDir:
 			if val.Kind != yaml.ScalarNode {
 				verrs.Add(&errs.ParseError{Path: path, Line: val.Line, Message: fmt.Sprintf("task %q: run[%d]: dir must be a string", taskName, index)})
@@ -444,13 +462,23 @@ func parseRunFields(path string, node *yaml.Node, taskName string, index int, ve
 				rf.dir = val.Value
 			}
 		case keyWhen:
-			rf.when = val.Value
+			if !parseString(path, val, fmt.Sprintf("task %q: run[%d]: when", taskName, index), &rf.when, verrs) {
+				rf.hasErrors = true
+			}
 		case keyTask:
-			rf.task = val.Value
+			if !parseString(path, val, fmt.Sprintf("task %q: run[%d]: task", taskName, index), &rf.task, verrs) {
+				rf.hasErrors = true
+			}
 		case keyLog:
-			rf.log = val.Value
+			if !parseString(path, val, fmt.Sprintf("task %q: run[%d]: log", taskName, index), &rf.log, verrs) {
+				rf.hasErrors = true
+			}
 		case keyLevel:
-			rf.level = babfile.LogLevel(val.Value)
+			var level string
+			if !parseString(path, val, fmt.Sprintf("task %q: run[%d]: level", taskName, index), &level, verrs) {
+				rf.hasErrors = true
+			}
+			rf.level = babfile.LogLevel(level)
 		case keyEnv:
 			if !parseEnvMap(path, val, &rf.env, verrs) {
 				rf.hasErrors = true
@@ -470,6 +498,10 @@ func parseRunFields(path string, node *yaml.Node, taskName string, index int, ve
 				rf.hasErrors = true
 			}
 		case keyLabel:
+			var label string
+			if !parseString(path, val, fmt.Sprintf("task %q: run[%d]: label", taskName, index), &label, verrs) {
+				rf.hasErrors = true
+			}
 		default:
 			if !parsePromptKey(key, val, &rf.pf, path, taskName, index, verrs) {
 				rf.hasErrors = true
@@ -531,7 +563,7 @@ func parseParallelKey(key, val *yaml.Node, pf *parallelFields, path, prefix stri
 		pf.platforms, ok = parsePlatforms(path, key.Line, prefix, val, verrs)
 		return ok
 	case keyWhen:
-		pf.when = val.Value
+		return parseString(path, val, prefix+": when", &pf.when, verrs)
 	default:
 		verrs.Add(&errs.ParseError{Path: path, Line: key.Line, Message: fmt.Sprintf("%s: unknown key %q in parallel block", prefix, key.Value)})
 		return false
-- 
2.43.0


From 6ef00f973b67e61be98a8eed36f6ce9a53a2f559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 19/31] fix: errors about tasks of an included file name that
 file

---
 internal/babfile/task.go    | 13 ++++++++++---
 internal/parser/include.go  |  2 +-
 internal/parser/parser.go   |  2 +-
 internal/parser/validate.go | 36 +++++++++++++++++-----------------
 internal/runner/parallel.go |  4 ++--
 internal/runner/runner.go   | 39 +++++++++++++++++++++++--------------
 6 files changed, 56 insertions(+), 40 deletions(-)

diff --git a/internal/babfile/task.go b/internal/babfile/task.go
index 299e9fc..5d9a727 100644
--- a/internal/babfile/task.go
+++ b/internal/babfile/task.go
@@ -15,7 +15,7 @@ type Task struct {
 	Desc       string            `json:"desc,omitempty" yaml:"desc,omitempty"`
 	Alias      string            `json:"alias,omitempty" yaml:"alias,omitempty"`
 	Aliases    []string          `json:"aliases,omitempty" yaml:"aliases,omitempty"`
-	VarScopes  []VarMap          `json:"-" yaml:"-"`
+	VarScopes  []VarScope        `json:"-" yaml:"-"`
 	Vars       VarMap            `json:"vars,omitempty" yaml:"vars,omitempty"`
 	Env        map[string]string `json:"env,omitempty" yaml:"env,omitempty"`
 	Silent     *bool             `json:"silent,omitempty" yaml:"silent,omitempty"`
@@ -37,11 +37,18 @@ func (t *Task) GetAllAliases() []string {
 	return append(aliases, t.Aliases...)
 }
 
+// VarScope is a set of variables and where they are written.
+type VarScope struct {
+	Path string
+	Line int
+	Vars VarMap
+}
+
 // GetVarScopes returns the variables of the included files the task stands in, outermost
 // first, followed by the task's own: each can refer to those before it.
-func (t *Task) GetVarScopes() []VarMap {
+func (t *Task) GetVarScopes() []VarScope {
 	if t.VarScopes == nil {
-		return []VarMap{t.Vars}
+		return []VarScope{{Path: t.SourcePath, Line: t.Line, Vars: t.Vars}}
 	}
 	return t.VarScopes
 }
diff --git a/internal/parser/include.go b/internal/parser/include.go
index ecc29ef..0b04a9b 100644
--- a/internal/parser/include.go
+++ b/internal/parser/include.go
@@ -57,7 +57,7 @@ func resolveInclude(namespace, babfilePath, baseDir string, tasks babfile.TaskMa
 			Desc:       task.Desc,
 			Alias:      prefixAlias(task.Alias, namespace),
 			Aliases:    prefixAliases(task.Aliases, namespace),
-			VarScopes:  append([]babfile.VarMap{result.GlobalVars}, task.GetVarScopes()...),
+			VarScopes:  append([]babfile.VarScope{{Path: result.Path, Vars: result.GlobalVars}}, task.GetVarScopes()...),
 			Vars:       taskVars,
 			Env:        taskEnv,
 			Silent:     taskSilent,
diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index d8355de..80ef803 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -39,7 +39,7 @@ func Parse(path string) (*ParseResult, error) {
 		return nil, err
 	}
 
-	if err := validateAll(absPath, result.Tasks); err != nil {
+	if err := validateAll(result.Tasks); err != nil {
 		return nil, err
 	}
 
diff --git a/internal/parser/validate.go b/internal/parser/validate.go
index 0076478..3b8336a 100644
--- a/internal/parser/validate.go
+++ b/internal/parser/validate.go
@@ -5,16 +5,16 @@ import (
 	"github.com/bab-sh/bab/internal/errs"
 )
 
-func validateAll(path string, tasks babfile.TaskMap) error {
+func validateAll(tasks babfile.TaskMap) error {
 	verrs := &errs.ValidationErrors{}
-	validateDependencies(path, tasks, verrs)
-	validateRunTaskRefs(path, tasks, verrs)
-	validateRunCycles(path, tasks, verrs)
-	validateAliases(path, tasks, verrs)
+	validateDependencies(tasks, verrs)
+	validateRunTaskRefs(tasks, verrs)
+	validateRunCycles(tasks, verrs)
+	validateAliases(tasks, verrs)
 	return verrs.OrNil()
 }
 
-func validateAliases(path string, tasks babfile.TaskMap, verrs *errs.ValidationErrors) {
+func validateAliases(tasks babfile.TaskMap, verrs *errs.ValidationErrors) {
 	type aliasInfo struct {
 		taskName string
 		line     int
@@ -29,7 +29,7 @@ func validateAliases(path string, tasks babfile.TaskMap, verrs *errs.ValidationE
 
 			if tasks.Has(alias) {
 				verrs.Add(&errs.AliasConflictError{
-					Path:     path,
+					Path:     task.SourcePath,
 					Line:     task.Line,
 					Alias:    alias,
 					TaskName: name,
@@ -39,7 +39,7 @@ func validateAliases(path string, tasks babfile.TaskMap, verrs *errs.ValidationE
 
 			if existing, exists := aliasToTask[alias]; exists {
 				verrs.Add(&errs.DuplicateAliasError{
-					Path:         path,
+					Path:         task.SourcePath,
 					Line:         task.Line,
 					Alias:        alias,
 					TaskName:     name,
@@ -54,7 +54,7 @@ func validateAliases(path string, tasks babfile.TaskMap, verrs *errs.ValidationE
 	}
 }
 
-func validateDependencies(path string, tasks babfile.TaskMap, verrs *errs.ValidationErrors) {
+func validateDependencies(tasks babfile.TaskMap, verrs *errs.ValidationErrors) {
 	for name, task := range tasks {
 		for _, dep := range task.Deps {
 			if !tasks.Has(dep) {
@@ -63,7 +63,7 @@ func validateDependencies(path string, tasks babfile.TaskMap, verrs *errs.Valida
 					line = task.Line
 				}
 				verrs.Add(&errs.TaskNotFoundError{
-					Path:         path,
+					Path:         task.SourcePath,
 					Line:         line,
 					TaskName:     dep,
 					ReferencedBy: name,
@@ -74,9 +74,9 @@ func validateDependencies(path string, tasks babfile.TaskMap, verrs *errs.Valida
 	}
 }
 
-func validateRunTaskRefs(path string, tasks babfile.TaskMap, verrs *errs.ValidationErrors) {
+func validateRunTaskRefs(tasks babfile.TaskMap, verrs *errs.ValidationErrors) {
 	for name, task := range tasks {
-		validateRunItemTaskRefs(path, name, task.Run, tasks, verrs)
+		validateRunItemTaskRefs(task.SourcePath, name, task.Run, tasks, verrs)
 	}
 }
 
@@ -99,14 +99,14 @@ func validateRunItemTaskRefs(path, referencedBy string, items []babfile.RunItem,
 	}
 }
 
-func validateRunCycles(path string, tasks babfile.TaskMap, verrs *errs.ValidationErrors) {
+func validateRunCycles(tasks babfile.TaskMap, verrs *errs.ValidationErrors) {
 	visited := make(map[string]bool)
 	recStack := make(map[string]bool)
 
 	var dfs func(name string, chain []string)
-	var checkItems func(items []babfile.RunItem, chain []string)
+	var checkItems func(path string, items []babfile.RunItem, chain []string)
 
-	checkItems = func(items []babfile.RunItem, chain []string) {
+	checkItems = func(path string, items []babfile.RunItem, chain []string) {
 		for _, item := range items {
 			switch v := item.(type) {
 			case babfile.TaskRun:
@@ -123,7 +123,7 @@ func validateRunCycles(path string, tasks babfile.TaskMap, verrs *errs.Validatio
 					dfs(v.Task, chain)
 				}
 			case babfile.ParallelRun:
-				checkItems(v.Items, chain)
+				checkItems(path, v.Items, chain)
 			}
 		}
 	}
@@ -143,7 +143,7 @@ func validateRunCycles(path string, tasks babfile.TaskMap, verrs *errs.Validatio
 			if recStack[dep] {
 				chain = append(chain, dep)
 				verrs.Add(&errs.CircularDepError{
-					Path:  path,
+					Path:  task.SourcePath,
 					Type:  "dependency",
 					Chain: chain,
 				})
@@ -154,7 +154,7 @@ func validateRunCycles(path string, tasks babfile.TaskMap, verrs *errs.Validatio
 			}
 		}
 
-		checkItems(task.Run, chain)
+		checkItems(task.SourcePath, task.Run, chain)
 		recStack[name] = false
 	}
 
diff --git a/internal/runner/parallel.go b/internal/runner/parallel.go
index 157bb12..5635ae6 100644
--- a/internal/runner/parallel.go
+++ b/internal/runner/parallel.go
@@ -85,7 +85,7 @@ func (r *Runner) executeParallel(ctx context.Context, pr babfile.ParallelRun, ta
 			log.Debug("Skipping parallel item", "task", task.Name, "index", i+1, "reason", "platform")
 			continue
 		}
-		if shouldSkip, err := r.shouldSkipRunItem(item, taskVars, task.Name, i+1); err != nil {
+		if shouldSkip, err := r.shouldSkipRunItem(item, taskVars, task, i+1); err != nil {
 			return err
 		} else if shouldSkip {
 			continue
@@ -338,7 +338,7 @@ func (r *Runner) executeRunItem(ctx context.Context, item babfile.RunItem, task
 		return r.runTask(ctx, v.Task, tasks, state, false, effSilent, effOutput, stdout, stderr, noColor, pctx)
 
 	case babfile.LogRun:
-		logCtx := interpolate.NewContextWithLocation(taskVars, r.BabfilePath, v.Line)
+		logCtx := interpolate.NewContextWithLocation(taskVars, r.pathOf(task.SourcePath), v.Line)
 		interpolatedLog, err := interpolate.Interpolate(v.Log, logCtx)
 		if err != nil {
 			return err
diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index 6559800..dea6807 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -209,12 +209,12 @@ func (r *Runner) executeTask(ctx context.Context, task *babfile.Task, tasks babf
 	executed := 0
 	skippedByCondition := 0
 
-	taskVars, err := r.resolveVars(task, task.GetVarScopes())
+	taskVars, err := r.resolveVars(task.GetVarScopes())
 	if err != nil {
 		return err
 	}
 
-	taskCtx := interpolate.NewContextWithLocation(taskVars, r.BabfilePath, task.Line)
+	taskCtx := interpolate.NewContextWithLocation(taskVars, r.pathOf(task.SourcePath), task.Line)
 
 	taskEnv, err := r.interpolateEnv(babfile.MergeEnvMaps(r.GlobalEnv, task.Env), taskCtx)
 	if err != nil {
@@ -235,7 +235,7 @@ func (r *Runner) executeTask(ctx context.Context, task *babfile.Task, tasks babf
 			continue
 		}
 
-		if shouldSkip, err := r.shouldSkipRunItem(item, taskVars, task.Name, i+1); err != nil {
+		if shouldSkip, err := r.shouldSkipRunItem(item, taskVars, task, i+1); err != nil {
 			return err
 		} else if shouldSkip {
 			skippedByCondition++
@@ -244,7 +244,7 @@ func (r *Runner) executeTask(ctx context.Context, task *babfile.Task, tasks babf
 
 		switch v := item.(type) {
 		case babfile.PromptRun:
-			promptCtx := interpolate.NewContextWithLocation(taskVars, r.BabfilePath, v.Line)
+			promptCtx := interpolate.NewContextWithLocation(taskVars, r.pathOf(task.SourcePath), v.Line)
 
 			interpolated, err := interpolatePrompt(v, promptCtx)
 			if err != nil {
@@ -300,7 +300,7 @@ func (r *Runner) executeCommand(ctx context.Context, v babfile.CommandRun, task
 		return fmt.Errorf("task %q has an empty command", task.Name)
 	}
 
-	cmdCtx := interpolate.NewContextWithLocation(taskVars, r.BabfilePath, v.Line)
+	cmdCtx := interpolate.NewContextWithLocation(taskVars, r.pathOf(task.SourcePath), v.Line)
 	interpolatedCmd, err := interpolate.Interpolate(v.Cmd, cmdCtx)
 	if err != nil {
 		return err
@@ -346,15 +346,24 @@ func (r *Runner) executeCommand(ctx context.Context, v babfile.CommandRun, task
 	return nil
 }
 
-func (r *Runner) resolveVars(task *babfile.Task, scopes []babfile.VarMap) (map[string]string, error) {
-	vars, err := interpolate.ResolveVarsWithLocation(nil, r.GlobalVars, r.BabfilePath, task.Line)
+func (r *Runner) resolveVars(scopes []babfile.VarScope) (map[string]string, error) {
+	vars := babfile.MergeVarMaps(r.GlobalVars)
 	for _, scope := range scopes {
+		resolved, err := interpolate.ResolveVarsWithLocation(scope.Vars, vars, r.pathOf(scope.Path), scope.Line)
 		if err != nil {
 			return nil, err
 		}
-		vars, err = interpolate.ResolveVarsWithLocation(scope, vars, r.BabfilePath, task.Line)
+		vars = resolved
 	}
-	return vars, err
+	return vars, nil
+}
+
+// pathOf returns the file a task or scope is from, which is the root Babfile if not recorded.
+func (r *Runner) pathOf(sourcePath string) string {
+	if sourcePath != "" {
+		return sourcePath
+	}
+	return r.BabfilePath
 }
 
 func (r *Runner) shouldSkipTask(name string, task *babfile.Task) (bool, error) {
@@ -363,12 +372,12 @@ func (r *Runner) shouldSkipTask(name string, task *babfile.Task) (bool, error) {
 	}
 
 	scopes := task.GetVarScopes()
-	fileVars, err := r.resolveVars(task, scopes[:len(scopes)-1])
+	fileVars, err := r.resolveVars(scopes[:len(scopes)-1])
 	if err != nil {
 		return false, err
 	}
 
-	whenCtx := interpolate.NewContextWithLocation(fileVars, r.BabfilePath, task.Line)
+	whenCtx := interpolate.NewContextWithLocation(fileVars, r.pathOf(task.SourcePath), task.Line)
 	result, err := condition.Evaluate(task.When, whenCtx)
 	if err != nil {
 		return false, fmt.Errorf("task %q: evaluating when condition: %w", name, err)
@@ -382,20 +391,20 @@ func (r *Runner) shouldSkipTask(name string, task *babfile.Task) (bool, error) {
 	return false, nil
 }
 
-func (r *Runner) shouldSkipRunItem(item babfile.RunItem, taskVars map[string]string, taskName string, index int) (bool, error) {
+func (r *Runner) shouldSkipRunItem(item babfile.RunItem, taskVars map[string]string, task *babfile.Task, index int) (bool, error) {
 	whenCond := item.GetWhen()
 	if whenCond == "" {
 		return false, nil
 	}
 
-	itemCtx := interpolate.NewContextWithLocation(taskVars, r.BabfilePath, item.GetLine())
+	itemCtx := interpolate.NewContextWithLocation(taskVars, r.pathOf(task.SourcePath), item.GetLine())
 	result, err := condition.Evaluate(whenCond, itemCtx)
 	if err != nil {
-		return false, fmt.Errorf("task %q: run[%d]: evaluating when condition: %w", taskName, index, err)
+		return false, fmt.Errorf("task %q: run[%d]: evaluating when condition: %w", task.Name, index, err)
 	}
 
 	if !result.ShouldRun {
-		log.Debug("Skipping run item", "task", taskName, "index", index, "reason", "when condition", "detail", result.Reason)
+		log.Debug("Skipping run item", "task", task.Name, "index", index, "reason", "when condition", "detail", result.Reason)
 		return true, nil
 	}
 
-- 
2.43.0


From e7f73a4433cf1eb6e9b3a4d9c658950594891a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 20/31] fix: each cycle reported by validation is one

---
 internal/parser/validate.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/internal/parser/validate.go b/internal/parser/validate.go
index 3b8336a..b72ac66 100644
--- a/internal/parser/validate.go
+++ b/internal/parser/validate.go
@@ -1,6 +1,8 @@
 package parser
 
 import (
+	"slices"
+
 	"github.com/bab-sh/bab/internal/babfile"
 	"github.com/bab-sh/bab/internal/errs"
 )
@@ -111,13 +113,12 @@ func validateRunCycles(tasks babfile.TaskMap, verrs *errs.ValidationErrors) {
 			switch v := item.(type) {
 			case babfile.TaskRun:
 				if recStack[v.Task] {
-					chain = append(chain, v.Task)
 					verrs.Add(&errs.CircularDepError{
 						Path:  path,
 						Type:  "dependency",
-						Chain: chain,
+						Chain: append(slices.Clone(chain), v.Task),
 					})
-					return
+					continue
 				}
 				if !visited[v.Task] && tasks.Has(v.Task) {
 					dfs(v.Task, chain)
@@ -131,7 +132,7 @@ func validateRunCycles(tasks babfile.TaskMap, verrs *errs.ValidationErrors) {
 	dfs = func(name string, chain []string) {
 		visited[name] = true
 		recStack[name] = true
-		chain = append(chain, name)
+		chain = append(slices.Clone(chain), name)
 
 		task := tasks[name]
 		if task == nil {
@@ -141,13 +142,12 @@ func validateRunCycles(tasks babfile.TaskMap, verrs *errs.ValidationErrors) {
 
 		for _, dep := range task.Deps {
 			if recStack[dep] {
-				chain = append(chain, dep)
 				verrs.Add(&errs.CircularDepError{
 					Path:  task.SourcePath,
 					Type:  "dependency",
-					Chain: chain,
+					Chain: append(slices.Clone(chain), dep),
 				})
-				return
+				continue
 			}
 			if !visited[dep] && tasks.Has(dep) {
 				dfs(dep, chain)
-- 
2.43.0


From a41d48189beae48e9a332c6af97c25f506eb8f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 21/31] fix: a fraction where an integer belongs is an error

---
 internal/parser/unmarshal.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/internal/parser/unmarshal.go b/internal/parser/unmarshal.go
index f0a0220..7ef70c7 100644
--- a/internal/parser/unmarshal.go
+++ b/internal/parser/unmarshal.go
@@ -47,6 +47,8 @@ const (
 	keyLabel       = "label"
 )
 
+const floatTag = "!!float"
+
 type promptFields struct {
 	name        string
 	promptType  string
@@ -147,6 +149,14 @@ func parseBool(path string, node *yaml.Node, target **bool, verrs *errs.Validati
 	return true
 }
 
+// decodeInt rejects fractions, which decoding a number into an int cuts off.
+func decodeInt(node *yaml.Node, target *int) error {
+	if node.ShortTag() == floatTag {
+		return fmt.Errorf("%q is not an integer", node.Value)
+	}
+	return node.Decode(target)
+}
+
 func unmarshalBabfile(path string, data []byte) (*babfile.Schema, error) {
 	var root yaml.Node
 	if err := yaml.Unmarshal(data, &root); err != nil {
@@ -356,14 +366,14 @@ func parsePromptKey(key, val *yaml.Node, pf *promptFields, path, taskName string
 		}
 	case keyMin:
 		var v int
-		if err := val.Decode(&v); err != nil {
+		if err := decodeInt(val, &v); err != nil {
 			verrs.Add(&errs.ParseError{Path: path, Line: key.Line, Message: fmt.Sprintf("task %q: run[%d]: invalid min value", taskName, index), Cause: err})
 			return false
 		}
 		pf.min = &v
 	case keyMax:
 		var v int
-		if err := val.Decode(&v); err != nil {
+		if err := decodeInt(val, &v); err != nil {
 			verrs.Add(&errs.ParseError{Path: path, Line: key.Line, Message: fmt.Sprintf("task %q: run[%d]: invalid max value", taskName, index), Cause: err})
 			return false
 		}
@@ -543,7 +553,7 @@ func parseParallelKey(key, val *yaml.Node, pf *parallelFields, path, prefix stri
 		}
 	case keyLimit:
 		var v int
-		if err := val.Decode(&v); err != nil {
+		if err := decodeInt(val, &v); err != nil {
 			verrs.Add(&errs.ParseError{Path: path, Line: val.Line, Message: fmt.Sprintf("%s: invalid limit value", prefix), Cause: err})
 			return false
 		}
-- 
2.43.0


From 3294d6d2baddb13c7e426770ff37694d5fac270f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:12 +0000
Subject: [PATCH 22/31] fix: defaults of prompts satisfy what the prompt
 declares

---
 internal/tui/prompt.go | 99 +++++++++++++++++++++++++++++-------------
 1 file changed, 68 insertions(+), 31 deletions(-)

diff --git a/internal/tui/prompt.go b/internal/tui/prompt.go
index 60d4ea7..cd5af4f 100644
--- a/internal/tui/prompt.go
+++ b/internal/tui/prompt.go
@@ -56,11 +56,17 @@ func handleNonInteractive(p babfile.PromptRun) (string, error) {
 		return "", fmt.Errorf("%w: prompt %q requires 'default' for non-interactive mode", ErrNoTTY, p.Prompt)
 	case babfile.PromptTypeInput, babfile.PromptTypeSelect, babfile.PromptTypeNumber:
 		if p.Default != "" {
+			if err := validateDefault(p); err != nil {
+				return "", fmt.Errorf("%w: prompt %q: default value %q %w", ErrNoTTY, p.Prompt, p.Default, err)
+			}
 			return p.Default, nil
 		}
 		return "", fmt.Errorf("%w: prompt %q requires 'default' for non-interactive mode", ErrNoTTY, p.Prompt)
 	case babfile.PromptTypeMultiselect:
 		if len(p.Defaults) > 0 {
+			if err := validateDefault(p); err != nil {
+				return "", fmt.Errorf("%w: prompt %q: default values %q: %w", ErrNoTTY, p.Prompt, p.Defaults, err)
+			}
 			return strings.Join(p.Defaults, ","), nil
 		}
 		return "", fmt.Errorf("%w: prompt %q requires 'defaults' for non-interactive mode", ErrNoTTY, p.Prompt)
@@ -71,6 +77,61 @@ func handleNonInteractive(p babfile.PromptRun) (string, error) {
 	}
 }
 
+func validateDefault(p babfile.PromptRun) error {
+	switch p.Type {
+	case babfile.PromptTypeInput:
+		return validateInput(p, p.Default)
+	case babfile.PromptTypeSelect:
+		if !slices.Contains(p.Options, p.Default) {
+			return errors.New("must be one of the options")
+		}
+	case babfile.PromptTypeMultiselect:
+		for _, d := range p.Defaults {
+			if !slices.Contains(p.Options, d) {
+				return fmt.Errorf("%q is not one of the options", d)
+			}
+		}
+		return validateSelection(p, p.Defaults)
+	case babfile.PromptTypeNumber:
+		return validateNumber(p, p.Default)
+	}
+	return nil
+}
+
+func validateInput(p babfile.PromptRun, s string) error {
+	if p.Validate != "" && !regexp.MustCompile(p.Validate).MatchString(s) {
+		return fmt.Errorf("must match pattern: %s", p.Validate)
+	}
+	return nil
+}
+
+func validateSelection(p babfile.PromptRun, selected []string) error {
+	if p.Min != nil && len(selected) < *p.Min {
+		return fmt.Errorf("select at least %d option(s)", *p.Min)
+	}
+	if p.Max != nil && len(selected) > *p.Max {
+		return fmt.Errorf("select at most %d option(s)", *p.Max)
+	}
+	return nil
+}
+
+func validateNumber(p babfile.PromptRun, s string) error {
+	if s == "" {
+		return errors.New("a number is required")
+	}
+	n, err := strconv.Atoi(s)
+	if err != nil {
+		return errors.New("must be a number")
+	}
+	if p.Min != nil && n < *p.Min {
+		return fmt.Errorf("must be at least %d", *p.Min)
+	}
+	if p.Max != nil && n > *p.Max {
+		return fmt.Errorf("must be at most %d", *p.Max)
+	}
+	return nil
+}
+
 func normalizeConfirmDefault(s string) string {
 	lower := strings.ToLower(s)
 	switch lower {
@@ -131,13 +192,7 @@ func runInput(ctx context.Context, p babfile.PromptRun, message string) (string,
 	}
 
 	if p.Validate != "" {
-		re := regexp.MustCompile(p.Validate)
-		input.Validate(func(s string) error {
-			if !re.MatchString(s) {
-				return fmt.Errorf("must match pattern: %s", p.Validate)
-			}
-			return nil
-		})
+		input.Validate(func(s string) error { return validateInput(p, s) })
 	}
 
 	form := huh.NewForm(huh.NewGroup(input))
@@ -190,15 +245,7 @@ func runMultiselect(ctx context.Context, p babfile.PromptRun, message string) (s
 		Value(&result)
 
 	if p.Min != nil || p.Max != nil {
-		multi.Validate(func(selected []string) error {
-			if p.Min != nil && len(selected) < *p.Min {
-				return fmt.Errorf("select at least %d option(s)", *p.Min)
-			}
-			if p.Max != nil && len(selected) > *p.Max {
-				return fmt.Errorf("select at most %d option(s)", *p.Max)
-			}
-			return nil
-		})
+		multi.Validate(func(selected []string) error { return validateSelection(p, selected) })
 	}
 
 	form := huh.NewForm(huh.NewGroup(multi))
@@ -255,22 +302,9 @@ func runNumber(ctx context.Context, p babfile.PromptRun, message string) (string
 		Value(&result).
 		Validate(func(s string) error {
 			if s == "" {
-				if p.Default != "" {
-					return nil
-				}
-				return errors.New("a number is required")
+				s = p.Default
 			}
-			n, err := strconv.Atoi(s)
-			if err != nil {
-				return errors.New("must be a number")
-			}
-			if p.Min != nil && n < *p.Min {
-				return fmt.Errorf("must be at least %d", *p.Min)
-			}
-			if p.Max != nil && n > *p.Max {
-				return fmt.Errorf("must be at most %d", *p.Max)
-			}
-			return nil
+			return validateNumber(p, s)
 		})
 
 	if p.Placeholder != "" {
@@ -282,5 +316,8 @@ func runNumber(ctx context.Context, p babfile.PromptRun, message string) (string
 		return "", err
 	}
 
+	if result == "" {
+		result = p.Default
+	}
 	return result, nil
 }
-- 
2.43.0


From 46177d00220dfaf24b71a5ff70bb9a131d19f25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:11 +0000
Subject: [PATCH 23/31] fix: do not take a directory named like a Babfile for
 one

---
 internal/finder/finder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/finder/finder.go b/internal/finder/finder.go
index 149613e..83dbc57 100644
--- a/internal/finder/finder.go
+++ b/internal/finder/finder.go
@@ -27,7 +27,7 @@ func FindBabfile() (string, error) {
 	for {
 		for _, filename := range babfileNames {
 			path := filepath.Join(currentDir, filename)
-			if _, err := os.Stat(path); err == nil {
+			if info, err := os.Stat(path); err == nil && !info.IsDir() {
 				log.Debug("Found Babfile", "path", path)
 				return path, nil
 			}
-- 
2.43.0


From f52856118a80ba67a5b22dea449c97f9efe7f941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:14 +0000
Subject: [PATCH 24/31] fix: a dry run knows the variables its prompts would
 set

---
 internal/runner/runner.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index dea6807..fdd6005 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -253,6 +253,8 @@ func (r *Runner) executeTask(ctx context.Context, task *babfile.Task, tasks babf
 
 			if r.DryRun {
 				log.Info("Would prompt", "var", interpolated.Prompt, "type", interpolated.Type, "message", interpolated.Message)
+				// The answer is not known: what uses it shows its placeholder.
+				taskVars[v.Prompt] = "${{ " + v.Prompt + " }}"
 			} else {
 				result, err := tui.RunPrompt(ctx, interpolated, interpolated.Message)
 				if err != nil {
-- 
2.43.0


From 6984ad2d10a5e77f870da868d159f3b1ba0a96d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:56 +0000
Subject: [PATCH 25/31] fix: keep the label of a parallel item on one line

---
 internal/babfile/run_parallel.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/internal/babfile/run_parallel.go b/internal/babfile/run_parallel.go
index 54cdb23..63a7ef3 100644
--- a/internal/babfile/run_parallel.go
+++ b/internal/babfile/run_parallel.go
@@ -2,6 +2,7 @@ package babfile
 
 import (
 	"encoding/json"
+	"strings"
 
 	"github.com/invopop/jsonschema"
 	orderedmap "github.com/wk8/go-ordered-map/v2"
@@ -57,7 +58,7 @@ func (p ParallelRun) GetWhen() string {
 
 func (p ParallelRun) ItemLabel(index int) string {
 	if index < len(p.Labels) && p.Labels[index] != "" {
-		return p.Labels[index]
+		return oneLine(p.Labels[index])
 	}
 	if index >= len(p.Items) {
 		return ""
@@ -66,14 +67,22 @@ func (p ParallelRun) ItemLabel(index int) string {
 	case TaskRun:
 		return v.Task
 	case CommandRun:
-		return truncateRunes(v.Cmd, 20)
+		return truncateRunes(oneLine(v.Cmd), 20)
 	case LogRun:
-		return truncateRunes(v.Log, 20)
+		return truncateRunes(oneLine(v.Log), 20)
 	default:
 		return ""
 	}
 }
 
+// oneLine joins the lines of a text, as a label stands before every line of output.
+func oneLine(s string) string {
+	if !strings.ContainsAny(s, "\r\n") {
+		return s
+	}
+	return strings.Join(strings.Fields(s), " ")
+}
+
 func truncateRunes(s string, max int) string {
 	r := []rune(s)
 	if len(r) > max {
-- 
2.43.0


From 69a0d20c84e379dcd069dd14c457760d2b45745d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:14 +0000
Subject: [PATCH 26/31] fix: accept a number as the default of a prompt in the
 JSON schema

---
 internal/babfile/run_prompt.go | 1 +
 schema/babfile.schema.json     | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/internal/babfile/run_prompt.go b/internal/babfile/run_prompt.go
index 669f4f4..64ed5ca 100644
--- a/internal/babfile/run_prompt.go
+++ b/internal/babfile/run_prompt.go
@@ -104,6 +104,7 @@ func PromptRunSchema() *jsonschema.Schema {
 		OneOf: []*jsonschema.Schema{
 			{Type: "string"},
 			{Type: "boolean"},
+			{Type: "integer"},
 		},
 		Description: "Default value for the prompt",
 	})
diff --git a/schema/babfile.schema.json b/schema/babfile.schema.json
index 567cea9..cd3ac00 100644
--- a/schema/babfile.schema.json
+++ b/schema/babfile.schema.json
@@ -329,6 +329,9 @@
                 },
                 {
                   "type": "boolean"
+                },
+                {
+                  "type": "integer"
                 }
               ],
               "description": "Default value for the prompt"
-- 
2.43.0


From c8c22b992c3d8fc3afde24e152af741e7e656d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:18 +0000
Subject: [PATCH 27/31] fix: suggest from all variables for an undefined one in
 a variable's definition

---
 internal/interpolate/interpolate.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/internal/interpolate/interpolate.go b/internal/interpolate/interpolate.go
index d084298..16889ca 100644
--- a/internal/interpolate/interpolate.go
+++ b/internal/interpolate/interpolate.go
@@ -152,14 +152,12 @@ func ResolveVarsWithLocation(vars map[string]string, parentVars map[string]strin
 				continue
 			}
 
-			if _, ok := vars[refName]; ok {
-				refValue, err := resolveOne(refName)
-				if err != nil {
-					return "", err
-				}
-				resolved[refName] = refValue
-				resolvedSet[refName] = true
+			refValue, err := resolveOne(refName)
+			if err != nil {
+				return "", err
 			}
+			resolved[refName] = refValue
+			resolvedSet[refName] = true
 		}
 
 		ctx := NewContextWithLocation(resolved, path, line)
-- 
2.43.0


From c5e36bdfc3b4b4260043999bc129bde12b0ae63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:39 +0000
Subject: [PATCH 28/31] fix: a cancellation kills what a finished command left
 behind holding its output

---
 internal/runner/runner.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index fdd6005..58bb818 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -577,13 +577,27 @@ func runCommandWithWriters(ctx context.Context, shell, shellArg, command string,
 		cmd.Dir = dir
 	}
 
-	err := cmd.Run()
+	err := runInGroup(ctx, cmd)
 	if err != nil && ctx.Err() != nil {
 		return ctx.Err()
 	}
 	return err
 }
 
+// runInGroup runs the command. The context of the command is no longer heeded once its process is gone,
+// but Wait goes on for as long as others of its group hold the output open: a cancellation kills them, too.
+func runInGroup(ctx context.Context, cmd *exec.Cmd) error {
+	if err := cmd.Start(); err != nil {
+		return err
+	}
+	stop := context.AfterFunc(ctx, func() { _ = signalProcessGroup(cmd) })
+	err := cmd.Wait()
+	if !stop() && err == nil {
+		return ctx.Err()
+	}
+	return err
+}
+
 func executeLog(l babfile.LogRun) {
 	switch l.Level {
 	case babfile.LogLevelDebug:
-- 
2.43.0


From da3e499b4b2c0a2fe5ec938023e39854026c2dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:30 +0000
Subject: [PATCH 29/31] fix: keep following the output of a tab when the
 terminal gets smaller

---
 internal/tui/parallel_tabs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tui/parallel_tabs.go b/internal/tui/parallel_tabs.go
index 5ff535f..bcad0e0 100644
--- a/internal/tui/parallel_tabs.go
+++ b/internal/tui/parallel_tabs.go
@@ -94,12 +94,12 @@ func (m *tabsModel) updateViewport() {
 	if contentHeight < 1 {
 		contentHeight = 1
 	}
+	atBottom := m.viewport.AtBottom()
 	m.viewport.SetWidth(contentWidth)
 	m.viewport.SetHeight(contentHeight)
 
 	content := m.buildContent(activeItem, contentWidth)
 
-	atBottom := m.viewport.AtBottom()
 	m.viewport.SetContent(content)
 	if atBottom {
 		m.viewport.GotoBottom()
-- 
2.43.0


From 235404b3fdc5e46527af1ca5beb05ae06bfe7a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:01 +0000
Subject: [PATCH 30/31] fix: show every task of the picker on a line of its own

A description of several lines took as many lines of the list, which
pushed the highlighted task out of the window.
---
 internal/tui/picker/view.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tui/picker/view.go b/internal/tui/picker/view.go
index 2e7ab40..efbd576 100644
--- a/internal/tui/picker/view.go
+++ b/internal/tui/picker/view.go
@@ -73,8 +73,8 @@ func (m Model) renderLine(i int) string {
 		}
 	}
 
-	if match.Task.Desc != "" {
-		b.WriteString("  " + descStyle.Render(match.Task.Desc))
+	if desc := strings.Join(strings.Fields(match.Task.Desc), " "); desc != "" {
+		b.WriteString("  " + descStyle.Render(desc))
 	}
 	return b.String()
 }
-- 
2.43.0


From c95a691a76a9506759528d8398e9bfdc1fa34a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:31 +0000
Subject: [PATCH 31/31] fix: list every task on a line of its own

The further lines of a description stood in the listing like tasks.
---
 cmd/list.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/list.go b/cmd/list.go
index 3dd3264..d1c4da8 100644
--- a/cmd/list.go
+++ b/cmd/list.go
@@ -56,8 +56,8 @@ func (c *CLI) runList() error {
 		if len(n.aliases) > 0 {
 			label += " " + aliasStyle.Render("("+strings.Join(n.aliases, ", ")+")")
 		}
-		if n.desc != "" {
-			label += " " + descStyle.Render(n.desc)
+		if desc := strings.Join(strings.Fields(n.desc), " "); desc != "" {
+			label += " " + descStyle.Render(desc)
 		}
 		t := tree.Root(label)
 		for _, childName := range sortedKeys(n.children) {
-- 
2.43.0

