From 8318106e1af9c553f382ab8a6ea7c7318728a16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 01/35] fix: run a target named several times in YAML only once

Controller.Run computed the identity of a target before resolving a
reference by name, so each reference to the same target was taken for a
different target and ran it again.
---
 runner.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/runner.go b/runner.go
index 941228c..d0db994 100644
--- a/runner.go
+++ b/runner.go
@@ -63,16 +63,13 @@ func (con *Controller) Run(ctx context.Context, targets ...Target) error {
 		wg      sync.WaitGroup
 	)
 	for i, target := range targets {
-		addr, err := targetAddr(target)
-		if err != nil {
-			errs[i] = err
-			continue
-		}
-
 		i, target := i, target // Go loop-var pitfall
 
 		if d, ok := target.(*deferredResolutionTarget); ok {
 			// Short-circuit here to avoid some confusing extra output in verbose mode.
+			// This must precede the call to targetAddr below:
+			// the identity that counts is that of the resolved target.
+			var err error
 			target, err = d.resolve(con)
 			if err != nil {
 				errs[i] = err
@@ -80,6 +77,12 @@ func (con *Controller) Run(ctx context.Context, targets ...Target) error {
 			}
 		}
 
+		addr, err := targetAddr(target)
+		if err != nil {
+			errs[i] = err
+			continue
+		}
+
 		wg.Add(1)
 		go func() {
 			defer wg.Done()
-- 
2.43.0


From 47c5273e4b006e843d12fd2ff12fb6adec0ddb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 02/35] fix: keep targets alive while the controller remembers
 them

The controller remembers the targets it ran by address only. A target
that became garbage could have its address reused by a new target, which
was then skipped as already run.
---
 runner.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/runner.go b/runner.go
index d0db994..eab2c0a 100644
--- a/runner.go
+++ b/runner.go
@@ -15,6 +15,11 @@ import (
 type outcome struct {
 	g   *gate
 	err error
+
+	// Keeps the target alive for as long as its address is a key in the "ran" map.
+	// Otherwise it could be garbage-collected and its address reused by another target,
+	// which would then wrongly be considered to have run.
+	target Target
 }
 
 func (con *Controller) incDepth() {
@@ -90,7 +95,7 @@ func (con *Controller) Run(ctx context.Context, targets ...Target) error {
 			con.mu.Lock()
 			o, ok := con.ran[addr]
 			if !ok {
-				o = &outcome{g: newGate(false)}
+				o = &outcome{g: newGate(false), target: target}
 				con.ran[addr] = o
 			}
 			con.mu.Unlock()
-- 
2.43.0


From 387344c10409771dc7da7c670392383128cf300a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:36 +0000
Subject: [PATCH 03/35] fix: include the members of a Seq in its JSON encoding

The member list was an unexported field, so every Seq was encoded as {}
and the hash of a Files target did not change when its Seq subtarget did.
---
 seq.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/seq.go b/seq.go
index ef84027..5483fce 100644
--- a/seq.go
+++ b/seq.go
@@ -20,18 +20,20 @@ import (
 // The elements in the sequence are targets themselves,
 // or target names.
 func Seq(targets ...Target) Target {
-	return &seq{targets: targets}
+	return &seq{Targets: targets}
 }
 
 type seq struct {
-	targets []Target
+	// Exported so that the JSON encoding includes it,
+	// and with a name that is different from the one used in [all].
+	Targets []Target `json:"SeqTargets"`
 }
 
 var _ Target = &seq{}
 
 // Run implements Target.Run.
 func (s *seq) Run(ctx context.Context, con *Controller) error {
-	for _, t := range s.targets {
+	for _, t := range s.Targets {
 		if err := con.Run(ctx, t); err != nil {
 			return err
 		}
-- 
2.43.0


From 4e081ad7a7f0c22821fea38d431f7334604ac3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 04/35] fix: resolve references by name before hashing a Files
 target

The hash computed before running a subtarget given by name was computed
from an unresolved reference and the one computed afterwards from the
resolved one. They never agreed, so such a target was never up to date.
---
 files.go | 47 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/files.go b/files.go
index aa9fc57..d5ce6df 100644
--- a/files.go
+++ b/files.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"crypto/sha256"
 	"encoding/hex"
+	"fmt"
 	"io"
 	"io/fs"
 	"os"
@@ -173,6 +174,12 @@ func (ft *files) computeHash(con *Controller) ([]byte, error) {
 	if err != nil {
 		return nil, errors.Wrapf(err, "computing output hash(es) for %s", con.Describe(ft))
 	}
+	// References by name must be resolved before encoding,
+	// so that the hash is the same before and after running the subtarget,
+	// and so that it reflects the definitions of the targets referred to.
+	if err := resolveReferences(con, ft.Target, nil); err != nil {
+		return nil, errors.Wrapf(err, "resolving subtarget of %s", con.Describe(ft))
+	}
 	tt := reflect.TypeOf(ft.Target)
 	s := struct {
 		Target     Target   `json:"target"`
@@ -194,6 +201,46 @@ func (ft *files) computeHash(con *Controller) ([]byte, error) {
 	return sum[:], nil
 }
 
+// Resolves the references by name in the given target and its subtargets.
+// The parents argument is the chain of targets leading to this one.
+func resolveReferences(con *Controller, target Target, parents []Target) error {
+	var subtargets []Target
+
+	switch t := target.(type) {
+	case *deferredResolutionTarget:
+		resolved, err := t.resolve(con)
+		if err != nil {
+			return err
+		}
+		subtargets = []Target{resolved}
+	case *all:
+		subtargets = t.Targets
+	case *seq:
+		subtargets = t.Targets
+	case *argTarget:
+		subtargets = []Target{t.Target}
+	case *files:
+		subtargets = []Target{t.Target}
+	default:
+		return nil
+	}
+
+	for _, parent := range parents {
+		if parent == target {
+			return fmt.Errorf("target %s contains itself", con.Describe(target))
+		}
+	}
+	parents = append(parents[:len(parents):len(parents)], target)
+
+	for _, subtarget := range subtargets {
+		if err := resolveReferences(con, subtarget, parents); err != nil {
+			return err
+		}
+	}
+
+	return nil
+}
+
 func (ft *files) runPrereqs(ctx context.Context, con *Controller) error {
 	var prereqs []Target
 
-- 
2.43.0


From fd7052aee75d9254009b84c5000db6fbdee4ccd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 05/35] fix: report an error examining a file of a Files target

Errors from os.Stat other than a missing file led to a nil dereference.
---
 files.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/files.go b/files.go
index d5ce6df..fdadc13 100644
--- a/files.go
+++ b/files.go
@@ -334,6 +334,9 @@ func fileHashesItemHelper(item string, hashes map[string]string) error {
 		hashes[item] = ""
 		return nil
 	}
+	if err != nil {
+		return errors.Wrapf(err, "statting %s", item)
+	}
 
 	if info.IsDir() {
 		entries, err := os.ReadDir(item)
-- 
2.43.0


From beafbbe672c657c29b056a28fa74b69b4cbd1bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 06/35] fix: do not make a Files target wait for itself

A Files target with one of its outputs among its inputs ran itself as its
own prerequisite and deadlocked.
---
 files.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/files.go b/files.go
index fdadc13..547c15b 100644
--- a/files.go
+++ b/files.go
@@ -245,7 +245,8 @@ func (ft *files) runPrereqs(ctx context.Context, con *Controller) error {
 	var prereqs []Target
 
 	for _, in := range ft.In {
-		if target := findInFilesRegistry(in); target != nil {
+		// A target that updates one of its own inputs must not wait for itself.
+		if target := findInFilesRegistry(in); target != nil && target != ft {
 			prereqs = append(prereqs, target)
 		}
 	}
-- 
2.43.0


From 4314a37d18f73372f337d43f2caf7678414a251a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 07/35] fix: accept an empty string as second command-line
 argument

ParseArgs indexed into it without checking its length.
---
 controller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller.go b/controller.go
index 23f35f6..5fdef46 100644
--- a/controller.go
+++ b/controller.go
@@ -85,7 +85,7 @@ func (con *Controller) ParseArgs(args []string) ([]Target, error) {
 		unknown []string
 	)
 
-	if len(args) > 1 && args[1][0] == '-' {
+	if len(args) > 1 && strings.HasPrefix(args[1], "-") {
 		// Just one target, and remaining args are arguments for that target.
 		if target, _ := con.RegistryTarget(args[0]); target != nil {
 			targets = append(targets, ArgTarget(target, args[1:]...))
-- 
2.43.0


From af082702dfd6b2012454abd31362e20297347a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 08/35] fix: do not reorder the Files of a Clean target when it
 runs

---
 clean.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clean.go b/clean.go
index 1cc3cfb..52b0c13 100644
--- a/clean.go
+++ b/clean.go
@@ -36,7 +36,7 @@ type Clean struct {
 
 // Run implements Target.Run.
 func (c *Clean) Run(ctx context.Context, con *Controller) error {
-	files := c.Files
+	files := append([]string(nil), c.Files...) // a copy, since it gets sorted below
 	if c.Autoclean {
 		autocleanMu.Lock()
 		autocleanFiles := autocleanRegistry.Slice()
-- 
2.43.0


From a361d017b756ded4811da6c84d049f76c17efee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 09/35] fix: honor the >> prefix of Stdout and Stderr in a YAML
 Command

The name including the prefix was joined to the directory name, so the
prefix became part of a file name.
---
 command.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/command.go b/command.go
index 238cd26..18eaca3 100644
--- a/command.go
+++ b/command.go
@@ -470,10 +470,7 @@ func (c commandYAML) toTarget(con *Controller, shell, dir string, args, env []st
 		// do nothing
 
 	default:
-		result.StdoutFile = con.JoinPath(dir, c.Stdout)
-		if forceAppend && !strings.HasPrefix(result.StdoutFile, ">>") {
-			result.StdoutFile = ">>" + result.StdoutFile
-		}
+		result.StdoutFile = outputFile(con, c.Stdout, dir, forceAppend)
 	}
 
 	switch c.Stderr {
@@ -496,15 +493,26 @@ func (c commandYAML) toTarget(con *Controller, shell, dir string, args, env []st
 		// do nothing
 
 	default:
-		result.StderrFile = con.JoinPath(dir, c.Stderr)
-		if forceAppend && !strings.HasPrefix(result.StderrFile, ">>") {
-			result.StderrFile = ">>" + result.StderrFile
-		}
+		result.StderrFile = outputFile(con, c.Stderr, dir, forceAppend)
 	}
 
 	return result
 }
 
+// Resolves the name of an output file relative to dir,
+// preserving a >> prefix and adding one if forceAppend is true.
+func outputFile(con *Controller, name, dir string, forceAppend bool) string {
+	if strings.HasPrefix(name, ">>") {
+		name = strings.TrimLeft(name, "> ")
+		forceAppend = true
+	}
+	name = con.JoinPath(dir, name)
+	if forceAppend {
+		name = ">>" + name
+	}
+	return name
+}
+
 func deferredIndent(w io.Writer) func(context.Context, *Controller) io.Writer {
 	return func(_ context.Context, con *Controller) io.Writer {
 		return con.IndentingCopier(w, "    ")
-- 
2.43.0


From 0fc7b8f19f49875282c0d66d523bcf6e5215f771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 10/35] fix: honor a file name in the Stdin field of a YAML
 Command

---
 command.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/command.go b/command.go
index 18eaca3..1666b92 100644
--- a/command.go
+++ b/command.go
@@ -446,8 +446,15 @@ func (c commandYAML) toTarget(con *Controller, shell, dir string, args, env []st
 		Env:   env,
 	}
 
-	if c.Stdin == "$stdin" {
+	switch c.Stdin {
+	case "$stdin":
 		result.Stdin = os.Stdin
+
+	case "":
+		// do nothing
+
+	default:
+		result.StdinFile = con.JoinPath(dir, c.Stdin)
 	}
 
 	switch c.Stdout {
-- 
2.43.0


From 4ab38ba714d198efeb2891c9a427529bb1df0ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 11/35] fix: report failures to close the output files of a
 Command

For standard output the error was assigned to a shadowing variable, and
for standard error it was ignored.
---
 command.go | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/command.go b/command.go
index 1666b92..113a518 100644
--- a/command.go
+++ b/command.go
@@ -231,9 +231,9 @@ func (c *Command) Run(ctx context.Context, con *Controller) (err error) {
 
 	if stdoutFile != "" {
 		if stdoutAppend {
-			f, err := os.OpenFile(stdoutFile, os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0644)
-			if err != nil {
-				return errors.Wrapf(err, "opening %s for appending", stdoutFile)
+			f, openErr := os.OpenFile(stdoutFile, os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0644)
+			if openErr != nil {
+				return errors.Wrapf(openErr, "opening %s for appending", stdoutFile)
 			}
 			defer func() {
 				closeErr := f.Close()
@@ -243,14 +243,14 @@ func (c *Command) Run(ctx context.Context, con *Controller) (err error) {
 			}()
 			cmd.Stdout = f
 		} else {
-			f, err := os.Create(stdoutFile)
-			if err != nil {
-				return errors.Wrapf(err, "opening %s for writing", stdoutFile)
+			f, openErr := os.Create(stdoutFile)
+			if openErr != nil {
+				return errors.Wrapf(openErr, "opening %s for writing", stdoutFile)
 			}
 			defer func() {
 				closeErr := f.Close()
 				if err == nil {
-					err = errors.Wrapf(closeErr, "closing stderr file %s", stdoutFile)
+					err = errors.Wrapf(closeErr, "closing stdout file %s", stdoutFile)
 				}
 			}()
 			cmd.Stdout = f
@@ -263,19 +263,29 @@ func (c *Command) Run(ctx context.Context, con *Controller) (err error) {
 			cmd.Stderr = cmd.Stdout
 
 		case stderrAppend:
-			f, err := os.OpenFile(stderrFile, os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0644)
-			if err != nil {
-				return errors.Wrapf(err, "opening %s for appending", stderrFile)
+			f, openErr := os.OpenFile(stderrFile, os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0644)
+			if openErr != nil {
+				return errors.Wrapf(openErr, "opening %s for appending", stderrFile)
 			}
-			defer f.Close()
+			defer func() {
+				closeErr := f.Close()
+				if err == nil {
+					err = errors.Wrapf(closeErr, "closing stderr file %s", stderrFile)
+				}
+			}()
 			cmd.Stderr = f
 
 		default:
-			f, err := os.Create(stderrFile)
-			if err != nil {
-				return errors.Wrapf(err, "opening %s for writing", stderrFile)
+			f, openErr := os.Create(stderrFile)
+			if openErr != nil {
+				return errors.Wrapf(openErr, "opening %s for writing", stderrFile)
 			}
-			defer f.Close()
+			defer func() {
+				closeErr := f.Close()
+				if err == nil {
+					err = errors.Wrapf(closeErr, "closing stderr file %s", stderrFile)
+				}
+			}()
 			cmd.Stderr = f
 		}
 	}
-- 
2.43.0


From e6a3c13a29c04928d5b745457909a487da6bdbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 12/35] fix: record the fab version after every driver
 compilation

It was recorded only if the version check was the reason for compiling.
A first compilation recorded nothing, so the second run compiled the
driver again, and a forced one left an outdated record behind. Failure to
close the file was assigned to a shadowing variable and lost.
---
 main.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 6149965..4e3ea97 100644
--- a/main.go
+++ b/main.go
@@ -281,10 +281,14 @@ func (m *Main) getDriver(ctx context.Context, skipVersionCheck bool) (_ string,
 	if err = os.WriteFile(hashfile, []byte(newhash), 0644); err != nil {
 		return "", errors.Wrapf(err, "writing %s", hashfile)
 	}
+	if buildInfo == nil && !skipVersionCheck {
+		// The version check was not reached.
+		buildInfo, _ = debug.ReadBuildInfo()
+	}
 	if buildInfo != nil {
-		v, err := os.OpenFile(versionfile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
-		if err != nil {
-			return "", errors.Wrapf(err, "opening %s for writing", versionfile)
+		v, openErr := os.OpenFile(versionfile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
+		if openErr != nil {
+			return "", errors.Wrapf(openErr, "opening %s for writing", versionfile)
 		}
 		defer func() {
 			closeErr := v.Close()
-- 
2.43.0


From 2e58be02d525ffc873acc640fc415581b10499dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 13/35] fix: never leave a hash on record that describes
 another driver

If fab was interrupted between installing a driver and recording its hash
and the user then reverted the change, the old hash matched and the wrong
driver was used.
---
 main.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 4e3ea97..b43a26f 100644
--- a/main.go
+++ b/main.go
@@ -275,12 +275,14 @@ func (m *Main) getDriver(ctx context.Context, skipVersionCheck bool) (_ string,
 		return driver, nil
 	}
 
+	// Remove the old hash before replacing the driver and write the new one last.
+	// Otherwise, after an interruption, the hash could vouch for the wrong driver.
+	if err = os.Remove(hashfile); err != nil && !errors.Is(err, fs.ErrNotExist) {
+		return "", errors.Wrapf(err, "removing %s", hashfile)
+	}
 	if err = CompilePackage(ctx, pkg, driver); err != nil {
 		return "", errors.Wrapf(err, "compiling driver %s", driver)
 	}
-	if err = os.WriteFile(hashfile, []byte(newhash), 0644); err != nil {
-		return "", errors.Wrapf(err, "writing %s", hashfile)
-	}
 	if buildInfo == nil && !skipVersionCheck {
 		// The version check was not reached.
 		buildInfo, _ = debug.ReadBuildInfo()
@@ -302,6 +304,9 @@ func (m *Main) getDriver(ctx context.Context, skipVersionCheck bool) (_ string,
 			return "", errors.Wrap(err, "encoding build info")
 		}
 	}
+	if err = os.WriteFile(hashfile, []byte(newhash), 0644); err != nil {
+		return "", errors.Wrapf(err, "writing %s", hashfile)
+	}
 
 	return driver, nil
 }
-- 
2.43.0


From b2c6e48e9aaba06135ff1eb6c52ae01cfb72204d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 14/35] fix: register only variables as targets in the driver

An exported type with the methods of a Target was taken for a target,
producing a driver that did not compile.
---
 compile.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/compile.go b/compile.go
index fb540d1..c7cc995 100644
--- a/compile.go
+++ b/compile.go
@@ -7,6 +7,7 @@ import (
 	"go/doc"
 	"go/parser"
 	"go/token"
+	"go/types"
 	"io"
 	"os"
 	"os/exec"
@@ -123,8 +124,9 @@ func CompilePackage(ctx context.Context, pkg *packages.Package, binfile string)
 		if !ast.IsExported(ident) {
 			continue
 		}
-		obj := scope.Lookup(ident)
-		if obj == nil {
+		// Types and constants may implement Target but are not targets.
+		obj, ok := scope.Lookup(ident).(*types.Var)
+		if !ok {
 			continue
 		}
 		if err := checkImplementsTarget(obj.Type()); err != nil {
-- 
2.43.0


From 939e3bc0ec1952674a4bd051320e32154b7815bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 15/35] fix: produce a valid driver for targets without a doc
 string

The doc string of a target declared with an explicit type of the same
package was not found, and a missing doc string made the driver source
syntactically invalid.
---
 compile.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/compile.go b/compile.go
index c7cc995..2e36d3a 100644
--- a/compile.go
+++ b/compile.go
@@ -132,7 +132,7 @@ func CompilePackage(ctx context.Context, pkg *packages.Package, binfile string)
 		if err := checkImplementsTarget(obj.Type()); err != nil {
 			continue
 		}
-		targets[ident] = &targetPair{Name: ident}
+		targets[ident] = &targetPair{Name: ident, Doc: `""`}
 	}
 
 	var (
@@ -140,7 +140,12 @@ func CompilePackage(ctx context.Context, pkg *packages.Package, binfile string)
 		parser = dpkg.Parser()
 		pr     = dpkg.Printer()
 	)
-	for _, v := range dpkg.Vars {
+	vars := dpkg.Vars
+	for _, typ := range dpkg.Types {
+		// Variables declared with a type of this package are found here.
+		vars = append(vars, typ.Vars...)
+	}
+	for _, v := range vars {
 		for _, name := range v.Names {
 			if tp, ok := targets[name]; ok {
 				dstr := string(pr.Text(parser.Parse(v.Doc)))
-- 
2.43.0


From d194c395a7ef04e5bed887bd13251403efef1180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 16/35] fix: report a missing file that a YAML file refers to

ReadYAMLFile returned such an error as fs.ErrNotExist, which the fab
command and the driver take to mean that there is no fab.yaml at all, so
they silently carried on with part of the targets missing.
---
 yaml.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yaml.go b/yaml.go
index 7a1e82a..11b8b0b 100644
--- a/yaml.go
+++ b/yaml.go
@@ -257,6 +257,10 @@ func (con *Controller) ReadYAMLFile(dir string) error {
 	}
 
 	err = con.ReadYAML(f, rel)
+	if errors.Is(err, fs.ErrNotExist) {
+		// Callers take this kind of error to mean that there is no YAML file in dir.
+		err = errors.New(err.Error())
+	}
 	return errors.Wrapf(err, "reading YAML file in %s", dir)
 }
 
-- 
2.43.0


From 87ec2f671ef37eb7effc3e819768bd9a32e51568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 17/35] fix: allow YAML files to refer to targets in each other

Resolving a reference into a directory whose YAML file was still being
read read that file again, recursing without end.
---
 controller.go |  5 +++++
 yaml.go       | 17 +++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/controller.go b/controller.go
index 5fdef46..70d0b3c 100644
--- a/controller.go
+++ b/controller.go
@@ -29,6 +29,10 @@ type Controller struct {
 	targetsByName map[string]targetRegistryTuple
 
 	targetsByAddr map[uintptr]targetRegistryTuple
+
+	// Counts the calls to ReadYAMLFile in progress for each directory,
+	// relative to topdir.
+	reading map[string]int
 }
 
 // NewController creates a new [Controller]
@@ -41,6 +45,7 @@ func NewController(topdir string) *Controller {
 		ran:           make(map[uintptr]*outcome),
 		targetsByName: make(map[string]targetRegistryTuple),
 		targetsByAddr: make(map[uintptr]targetRegistryTuple),
+		reading:       make(map[string]int),
 	}
 }
 
diff --git a/yaml.go b/yaml.go
index 11b8b0b..5a28f41 100644
--- a/yaml.go
+++ b/yaml.go
@@ -72,6 +72,14 @@ func (con *Controller) YAMLTarget(node *yaml.Node, dir string) (Target, error) {
 				return found, nil
 			}
 
+			con.mu.Lock()
+			reading := con.reading[tdir] > 0
+			con.mu.Unlock()
+			if reading {
+				// The target may be defined in a part of the file that has not been reached yet.
+				return &deferredResolutionTarget{Name: qname}, nil
+			}
+
 			if err := con.ReadYAMLFile(tdir); err != nil {
 				return nil, errors.Wrapf(err, "resolving target %s", qname)
 			}
@@ -256,6 +264,15 @@ func (con *Controller) ReadYAMLFile(dir string) error {
 		rel = ""
 	}
 
+	con.mu.Lock()
+	con.reading[rel]++
+	con.mu.Unlock()
+	defer func() {
+		con.mu.Lock()
+		con.reading[rel]--
+		con.mu.Unlock()
+	}()
+
 	err = con.ReadYAML(f, rel)
 	if errors.Is(err, fs.ErrNotExist) {
 		// Callers take this kind of error to mean that there is no YAML file in dir.
-- 
2.43.0


From a32d84c11e8f883695ef5dbad1e3a839b225369e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 18/35] fix: interpret the Includes of !proto.Deps relative to
 the YAML file

They were relative to the current directory, unlike File and unlike the
Includes of !proto.Proto.
---
 proto/proto.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/proto/proto.go b/proto/proto.go
index 856d0cc..3575355 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -151,13 +151,17 @@ func protodepsImport(imp string, includes []string, result set.Of[string]) error
 
 func protodepsDecoder(con *fab.Controller, node *yaml.Node, dir string) ([]string, error) {
 	var pd struct {
-		File     string   `yaml:"File"`
-		Includes []string `yaml:"Includes"`
+		File     string    `yaml:"File"`
+		Includes yaml.Node `yaml:"Includes"`
 	}
 	if err := node.Decode(&pd); err != nil {
 		return nil, errors.Wrap(err, "YAML error in proto.Deps node")
 	}
-	return Deps(con.JoinPath(dir, pd.File), pd.Includes)
+	includes, err := con.YAMLFileList(&pd.Includes, dir)
+	if err != nil {
+		return nil, errors.Wrap(err, "parsing proto.Deps include list")
+	}
+	return Deps(con.JoinPath(dir, pd.File), includes)
 }
 
 func init() {
-- 
2.43.0


From d5426fde0af967fbd7750523c638ce2360f01682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 19/35] fix: do not crash computing the dependencies of a
 package without a module

---
 golang/go.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/golang/go.go b/golang/go.go
index ea769e2..f2f6587 100644
--- a/golang/go.go
+++ b/golang/go.go
@@ -120,6 +120,9 @@ func Deps(dir string, recursive, tests bool) ([]string, error) {
 
 	files := set.New[string]()
 	for _, pkg := range pkgs {
+		if pkg.Module == nil {
+			continue
+		}
 		if err = gopkgAdd(pkg, pkg.Module.Path, files); err != nil {
 			return nil, errors.Wrapf(err, "adding files from %s", pkg.PkgPath)
 		}
-- 
2.43.0


From 7b52ec499bddd613997dd64031698e761ebde0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 20/35] fix: report failure to close a source file copied for
 compiling a driver

---
 compile.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/compile.go b/compile.go
index 2e36d3a..7a9c61d 100644
--- a/compile.go
+++ b/compile.go
@@ -314,6 +314,8 @@ func copyFile(filename, destdir string) error {
 	}
 	defer in.Close()
 
-	_, err = io.Copy(out, in)
-	return errors.Wrapf(err, "copying %s to %s", filename, destdir)
+	if _, err = io.Copy(out, in); err != nil {
+		return errors.Wrapf(err, "copying %s to %s", filename, destdir)
+	}
+	return errors.Wrapf(out.Close(), "closing %s", outfilename)
 }
-- 
2.43.0


From 0c13c68033e7089d3f664b1f1177b4a2467fa139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 21/35] fix: recognize all forms of protobuf import

Weak imports, imports in single quotes and indented imports were missing
from the list of dependencies.
---
 proto/proto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proto/proto.go b/proto/proto.go
index 3575355..dbefcd6 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -110,7 +110,7 @@ func Deps(filename string, includes []string) ([]string, error) {
 	return slice, err
 }
 
-var importRegex = regexp.MustCompile(`^import(\s+public)?\s*"([^"]+)"`)
+var importRegex = regexp.MustCompile(`^\s*import(\s+public|\s+weak)?\s*["']([^"']+)["']`)
 
 func protodeps(r io.Reader, includes []string, result set.Of[string]) error {
 	sc := bufio.NewScanner(r)
-- 
2.43.0


From 1a6ecf80afac1c877f341253eef3cd6c56510b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 22/35] fix: do not look further for a protobuf import already
 found

When a file was imported a second time, a file of the same name in a later
include directory was added to the dependencies.
---
 proto/proto.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proto/proto.go b/proto/proto.go
index dbefcd6..7f259b0 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -131,7 +131,8 @@ func protodepsImport(imp string, includes []string, result set.Of[string]) error
 		full := filepath.Join(inc, imp)
 
 		if result.Has(full) {
-			continue
+			// The import refers to this file, not to one in a later include directory.
+			return nil
 		}
 
 		f, err := os.Open(full)
-- 
2.43.0


From 6ce4e11fdf990ecf74766a23ef944f690794f19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:13 +0000
Subject: [PATCH 23/35] fix: make relative fab and top directories work with a
 driver

They were passed unchanged to the driver, which runs in another directory,
and with a relative fab directory the driver binary itself was not found.
---
 main.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/main.go b/main.go
index b43a26f..fa690bf 100644
--- a/main.go
+++ b/main.go
@@ -75,6 +75,15 @@ func (m *Main) Run(ctx context.Context) error {
 		}
 	}
 
+	// The driver runs in m.Topdir, where relative directory names would have a different meaning.
+	for _, dir := range []*string{&m.Topdir, &m.Fabdir} {
+		abs, err := filepath.Abs(*dir)
+		if err != nil {
+			return errors.Wrapf(err, "making %s absolute", *dir)
+		}
+		*dir = abs
+	}
+
 	driver, err := m.getDriver(ctx, false)
 	if errors.Is(err, errNoDriver) {
 		return m.driverless(ctx)
-- 
2.43.0


From 67887ad61630e99edc1ab5f003aef266635f0467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:06 +0000
Subject: [PATCH 24/35] fix: report a failure to examine the _fab directory

---
 main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/main.go b/main.go
index fa690bf..dd125d2 100644
--- a/main.go
+++ b/main.go
@@ -174,6 +174,9 @@ func (m *Main) getDriver(ctx context.Context, skipVersionCheck bool) (_ string,
 	if errors.Is(err, fs.ErrNotExist) {
 		return "", errNoDriver
 	}
+	if err != nil {
+		return "", errors.Wrapf(err, "statting %s", pkgdir)
+	}
 	config := &packages.Config{
 		Mode:    LoadMode,
 		Context: ctx,
-- 
2.43.0


From 2d639dda724baf8a650b63d95797d6c39d73f6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:17 +0000
Subject: [PATCH 25/35] fix: tell targets apart that share an address

---
 controller.go |  8 ++++----
 register.go   | 15 ++++++++++++---
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/controller.go b/controller.go
index 70d0b3c..7541e7a 100644
--- a/controller.go
+++ b/controller.go
@@ -23,12 +23,12 @@ type Controller struct {
 	depth int
 
 	// Records targets that have run or are running.
-	ran map[uintptr]*outcome
+	ran map[targetID]*outcome
 
 	// Keys are names related to topdir.
 	targetsByName map[string]targetRegistryTuple
 
-	targetsByAddr map[uintptr]targetRegistryTuple
+	targetsByAddr map[targetID]targetRegistryTuple
 
 	// Counts the calls to ReadYAMLFile in progress for each directory,
 	// relative to topdir.
@@ -42,9 +42,9 @@ type Controller struct {
 func NewController(topdir string) *Controller {
 	return &Controller{
 		topdir:        topdir,
-		ran:           make(map[uintptr]*outcome),
+		ran:           make(map[targetID]*outcome),
 		targetsByName: make(map[string]targetRegistryTuple),
-		targetsByAddr: make(map[uintptr]targetRegistryTuple),
+		targetsByAddr: make(map[targetID]targetRegistryTuple),
 		reading:       make(map[string]int),
 	}
 }
diff --git a/register.go b/register.go
index 7180e62..6de7f5d 100644
--- a/register.go
+++ b/register.go
@@ -25,12 +25,21 @@ func (con *Controller) RegisterTarget(name, doc string, target Target) (Target,
 	return target, nil
 }
 
-func targetAddr(target Target) (uintptr, error) {
+// The identity of a target.
+// The address alone is not enough:
+// an object shares its address with its first field,
+// and objects of size zero may share their address with anything.
+type targetID struct {
+	typ  reflect.Type
+	addr uintptr
+}
+
+func targetAddr(target Target) (targetID, error) {
 	v := reflect.ValueOf(target)
 	if v.Kind() != reflect.Pointer {
-		return 0, fmt.Errorf("got type %T for target, want a pointer type", target)
+		return targetID{}, fmt.Errorf("got type %T for target, want a pointer type", target)
 	}
-	return uintptr(v.UnsafePointer()), nil
+	return targetID{typ: v.Type(), addr: uintptr(v.UnsafePointer())}, nil
 }
 
 type targetRegistryTuple struct {
-- 
2.43.0


From a5c0274fbdba410e48a4adfe514510e49c527c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:56 +0000
Subject: [PATCH 26/35] fix: make the result of !proto.Deps in a subdirectory
 denote the right files

With a relative top directory, they were resolved twice against the
directory of the YAML file.
---
 proto/proto.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/proto/proto.go b/proto/proto.go
index 7f259b0..f7a12f1 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -162,7 +162,12 @@ func protodepsDecoder(con *fab.Controller, node *yaml.Node, dir string) ([]strin
 	if err != nil {
 		return nil, errors.Wrap(err, "parsing proto.Deps include list")
 	}
-	return Deps(con.JoinPath(dir, pd.File), includes)
+	deps, err := Deps(con.JoinPath(dir, pd.File), includes)
+	if err != nil {
+		return nil, err
+	}
+	// A list of relative names would be interpreted relative to dir again.
+	return slices.Mapx(deps, func(_ int, dep string) (string, error) { return filepath.Abs(dep) })
 }
 
 func init() {
-- 
2.43.0


From ba696fe34acc88d7eaf751e6591c119356a69c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:30 +0000
Subject: [PATCH 27/35] fix: look only at the package's own files for doc
 comments

The directory may also hold an external test package, or files
excluded by build constraints, and those made CompilePackage fail.
---
 compile.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/compile.go b/compile.go
index 7a9c61d..9f57b1e 100644
--- a/compile.go
+++ b/compile.go
@@ -9,6 +9,7 @@ import (
 	"go/token"
 	"go/types"
 	"io"
+	"io/fs"
 	"os"
 	"os/exec"
 	"path/filepath"
@@ -95,7 +96,16 @@ func CompilePackage(ctx context.Context, pkg *packages.Package, binfile string)
 		fset   = token.NewFileSet()
 		pkgdir = filepath.Dir(pkg.GoFiles[0])
 	)
-	astpkgs, err := parser.ParseDir(fset, pkgdir, nil, parser.ParseComments)
+	// Other files, such as tests, may belong to other packages.
+	isPkgFile := func(info fs.FileInfo) bool {
+		for _, filename := range pkg.GoFiles {
+			if filepath.Base(filename) == info.Name() {
+				return true
+			}
+		}
+		return false
+	}
+	astpkgs, err := parser.ParseDir(fset, pkgdir, isPkgFile, parser.ParseComments)
 	if err != nil {
 		return errors.Wrapf(err, "parsing %s", pkgdir)
 	}
-- 
2.43.0


From 5e90bb366543cac30ae91103b8e1596ad5648150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:45 +0000
Subject: [PATCH 28/35] fix: use the doc comments of individual variables in a
 var group

Targets declared in a parenthesized group lost their doc comments.
---
 compile.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/compile.go b/compile.go
index 9f57b1e..4a2e319 100644
--- a/compile.go
+++ b/compile.go
@@ -158,7 +158,7 @@ func CompilePackage(ctx context.Context, pkg *packages.Package, binfile string)
 	for _, v := range vars {
 		for _, name := range v.Names {
 			if tp, ok := targets[name]; ok {
-				dstr := string(pr.Text(parser.Parse(v.Doc)))
+				dstr := string(pr.Text(parser.Parse(varDoc(v, name))))
 				dstr = strings.TrimRight(dstr, "\r\n")
 				tp.Doc = strconv.Quote(dstr)
 			}
@@ -270,6 +270,24 @@ func CompilePackage(ctx context.Context, pkg *packages.Package, binfile string)
 	return os.Rename(filepath.Join(tmpdir, "x"), binfile)
 }
 
+// Returns the doc comment for the variable with the given name in v.
+// When v is a group of parenthesized declarations,
+// a declaration's own comment takes precedence over the comment for the group.
+func varDoc(v *doc.Value, name string) string {
+	for _, spec := range v.Decl.Specs {
+		spec, ok := spec.(*ast.ValueSpec)
+		if !ok || spec.Doc == nil {
+			continue
+		}
+		for _, ident := range spec.Names {
+			if ident.Name == name {
+				return spec.Doc.Text()
+			}
+		}
+	}
+	return v.Doc
+}
+
 // LoadMode is the minimal set of flags to enable for Config.Mode in a call to Packages.Load
 // in order to produce a suitable package object for CompilePackage.
 const LoadMode = packages.NeedName | packages.NeedFiles | packages.NeedTypes | packages.NeedDeps
-- 
2.43.0


From b16a18e774e4bc1d010f577fa04572d28ff58b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:40 +0000
Subject: [PATCH 29/35] fix: do not let the driver parse Main.Args as its own
 flags

Arguments beginning with a dash are targets or target arguments,
as they already were in driverless mode.
---
 main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/main.go b/main.go
index dd125d2..31fb25a 100644
--- a/main.go
+++ b/main.go
@@ -105,6 +105,7 @@ func (m *Main) Run(ctx context.Context) error {
 	if m.DryRun {
 		args = append(args, "-n")
 	}
+	args = append(args, "--") // Do not let the driver parse m.Args as its own flags.
 	args = append(args, m.Args...)
 
 	cmd := exec.CommandContext(ctx, driver, args...)
-- 
2.43.0


From c14171b9bf5a2ac0e8646a1a5201a1f9dc51fa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:35 +0000
Subject: [PATCH 30/35] fix: TopDir honours _dir declarations that are YAML
 numbers, booleans or dates

---
 top.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/top.go b/top.go
index 2708605..f714124 100644
--- a/top.go
+++ b/top.go
@@ -63,15 +63,17 @@ func topDirHelper(dir string) (string, error) {
 	defer rc.Close()
 
 	dec := yaml.NewDecoder(rc)
-	var m map[string]any
+	var m struct {
+		Dir *string `yaml:"_dir"`
+	}
 	if err = dec.Decode(&m); err != nil {
 		return "", errors.Wrapf(err, "reading YAML file in %s", dir)
 	}
 
-	decl, ok := m["_dir"].(string)
-	if !ok {
+	if m.Dir == nil {
 		return dir, nil
 	}
+	decl := *m.Dir
 
 	if filepath.IsAbs(decl) {
 		return "", fmt.Errorf("absolute pathname %s in _dir decl in %s", decl, dir)
-- 
2.43.0


From 4dbf6edbe98e8aae99b7edc1b83634bf4be07e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:45 +0000
Subject: [PATCH 31/35] fix: go.Binary writes its output file where it says
 even if dir is a symlink

The output was given to 'go build -C dir' as a path relative to dir, computed lexically.
When dir is a symlink (or below one), the Go tool resolves that path
relative to the directory that the symlink refers to,
so the binary was written to some other place than the declared output.
---
 golang/go.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/golang/go.go b/golang/go.go
index f2f6587..5826cc5 100644
--- a/golang/go.go
+++ b/golang/go.go
@@ -37,16 +37,17 @@ func Binary(dir, outfile string, flags ...string) (fab.Target, error) {
 		outfile = filepath.Base(dir)
 	}
 
-	relOutfile, err := filepath.Rel(dir, outfile)
+	// A path relative to dir would not work if dir is (in) a symlink to another directory.
+	absOutfile, err := filepath.Abs(outfile)
 	if err != nil {
-		return nil, errors.Wrapf(err, "getting relative path from %s to %s", dir, outfile)
+		return nil, errors.Wrapf(err, "getting absolute path of %s", outfile)
 	}
 
 	deps, err := Deps(dir, false, false)
 	if err != nil {
 		return nil, errors.Wrapf(err, "computing dependencies")
 	}
-	args := append([]string{"build", "-C", dir, "-o", relOutfile}, flags...)
+	args := append([]string{"build", "-C", dir, "-o", absOutfile}, flags...)
 	args = append(args, ".")
 	c := &fab.Command{
 		Cmd:  "go",
-- 
2.43.0


From 289bc3d86d2d93201497748c483c8109923e0ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:13 +0000
Subject: [PATCH 32/35] fix: the default output file of go.Binary is never "."
 or ".."

If dir is "." (or, in YAML, Dir is absent), the default output file was the directory itself:
the binary was written to some file in it that was not declared as an output,
and autocleaning tried to remove the directory.
---
 golang/go.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/golang/go.go b/golang/go.go
index 5826cc5..69db459 100644
--- a/golang/go.go
+++ b/golang/go.go
@@ -34,7 +34,10 @@ import (
 // it defaults to the last path element of Dir.
 func Binary(dir, outfile string, flags ...string) (fab.Target, error) {
 	if outfile == "" {
-		outfile = filepath.Base(dir)
+		var err error
+		if outfile, err = defaultOutfile(dir); err != nil {
+			return nil, err
+		}
 	}
 
 	// A path relative to dir would not work if dir is (in) a symlink to another directory.
@@ -56,6 +59,16 @@ func Binary(dir, outfile string, flags ...string) (fab.Target, error) {
 	return fab.Files(c, deps, []string{outfile}, fab.Autoclean(true)), nil
 }
 
+// defaultOutfile is the last path element of dir,
+// also when dir is something like "." or "..".
+func defaultOutfile(dir string) (string, error) {
+	abs, err := filepath.Abs(dir)
+	if err != nil {
+		return "", errors.Wrapf(err, "getting absolute path of %s", dir)
+	}
+	return filepath.Base(abs), nil
+}
+
 // MustBinary is the same as [Binary] but panics on error.
 func MustBinary(dir, outfile string, flags ...string) fab.Target {
 	target, err := Binary(dir, outfile, flags...)
@@ -78,7 +91,10 @@ func binaryDecoder(con *fab.Controller, node *yaml.Node, dir string) (fab.Target
 
 	out := b.Out
 	if out == "" {
-		out = filepath.Base(b.Dir)
+		var err error
+		if out, err = defaultOutfile(con.JoinPath(dir, b.Dir)); err != nil {
+			return nil, err
+		}
 	}
 
 	flags, err := con.YAMLStringList(&b.Flags, dir)
-- 
2.43.0


From 41091e74edf232622bc73e6f4dfe284fbe062bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:55 +0000
Subject: [PATCH 33/35] fix: identify the types in a target's methods by
 package and name

---
 types.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/types.go b/types.go
index 5a41ffd..ea45f54 100644
--- a/types.go
+++ b/types.go
@@ -117,6 +117,28 @@ func (ch *typeChecker) checkTypesMatch(t types.Type, r reflect.Type) (err error)
 	}
 	ch.seen.Add(pair)
 
+	// A named type matches if it is the type with the same name in the same package.
+	// (Its details do not matter.
+	// They may depend on the version of Go when it is defined in the standard library.)
+	// It does not match any unnamed type.
+	if named, ok := t.(*types.Named); ok {
+		var pkgpath string
+		if pkg := named.Obj().Pkg(); pkg != nil {
+			pkgpath = pkg.Path()
+		}
+		if named.Obj().Name() != r.Name() || pkgpath != r.PkgPath() {
+			return fmt.Errorf("types %s and %s do not match", t, r)
+		}
+		return nil
+	}
+	if _, ok := t.(*types.Basic); ok {
+		if p := r.PkgPath(); p != "" && p != "unsafe" {
+			return fmt.Errorf("types %s and %s do not match", t, r)
+		}
+	} else if r.Name() != "" {
+		return fmt.Errorf("types %s and %s do not match", t, r)
+	}
+
 	switch t := t.(type) {
 	case *types.Array:
 		if r.Kind() != reflect.Array {
@@ -261,12 +283,6 @@ func (ch *typeChecker) checkTypesMatch(t types.Type, r reflect.Type) (err error)
 		}
 		return ch.checkTypesMatch(t.Elem(), r.Elem())
 
-	case *types.Named:
-		if t.Obj().Name() != r.Name() {
-			return fmt.Errorf("names %s and %s do not match", t.Obj().Name(), r.Name())
-		}
-		return ch.checkTypesMatch(t.Underlying(), r)
-
 	case *types.Pointer:
 		if r.Kind() != reflect.Ptr {
 			return fmt.Errorf("kinds Pointer and %v do not match", r.Kind())
-- 
2.43.0


From b5186c08b877a405cefe121c47e679d368de0cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:10 +0000
Subject: [PATCH 34/35] fix: do not ignore the tag of a scalar in Command.Shell

---
 command.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/command.go b/command.go
index 113a518..428fcf7 100644
--- a/command.go
+++ b/command.go
@@ -427,6 +427,9 @@ func commandDecoder(con *Controller, node *yaml.Node, dir string) (Target, error
 		// Do nothing
 
 	case yaml.ScalarNode:
+		if tag := normalizeTag(c.Shell.Tag); tag != "" {
+			return nil, fmt.Errorf("cannot use a scalar with tag !%s as Command.Shell", tag)
+		}
 		shell = c.Shell.Value
 
 	default:
-- 
2.43.0


From 53804090ae715fb55bf85c4c9feec561279ed2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:18 +0000
Subject: [PATCH 35/35] fix: give the driver fab's standard input

---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 31fb25a..35d7f10 100644
--- a/main.go
+++ b/main.go
@@ -110,7 +110,7 @@ func (m *Main) Run(ctx context.Context) error {
 
 	cmd := exec.CommandContext(ctx, driver, args...)
 	cmd.Dir = m.Topdir
-	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
+	cmd.Stdin, cmd.Stdout, cmd.Stderr = os.Stdin, os.Stdout, os.Stderr
 	err = cmd.Run()
 	return errors.Wrapf(err, "running %s %s", driver, strings.Join(args, " "))
 }
-- 
2.43.0

