# A fourth set of refactorings that keep the behaviour: whole functions rewritten in another style.
M = []
def m(name, *edits): M.append((name, '', list(edits)))
R, CO, K, N, FI, Y, CL, T, RG, CX = 'runner.go','command.go','compile.go','main.go','files.go','yaml.go','clean.go','types.go','register.go','context.go'
CT, DH, SQ, DP, GO, PR, DB, TS, TP, GA, CM, DT, RY, AT = 'controller.go','dirhash.go','seq.go','deps.go','golang/go.go','proto/proto.go','sqlite/db.go','ts/tsdecls.go','top.go','gate.go','cmd/fab/main.go','driver.go.tmpl','registry.go','argtarg.go'

# sorting
m('sort-slice-whole', (FI, '	sort.Strings(keys)\n', '	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })\n'))
m('sort-stringslice', (FI, '	sort.Strings(keys)\n', '	sort.Sort(sort.StringSlice(keys))\n'))
m('sort-names', (RG, '	sort.Strings(keys)\n', '	sort.Slice(keys, func(a, b int) bool { return keys[a] < keys[b] })\n'))
m('sort-deps', (GO, '	sort.Strings(slice)\n', '	sort.Sort(sort.StringSlice(slice))\n'))
# json
m('json-named', (FI, '''	s := struct {
		Target     Target   `json:"target"`
		TargetType string   `json:"target_type"`
		In         []string `json:"in,omitempty"`  // [filename, hash, filename, hash, ...]
		Out        []string `json:"out,omitempty"` // [filename, hash, filename, hash, ...]
	}{
		Target:     ft.Target,
		TargetType: tt.String(),
		In:         inHashes,
		Out:        outHashes,
	}
''', '''	var s filesRule
	s.Target = ft.Target
	s.TargetType = tt.String()
	s.In, s.Out = inHashes, outHashes
'''), (FI, 'func (*files) Desc()', '''type filesRule struct {
	Target     Target   `json:"target"`
	TargetType string   `json:"target_type"`
	In         []string `json:"in,omitempty"`  // [filename, hash, filename, hash, ...]
	Out        []string `json:"out,omitempty"` // [filename, hash, filename, hash, ...]
}

func (*files) Desc()'''))
m('json-sprintf-type', (FI, '		TargetType: tt.String(),', '		TargetType: fmt.Sprintf("%T", ft.Target),'), (FI, '	tt := reflect.TypeOf(ft.Target)\n', ''), (FI, '	"reflect"\n', ''))
# files
m('files-run-modes', (FI, '''	db := GetHashDB(ctx)

	if db != nil && !GetForce(ctx) && !GetDryRun(ctx) {''', '''	var (
		db     = GetHashDB(ctx)
		dry    = GetDryRun(ctx)
		record = db != nil && !dry
		check  = record && !GetForce(ctx)
	)

	if check {'''), (FI, '''	if db == nil || GetDryRun(ctx) {
		return nil
	}
''', '''	if !record {
		return nil
	}
'''))
m('files-run-method', (FI, '''	if db != nil && !GetForce(ctx) && !GetDryRun(ctx) {
		h, err := ft.computeHash(con)
		if err != nil {
			return errors.Wrap(err, "computing hash before running subtarget")
		}
		has, err := db.Has(ctx, h)
		if err != nil {
			return errors.Wrap(err, "checking hash db")
		}
		if has {
			if GetVerbose(ctx) {
				con.Indentf("%s is up to date", con.Describe(ft))
			}
			return nil
		}
	}
''', '''	switch upToDate, err := ft.upToDate(ctx, con, db); {
	case err != nil:
		return err
	case upToDate:
		if GetVerbose(ctx) {
			con.Indentf("%s is up to date", con.Describe(ft))
		}
		return nil
	}
'''), (FI, 'func (*files) Desc()', '''func (ft *files) upToDate(ctx context.Context, con *Controller, db HashDB) (bool, error) {
	if db == nil || GetForce(ctx) || GetDryRun(ctx) {
		return false, nil
	}
	h, err := ft.computeHash(con)
	if err != nil {
		return false, errors.Wrap(err, "computing hash before running subtarget")
	}
	has, err := db.Has(ctx, h)
	return has && err == nil, errors.Wrap(err, "checking hash db")
}

func (*files) Desc()'''))
m('files-hash-struct', (FI, '''	inHashes, err := fileHashes(ft.In)
	if err != nil {
		return nil, errors.Wrapf(err, "computing input hash(es) for %s", con.Describe(ft))
	}
	outHashes, err := fileHashes(ft.Out)
	if err != nil {
		return nil, errors.Wrapf(err, "computing output hash(es) for %s", con.Describe(ft))
	}
''', '''	var inHashes, outHashes []string
	for _, part := range []struct {
		what  string
		items []string
		dest  *[]string
	}{
		{"input", ft.In, &inHashes},
		{"output", ft.Out, &outHashes},
	} {
		hashes, err := fileHashes(part.items)
		if err != nil {
			return nil, errors.Wrapf(err, "computing %s hash(es) for %s", part.what, con.Describe(ft))
		}
		*part.dest = hashes
	}
'''))
m('files-item-switch', (FI, '''	info, err := os.Stat(item)
	if errors.Is(err, fs.ErrNotExist) {
		hashes[item] = ""
		return nil
	}
	if err != nil {
		return errors.Wrapf(err, "statting %s", item)
	}

	if info.IsDir() {
''', '''	switch info, err := os.Stat(item); {
	case errors.Is(err, fs.ErrNotExist):
		hashes[item] = ""
		return nil

	case err != nil:
		return errors.Wrapf(err, "statting %s", item)

	case info.IsDir():
'''))
m('files-mode', (FI, '	if info.IsDir() {\n		entries', '	if info.Mode().IsDir() {\n		entries'))
m('files-hashfile-read', (FI, '''	f, err := os.Open(path)
	if err != nil {
		return "", errors.Wrapf(err, "opening %s", path)
	}
	defer f.Close()
	hasher := sha256.New224()
	_, err = io.Copy(hasher, f)
	if err != nil {
		return "", errors.Wrapf(err, "hashing %s", path)
	}
	h := hasher.Sum(nil)
	return hex.EncodeToString(h), nil
''', '''	data, err := os.ReadFile(path)
	if err != nil {
		return "", errors.Wrapf(err, "reading %s", path)
	}
	h := sha256.Sum224(data)
	return hex.EncodeToString(h[:]), nil
'''), (FI, '	"io"\n', ''))
m('files-result-pairs', (FI, '''	result := make([]string, 0, 2*len(keys))
	for _, key := range keys {
		result = append(result, key, hashes[key])
	}

	return result, nil
''', '''	var result []string
	for i := range keys {
		result = append(result, keys[i])
		result = append(result, hashes[keys[i]])
	}
	return result, nil
'''))
m('files-find-for', (FI, '''	for {
		if target, ok := filesRegistry.lookup(name); ok {
			return target
		}

		dir := filepath.Dir(name)
		switch dir {
		case "", ".", "/", name:
			return nil
		}
		name = dir
	}
''', '''	for {
		target, ok := filesRegistry.lookup(name)
		if ok {
			return target
		}
		parent := filepath.Dir(name)
		if parent == "" || parent == "." || parent == "/" || parent == name {
			break
		}
		name = parent
	}
	return nil
'''))
m('files-autoclean-early', (FI, '''		if !autoclean {
			return
		}
		autocleanMu.Lock()
		for _, file := range f.Out {
			autocleanRegistry.Add(file)
		}
		autocleanMu.Unlock()
''', '''		if autoclean {
			autocleanMu.Lock()
			defer autocleanMu.Unlock()
			autocleanRegistry.Add(f.Out...)
		}
'''))
m('files-glob-join', (FI, '		result = append(result, matches...)\n', '		for _, match := range matches {\n			result = append(result, match)\n		}\n'))
m('files-dec-lists', (FI, '''	in, err := con.YAMLFileList(&yfiles.In, dir)
	if err != nil {
		return nil, errors.Wrap(err, "YAML error in Files.In node")
	}

	out, err := con.YAMLFileList(&yfiles.Out, dir)
	if err != nil {
		return nil, errors.Wrap(err, "YAML error in Files.Out node")
	}

	return Files(target, in, out, Autoclean(yfiles.Autoclean)), nil
''', '''	list := func(node *yaml.Node, what string) ([]string, error) {
		l, err := con.YAMLFileList(node, dir)
		return l, errors.Wrapf(err, "YAML error in Files.%s node", what)
	}
	in, err := list(&yfiles.In, "In")
	if err != nil {
		return nil, err
	}
	out, err := list(&yfiles.Out, "Out")
	if err != nil {
		return nil, err
	}

	var opts []FilesOpt
	if yfiles.Autoclean {
		opts = append(opts, Autoclean(true))
	}
	return Files(target, in, out, opts...), nil
'''))
# runner
m('run-outcome-method', (R, '''			con.mu.Lock()
			o, ok := con.ran[addr]
			if !ok {
				o = &outcome{g: newGate(false), target: target}
				con.ran[addr] = o
			}
			con.mu.Unlock()
''', '''			o, ok := con.outcomeOf(addr, target)
'''), (R, 'func (con *Controller) incDepth() {', '''// outcomeOf is the outcome for a target. The bool is false if it did not exist before.
func (con *Controller) outcomeOf(addr targetID, target Target) (*outcome, bool) {
	con.mu.Lock()
	defer con.mu.Unlock()

	if o, ok := con.ran[addr]; ok {
		return o, true
	}
	o := &outcome{g: newGate(false), target: target}
	con.ran[addr] = o
	return o, false
}

func (con *Controller) incDepth() {'''))
m('run-first', (R, '''			if ok {
				// This target was launched in a different goroutine.
				// Wait for it to produce a result.
				o.g.wait()
				errs[i] = o.err
			} else {
				// This target was not previously launched,
				// so run it and then open its "outcome gate."
				if verbose {
					con.Indentf("Running %s", con.Describe(target))
				}
				err := target.Run(ctx, con)
				if err != nil {
					err = errors.Wrapf(err, "running %s", con.Describe(target))
				}
				errs[i] = err
				o.err = err
				o.g.set(true)
			}
''', '''			if !ok {
				if verbose {
					con.Indentf("Running %s", con.Describe(target))
				}
				if err := target.Run(ctx, con); err != nil {
					o.err = errors.Wrapf(err, "running %s", con.Describe(target))
				}
				o.g.set(true)
			} else {
				o.g.wait()
			}
			errs[i] = o.err
'''))
m('run-named-func', (R, '''		go func() {
			defer wg.Done()

			con.mu.Lock()''', '''		runOne := func() {
			defer wg.Done()

			con.mu.Lock()'''), (R, '''				o.g.set(true)
			}
		}()
	}
''', '''				o.g.set(true)
			}
		}
		go runOne()
	}
'''))
m('run-chan', (R, '''		wg      sync.WaitGroup
	)
''', '''		wg      sync.WaitGroup
	)
	fail := func(i int, err error) { errs[i] = err }
'''), (R, '''		if err != nil {
			errs[i] = err
			continue
		}

		wg.Add(1)''', '''		if err != nil {
			fail(i, err)
			continue
		}

		wg.Add(1)'''))
m('gate-loop', (GA, '''	g.c.L.Lock()
	for !g.open {
		g.c.Wait()
	}
	g.c.L.Unlock()
''', '''	g.c.L.Lock()
	defer g.c.L.Unlock()
	for {
		if g.open {
			return
		}
		g.c.Wait()
	}
'''))
m('dec-depth', (R, '''	con.depth--
	if con.depth < 0 {
		con.depth = 0
	}
''', '''	if con.depth > 0 {
		con.depth--
	}
'''))
# command
m('cmd-files-struct', (CO, '''	if stdoutFile != "" {
		if stdoutAppend {
			f, openErr := os.OpenFile(stdoutFile, os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0644)
			if openErr != nil {
				return errors.Wrapf(openErr, "opening %s for appending", stdoutFile)
			}
			defer func() {
				closeErr := f.Close()
				if err == nil {
					err = errors.Wrapf(closeErr, "closing stdout file %s", stdoutFile)
				}
			}()
			cmd.Stdout = f
		} else {
			f, openErr := os.Create(stdoutFile)
			if openErr != nil {
				return errors.Wrapf(openErr, "opening %s for writing", stdoutFile)
			}
			defer func() {
				closeErr := f.Close()
				if err == nil {
					err = errors.Wrapf(closeErr, "closing stdout file %s", stdoutFile)
				}
			}()
			cmd.Stdout = f
		}
	}
''', '''	if stdoutFile != "" {
		flags := os.O_WRONLY | os.O_CREATE
		if stdoutAppend {
			flags |= os.O_APPEND
		} else {
			flags |= os.O_TRUNC
		}
		f, openErr := os.OpenFile(stdoutFile, flags, 0644)
		if openErr != nil {
			return errors.Wrapf(openErr, "opening %s", stdoutFile)
		}
		defer func() {
			if closeErr := f.Close(); closeErr != nil && err == nil {
				err = errors.Wrapf(closeErr, "closing stdout file %s", stdoutFile)
			}
		}()
		cmd.Stdout = f
	}
'''))
m('cmd-close-helper', (CO, '''				defer func() {
					closeErr := closer.Close()
					if err == nil {
						err = errors.Wrap(closeErr, "closing stdout")
					}
				}()
''', '''				defer closeInto(&err, closer, "stdout")
'''), (CO, '''				defer func() {
					closeErr := closer.Close()
					if err == nil {
						err = errors.Wrap(closeErr, "closing stderr")
					}
				}()
''', '''				defer closeInto(&err, closer, "stderr")
'''), (CO, '// Desc implements Target.Desc.\nfunc (*Command) Desc', '''func closeInto(err *error, c io.Closer, what string) {
	closeErr := c.Close()
	if *err == nil {
		*err = errors.Wrapf(closeErr, "closing %s", what)
	}
}

// Desc implements Target.Desc.
func (*Command) Desc'''))
m('cmd-default-writer', (CO, '''	if GetVerbose(ctx) {
		if cmd.Stdout == nil {
			cmd.Stdout = con.IndentingCopier(os.Stdout, "    ")
		}
		if cmd.Stderr == nil {
			cmd.Stderr = con.IndentingCopier(os.Stderr, "    ")
		}
		con.Indentf("  Running command %s", cmd)
	} else {
		if cmd.Stdout == nil {
			cmd.Stdout = &buf
		}
		if cmd.Stderr == nil {
			cmd.Stderr = &buf
		}
	}
''', '''	verbose := GetVerbose(ctx)
	fallback := func(w io.Writer) io.Writer {
		if verbose {
			return con.IndentingCopier(w, "    ")
		}
		return &buf
	}
	if cmd.Stdout == nil {
		cmd.Stdout = fallback(os.Stdout)
	}
	if cmd.Stderr == nil {
		cmd.Stderr = fallback(os.Stderr)
	}
	if verbose {
		con.Indentf("  Running command %s", cmd)
	}
'''))
m('cmd-err-tail', (CO, '''	err = cmd.Run()
	if err != nil && buf.Len() > 0 {
		err = CommandErr{
			Err:    err,
			Output: buf.Bytes(),
		}
	}
	return err
''', '''	if err = cmd.Run(); err == nil {
		return nil
	}
	if output := buf.Bytes(); len(output) > 0 {
		return CommandErr{Err: err, Output: output}
	}
	return err
'''))
m('cmd-redirect-table', (CO, '''	switch c.Stdin {
	case "$stdin":
		result.Stdin = os.Stdin

	case "":
		// do nothing

	default:
		result.StdinFile = con.JoinPath(dir, c.Stdin)
	}
''', '''	if c.Stdin == "$stdin" {
		result.Stdin = os.Stdin
	} else if c.Stdin != "" {
		result.StdinFile = con.JoinPath(dir, c.Stdin)
	}
'''))
m('cmd-output-helper', (CO, '''	switch c.Stdout {
	case "$stdout":
		result.Stdout = os.Stdout

	case "$stderr":
		result.Stdout = os.Stderr // who am I to judge

	case "$discard":
		result.Stdout = io.Discard

	case "$indent":
		result.StdoutFn = deferredIndent(os.Stdout)

	case "$verbose":
		result.StdoutFn = maybeIndent(os.Stdout)

	case "":
		// do nothing

	default:
		result.StdoutFile = outputFile(con, c.Stdout, dir, forceAppend)
	}

	switch c.Stderr {
	case "$stdout":
		result.Stderr = os.Stdout

	case "$stderr":
		result.Stderr = os.Stderr

	case "$discard":
		result.Stderr = io.Discard

	case "$indent":
		result.StderrFn = deferredIndent(os.Stderr)

	case "$verbose":
		result.StderrFn = maybeIndent(os.Stderr)

	case "":
		// do nothing

	default:
		result.StderrFile = outputFile(con, c.Stderr, dir, forceAppend)
	}

	return result
}
''', '''	var file string
	if result.Stdout, result.StdoutFn, file = redirection(c.Stdout, os.Stdout); file != "" {
		result.StdoutFile = outputFile(con, file, dir, forceAppend)
	}
	if result.Stderr, result.StderrFn, file = redirection(c.Stderr, os.Stderr); file != "" {
		result.StderrFile = outputFile(con, file, dir, forceAppend)
	}

	return result
}

// redirection interprets a Stdout or Stderr field. The third result is set if it names a file.
func redirection(s string, std *os.File) (io.Writer, func(context.Context, *Controller) io.Writer, string) {
	switch s {
	case "$stdout":
		return os.Stdout, nil, ""
	case "$stderr":
		return os.Stderr, nil, ""
	case "$discard":
		return io.Discard, nil, ""
	case "$indent":
		return nil, deferredIndent(std), ""
	case "$verbose":
		return nil, maybeIndent(std), ""
	}
	return nil, nil, s
}
'''))
m('cmd-shell-loop', (CO, '''			targets, err := slices.Mapx(strs, func(idx int, str string) (Target, error) {
				return c.toTarget(con, str, dir, args, env, idx > 0), nil
			})
			return Seq(targets...), err
''', '''			targets := make([]Target, 0, len(strs))
			for idx, str := range strs {
				targets = append(targets, c.toTarget(con, str, dir, args, env, idx > 0))
			}
			return Seq(targets...), nil
'''), (CO, '	"github.com/bobg/go-generics/v2/slices"\n', ''))
# compile
m('compile-run-helper', (K, '''	cmd := exec.CommandContext(ctx, "go", "mod", "init", "x")
	cmd.Dir = tmpdir
	output, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("error in go mod init fab: %w; output follows\\n%s", err, string(output))
	}
''', '''	if err = goCommand(ctx, tmpdir, "mod", "init", "x"); err != nil {
		return err
	}
'''), (K, '''	cmd = exec.CommandContext(ctx, "go", "mod", "tidy")
	cmd.Dir = tmpdir
	output, err = cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("error in go mod tidy: %w; output follows\\n%s", err, string(output))
	}

	cmd = exec.CommandContext(ctx, "go", "build")
	cmd.Dir = tmpdir
	output, err = cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("error in go build: %w; output follows\\n%s", err, string(output))
	}
''', '''	for _, args := range [][]string{{"mod", "tidy"}, {"build"}} {
		if err = goCommand(ctx, tmpdir, args...); err != nil {
			return err
		}
	}
'''), (K, '''func copyFile(''', '''func goCommand(ctx context.Context, dir string, args ...string) error {
	cmd := exec.CommandContext(ctx, "go", args...)
	cmd.Dir = dir
	output, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("error in go %s: %w; output follows\\n%s", strings.Join(args, " "), err, string(output))
	}
	return nil
}

func copyFile('''))
m('compile-targets-func', (K, '''	for _, ident := range idents {
		if !ast.IsExported(ident) {
			continue
		}
		// Types and constants may implement Target but are not targets.
		obj, ok := scope.Lookup(ident).(*types.Var)
		if !ok {
			continue
		}
		if err := checkImplementsTarget(obj.Type()); err != nil {
			continue
		}
		targets[ident] = &targetPair{Name: ident, Doc: `""`}
	}
''', '''	isTarget := func(ident string) bool {
		obj, ok := scope.Lookup(ident).(*types.Var)
		return ok && obj.Exported() && checkImplementsTarget(obj.Type()) == nil
	}
	for _, ident := range idents {
		if isTarget(ident) {
			targets[ident] = &targetPair{Name: ident, Doc: `""`}
		}
	}
'''))
m('compile-tmpl', (K, '''	tmpl := template.New("")
	_, err = tmpl.Parse(driverStr)
	if err != nil {''', '''	tmpl, err := template.New("").Parse(driverStr)
	if err != nil {'''))
m('compile-buffer', (K, '''	driverOut, err := os.Create(filepath.Join(tmpdir, "driver.go"))
	if err != nil {
		return errors.Wrap(err, "creating driver.go in temp dir")
	}
	defer driverOut.Close()

''', ''), (K, '''	if err = tmpl.Execute(driverOut, data); err != nil {
		return errors.Wrap(err, "rendering driver.go template")
	}
	if err = driverOut.Close(); err != nil {
		return errors.Wrap(err, "closing driver.go")
	}
''', '''	var driverSrc strings.Builder
	if err = tmpl.Execute(&driverSrc, data); err != nil {
		return errors.Wrap(err, "rendering driver.go template")
	}
	if err = os.WriteFile(filepath.Join(tmpdir, "driver.go"), []byte(driverSrc.String()), 0644); err != nil {
		return errors.Wrap(err, "writing driver.go")
	}
'''))
# main
m('main-dirs', (N, '''	for _, dir := range []*string{&m.Topdir, &m.Fabdir} {
		abs, err := filepath.Abs(*dir)
		if err != nil {
			return errors.Wrapf(err, "making %s absolute", *dir)
		}
		*dir = abs
	}
''', '''	if err := makeAbs(&m.Topdir, &m.Fabdir); err != nil {
		return err
	}
'''), (N, 'var errNoDriver = ', '''func makeAbs(dirs ...*string) error {
	for _, dir := range dirs {
		abs, err := filepath.Abs(*dir)
		if err != nil {
			return errors.Wrapf(err, "making %s absolute", *dir)
		}
		*dir = abs
	}
	return nil
}

var errNoDriver = '''))
m('main-args-method', (N, '''	args := []string{"-fab", m.Fabdir, "-top", m.Topdir}
	if m.Verbose {
		args = append(args, "-v")
	}
	if m.List {
		args = append(args, "-list")
	}
	if m.Force {
		args = append(args, "-f")
	}
	if m.DryRun {
		args = append(args, "-n")
	}
	args = append(args, "--") // Do not let the driver parse m.Args as its own flags.
	args = append(args, m.Args...)
''', '''	args := m.driverArgs()
'''), (N, 'var errNoDriver = ', '''func (m *Main) driverArgs() []string {
	result := []string{"-fab", m.Fabdir, "-top", m.Topdir}
	for _, f := range []struct {
		name string
		set  bool
	}{
		{"-v", m.Verbose}, {"-list", m.List}, {"-f", m.Force}, {"-n", m.DryRun},
	} {
		if f.set {
			result = append(result, f.name)
		}
	}
	return append(append(result, "--"), m.Args...)
}

var errNoDriver = '''))
m('main-driver-paths', (N, '''	var (
		hashfile    = filepath.Join(driverdir, "hash")
		driver      = filepath.Join(driverdir, "fab.bin")
		versionfile = filepath.Join(driverdir, fabVersionBasename)
		compile     bool
''', '''	inDriverDir := func(base string) string { return filepath.Join(driverdir, base) }
	var (
		hashfile    = inDriverDir("hash")
		driver      = inDriverDir("fab.bin")
		versionfile = inDriverDir(fabVersionBasename)
		compile     bool
'''))
m('main-install', (N, '''	// Remove the old hash before replacing the driver and write the new one last.
	// Otherwise, after an interruption, the hash could vouch for the wrong driver.
	if err = os.Remove(hashfile); err != nil && !errors.Is(err, fs.ErrNotExist) {
		return "", errors.Wrapf(err, "removing %s", hashfile)
	}
	if err = CompilePackage(ctx, pkg, driver); err != nil {
		return "", errors.Wrapf(err, "compiling driver %s", driver)
	}
''', '''	if err = replaceDriver(ctx, pkg, driver, hashfile); err != nil {
		return "", err
	}
'''), (N, 'func (m *Main) checkVersion(', '''// replaceDriver removes the old hash before replacing the driver.
// Otherwise, after an interruption, the hash could vouch for the wrong driver.
func replaceDriver(ctx context.Context, pkg *packages.Package, driver, hashfile string) error {
	err := os.Remove(hashfile)
	if errors.Is(err, fs.ErrNotExist) {
		err = nil
	}
	if err != nil {
		return errors.Wrapf(err, "removing %s", hashfile)
	}
	return errors.Wrapf(CompilePackage(ctx, pkg, driver), "compiling driver %s", driver)
}

func (m *Main) checkVersion('''))
# yaml
m('yaml-target-slash', (Y, '''	// TODO: try to resolve now?
	return &deferredResolutionTarget{Name: qname}, nil
}
''', '''	return deferred(qname), nil
}

// TODO: try to resolve now?
func deferred(name string) *deferredResolutionTarget {
	dt := new(deferredResolutionTarget)
	dt.Name = name
	return dt
}
'''))
m('yaml-reading-method', (Y, '''	con.mu.Lock()
	con.reading[rel]++
	con.mu.Unlock()
	defer func() {
		con.mu.Lock()
		con.reading[rel]--
		con.mu.Unlock()
	}()
''', '''	con.countReading(rel, 1)
	defer con.countReading(rel, -1)
'''), (Y, 'func openFabYAML(', '''func (con *Controller) countReading(dir string, delta int) {
	con.mu.Lock()
	defer con.mu.Unlock()
	con.reading[dir] += delta
}

func openFabYAML('''))
m('yaml-children', (Y, '''	for _, node := range nodes {
		tag := normalizeTag(node.Tag)

		if tag == "" && node.Kind == yaml.ScalarNode {
			result = append(result, node.Value)
			continue
		}

		if tag == "" {
			return nil, BadYAMLNodeKindError{Got: node.Kind, Want: yaml.ScalarNode}
		}

		fn, ok := yamlStringListRegistry.lookup(tag)
		if !ok {
			return nil, UnknownStringListTagError{Tag: tag}
		}

		strs, err := fn(con, node, dir)
		if err != nil {
			return nil, err
		}
		result = append(result, strs...)
	}
''', '''	for i := range nodes {
		strs, err := con.stringsOf(nodes[i], dir)
		if err != nil {
			return nil, err
		}
		result = append(result, strs...)
	}
'''), (Y, 'type UnknownStringListTagError struct', '''func (con *Controller) stringsOf(node *yaml.Node, dir string) ([]string, error) {
	tag := normalizeTag(node.Tag)
	if tag != "" {
		fn, ok := yamlStringListRegistry.lookup(tag)
		if !ok {
			return nil, UnknownStringListTagError{Tag: tag}
		}
		return fn(con, node, dir)
	}
	if node.Kind != yaml.ScalarNode {
		return nil, BadYAMLNodeKindError{Got: node.Kind, Want: yaml.ScalarNode}
	}
	return []string{node.Value}, nil
}

type UnknownStringListTagError struct'''))
m('yaml-open-names', (Y, '''	filename := filepath.Join(dir, "fab.yaml")
	f, err := os.Open(filename)
	if errors.Is(err, fs.ErrNotExist) {
		filename = filepath.Join(dir, "fab.yml")
		f, err = os.Open(filename)
	}
	return f, err
''', '''	var (
		f   *os.File
		err error
	)
	for _, base := range []string{"fab.yaml", "fab.yml"} {
		f, err = os.Open(filepath.Join(dir, base))
		if !errors.Is(err, fs.ErrNotExist) {
			break
		}
	}
	return f, err
'''))
m('yaml-resolve-cached', (Y, '''	if dt.Target == nil {
		target, _ := con.RegistryTarget(dt.Name)
		if target == nil {
			return nil, fmt.Errorf("cannot resolve target %s", dt.Name)
		}
		dt.Target = target
	}

	return dt.Target, nil
''', '''	if dt.Target != nil {
		return dt.Target, nil
	}
	var ok bool
	if dt.Target, _ = con.RegistryTarget(dt.Name); dt.Target != nil {
		ok = true
	}
	if !ok {
		return nil, fmt.Errorf("cannot resolve target %s", dt.Name)
	}
	return dt.Target, nil
'''))
# sqlite
m('db-exec', (DB, '''		res, err := db.db.ExecContext(ctx, q, now.Unix(), h)
		if err != nil {
			return false, errors.Wrap(err, "updating database")
		}
		aff, err := res.RowsAffected()
		return aff > 0, errors.Wrap(err, "counting affected rows")
''', '''		aff, err := db.exec(ctx, q, now.Unix(), h)
		if err != nil {
			return false, errors.Wrap(err, "updating database")
		}
		return aff != 0, nil
'''), (DB, '// Has tells', '''func (db *DB) exec(ctx context.Context, q string, args ...any) (int64, error) {
	res, err := db.db.ExecContext(ctx, q, args...)
	if err != nil {
		return 0, err
	}
	return res.RowsAffected()
}

// Has tells'''))
m('db-evict-method', (DB, '''	if db.keep > 0 {
		const q2 = `DELETE FROM hashes WHERE unix_secs < $1`
		when := now.Add(-db.keep).Unix()
		_, err = db.db.ExecContext(ctx, q2, when)
		if err != nil {
			return errors.Wrap(err, "evicting expired database entries")
		}
	}
	return nil
}
''', '''	return errors.Wrap(db.evict(ctx, now), "evicting expired database entries")
}

func (db *DB) evict(ctx context.Context, now time.Time) error {
	if db.keep <= 0 {
		return nil
	}
	oldest := now.Add(-db.keep)
	_, err := db.db.ExecContext(ctx, `DELETE FROM hashes WHERE unix_secs < $1`, oldest.Unix())
	return err
}
'''))
# proto, golang
m('proto-visitor', (PR, '''func protodeps(r io.Reader, includes []string, result set.Of[string]) error {
	sc := bufio.NewScanner(r)
	for sc.Scan() {
		m := importRegex.FindStringSubmatch(sc.Text())
		if len(m) == 0 {
			continue
		}
		if err := protodepsImport(m[2], includes, result); err != nil {
			return err
		}
	}
	return sc.Err()
}
''', '''func protodeps(r io.Reader, includes []string, result set.Of[string]) error {
	sc := bufio.NewScanner(r)
	for sc.Scan() {
		if imp, ok := importIn(sc.Text()); ok {
			if err := protodepsImport(imp, includes, result); err != nil {
				return err
			}
		}
	}
	return sc.Err()
}

func importIn(line string) (string, bool) {
	m := importRegex.FindStringSubmatch(line)
	if m == nil {
		return "", false
	}
	return m[2], true
}
'''))
m('proto-open-helper', (PR, '''		f, err := os.Open(full)
		if errors.Is(err, fs.ErrNotExist) {
			continue
		}
		if err != nil {
			return errors.Wrapf(err, "opening %s", full)
		}
		defer f.Close()

		result.Add(full)
		return protodeps(f, includes, result)
	}
	return nil
}
''', '''		if found, err := protodepsFile(full, includes, result); found || err != nil {
			return err
		}
	}
	return nil
}

func protodepsFile(full string, includes []string, result set.Of[string]) (bool, error) {
	f, err := os.Open(full)
	if err != nil {
		if errors.Is(err, fs.ErrNotExist) {
			return false, nil
		}
		return false, errors.Wrapf(err, "opening %s", full)
	}
	defer f.Close()

	result.Add(full)
	return true, protodeps(f, includes, result)
}
'''))
m('golang-errs', (GO, '''	for _, pkg := range pkgs {
		for _, e := range pkg.Errors {
			err = errors.Join(err, e)
		}
	}
	if err != nil {
		return nil, errors.Wrapf(err, "after loading from %s", dir)
	}
''', '''	if err = loadErrors(pkgs); err != nil {
		return nil, errors.Wrapf(err, "after loading from %s", dir)
	}
'''), (GO, 'func gopkgAdd(', '''func loadErrors(pkgs []*packages.Package) (err error) {
	for _, pkg := range pkgs {
		for i := range pkg.Errors {
			err = errors.Join(err, pkg.Errors[i])
		}
	}
	return err
}

func gopkgAdd('''))
m('golang-binary-cmd', (GO, '''	args := append([]string{"build", "-C", dir, "-o", absOutfile}, flags...)
	args = append(args, ".")
	c := &fab.Command{
		Cmd:  "go",
		Args: args,
	}
	return''', '''	c := &fab.Command{Cmd: "go"}
	c.Args = append(c.Args, "build", "-C", dir, "-o", absOutfile)
	c.Args = append(c.Args, flags...)
	c.Args = append(c.Args, ".")
	return'''))
# top, controller, registry
m('top-loop', (TP, '''		parent := filepath.Dir(dir)
		if parent == dir {
			return "", fmt.Errorf("top directory not found")
		}
		dir = parent
	}
}
''', '''		if parent := filepath.Dir(dir); parent != dir {
			dir = parent
			continue
		}
		return "", fmt.Errorf("top directory not found")
	}
}
'''))
m('top-hasfab', (TP, '''		info, err := os.Stat(filepath.Join(dir, "_fab"))
		if err == nil && info.IsDir() {
			return dir, nil
		}
		if err != nil && !errors.Is(err, fs.ErrNotExist) {
			return "", errors.Wrapf(err, "statting %s/_fab", dir)
		}
''', '''		found, err := hasFabDir(dir)
		if err != nil {
			return "", err
		}
		if found {
			return dir, nil
		}
'''), (TP, 'func topDirHelper(', '''func hasFabDir(dir string) (bool, error) {
	info, err := os.Stat(filepath.Join(dir, "_fab"))
	if errors.Is(err, fs.ErrNotExist) {
		return false, nil
	}
	if err != nil {
		return false, errors.Wrapf(err, "statting %s/_fab", dir)
	}
	return info.IsDir(), nil
}

func topDirHelper('''))
m('con-parse-helper', (CT, '''	if len(args) > 1 && strings.HasPrefix(args[1], "-") {
		// Just one target, and remaining args are arguments for that target.
		if target, _ := con.RegistryTarget(args[0]); target != nil {
			targets = append(targets, ArgTarget(target, args[1:]...))
		} else {
			unknown = append(unknown, args[0])
		}
	} else {
		for _, arg := range args {
			if target, _ := con.RegistryTarget(arg); target != nil {
				targets = append(targets, target)
			} else {
				unknown = append(unknown, arg)
			}
		}
	}
''', '''	add := func(name string, wrap func(Target) Target) {
		target, _ := con.RegistryTarget(name)
		if target == nil {
			unknown = append(unknown, name)
			return
		}
		targets = append(targets, wrap(target))
	}

	if len(args) > 1 && strings.HasPrefix(args[1], "-") {
		// Just one target, and remaining args are arguments for that target.
		add(args[0], func(t Target) Target { return ArgTarget(t, args[1:]...) })
	} else {
		for _, arg := range args {
			add(arg, func(t Target) Target { return t })
		}
	}
'''))
m('con-parse-early', (CT, '''	switch len(unknown) {
	case 0:
		return targets, nil
	case 1:
		return nil, fmt.Errorf("unknown target %s", unknown[0])
	default:
		return nil, fmt.Errorf("unknown targets: %s", strings.Join(unknown, " "))
	}
''', '''	if n := len(unknown); n > 0 {
		plural := ""
		if n > 1 {
			plural = "s:"
		}
		return nil, fmt.Errorf("unknown target%s %s", plural, strings.Join(unknown, " "))
	}
	return targets, nil
'''))
m('con-indent-helper', (R, '''	con.mu.Lock()
	depth := con.depth
	con.mu.Unlock()

	if depth > 0 {
		fmt.Fprint(w, strings.Repeat("  ", int(depth)))
	}
''', '''	fmt.Fprint(w, con.indentation())
'''), (R, '''	con.mu.Lock()
	depth := con.depth
	con.mu.Unlock()

	return &indentingCopier{
		w:      bufio.NewWriter(w),
		indent: strings.Repeat("  ", int(depth)) + prefix,
''', '''	return &indentingCopier{
		w:      bufio.NewWriter(w),
		indent: con.indentation() + prefix,
'''), (R, 'type indentingCopier struct', '''func (con *Controller) indentation() string {
	con.mu.Lock()
	defer con.mu.Unlock()
	return strings.Repeat("  ", con.depth)
}

type indentingCopier struct'''))
m('copier-helper', (R, '''			if c.sawcr {
				if err := c.newline(); err != nil {
					return n, err
				}
			}
			if c.bol {
				_, err := c.w.WriteString(c.indent)
				if err != nil {
					return n, err
				}
			}
			c.bol = false
			if err := c.w.WriteByte(b); err != nil {
				return n, err
			}
''', '''			if err := c.plain(b); err != nil {
				return n, err
			}
'''), (R, 'func (c *indentingCopier) newline() error {', '''func (c *indentingCopier) plain(b byte) error {
	if c.sawcr {
		if err := c.newline(); err != nil {
			return err
		}
	}
	if c.bol {
		if _, err := c.w.WriteString(c.indent); err != nil {
			return err
		}
		c.bol = false
	}
	return c.w.WriteByte(b)
}

func (c *indentingCopier) newline() error {'''))
m('clean-remove-func', (CL, '''	for _, f := range files {
		err := os.Remove(f)
		if errors.Is(err, fs.ErrNotExist) {
			continue
		}
		if err != nil {
			return errors.Wrapf(err, "removing %s", f)
		}
	}
	return nil
}
''', '''	for _, f := range files {
		if err := removeFile(f); err != nil {
			return err
		}
	}
	return nil
}

func removeFile(f string) error {
	if err := os.Remove(f); err != nil && !errors.Is(err, fs.ErrNotExist) {
		return errors.Wrapf(err, "removing %s", f)
	}
	return nil
}
'''))
m('clean-list', (CL, '''	files := append([]string(nil), c.Files...) // a copy, since it gets sorted below
	if c.Autoclean {
		autocleanMu.Lock()
		autocleanFiles := autocleanRegistry.Slice()
		files = append(files, autocleanFiles...)
		autocleanMu.Unlock()
	}
	sort.Strings(files)
''', '''	files := make([]string, len(c.Files))
	copy(files, c.Files)
	if c.Autoclean {
		files = append(files, registeredFiles()...)
	}
	sort.Strings(files)
'''), (CL, 'func cleanDecoder(', '''func registeredFiles() []string {
	autocleanMu.Lock()
	defer autocleanMu.Unlock()
	return autocleanRegistry.Slice()
}

func cleanDecoder('''))
