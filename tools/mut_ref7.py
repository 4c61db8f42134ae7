# A seventh set of refactorings that keep the behaviour.
M = []
def m(name, *edits): M.append((name, '', list(edits)))
R, CO, K, N, FI, Y, CL, T, RG, CX = 'runner.go','command.go','compile.go','main.go','files.go','yaml.go','clean.go','types.go','register.go','context.go'
CT, DH, SQ, DP, GO, PR, DB, TS, TP, GA, CM, DT, RY, AT, AL = 'controller.go','dirhash.go','seq.go','deps.go','golang/go.go','proto/proto.go','sqlite/db.go','ts/tsdecls.go','top.go','gate.go','cmd/fab/main.go','driver.go.tmpl','registry.go','argtarg.go','all.go'

m('run-addrs-first', (R, '''		addr, err := targetAddr(target)
		if err != nil {
			errs[i] = err
			continue
		}

		wg.Add(1)
		go func() {
			defer wg.Done()

			con.mu.Lock()
			o, ok := con.ran[addr]
			if !ok {
				o = &outcome{g: newGate(false), target: target}
				con.ran[addr] = o
			}
			con.mu.Unlock()
''', '''		addr, err := targetAddr(target)
		if err != nil {
			errs[i] = err
			continue
		}

		wg.Add(1)
		go func() {
			defer wg.Done()

			o, ok := func() (*outcome, bool) {
				con.mu.Lock()
				defer con.mu.Unlock()

				if o, ok := con.ran[addr]; ok {
					return o, true
				}
				o := &outcome{g: newGate(false), target: target}
				con.ran[addr] = o
				return o, false
			}()
'''))
m('run-goarg', (R, '''		go func() {
			defer wg.Done()

			con.mu.Lock()''', '''		go func(i int, target Target) {
			defer wg.Done()

			con.mu.Lock()'''), (R, '''				o.err = err
				o.g.set(true)
			}
		}()''', '''				o.err = err
				o.g.set(true)
			}
		}(i, target)'''))
m('run-defer-open', (R, '''				err := target.Run(ctx, con)
				if err != nil {
					err = errors.Wrapf(err, "running %s", con.Describe(target))
				}
				errs[i] = err
				o.err = err
				o.g.set(true)
''', '''				defer o.g.set(true)
				if err := target.Run(ctx, con); err != nil {
					o.err = errors.Wrapf(err, "running %s", con.Describe(target))
				}
				errs[i] = o.err
'''))
m('run-collect', (R, '''	return errors.Join(errs...)
}

// Indentf''', '''	var nonnil []error
	for _, err := range errs {
		if err != nil {
			nonnil = append(nonnil, err)
		}
	}
	if len(nonnil) == 0 {
		return nil
	}
	return errors.Join(nonnil...)
}

// Indentf'''))
m('files-run-order', (FI, '''	db := GetHashDB(ctx)

	if db != nil && !GetForce(ctx) && !GetDryRun(ctx) {
		h, err := ft.computeHash(con)
		if err != nil {
			return errors.Wrap(err, "computing hash before running subtarget")
		}
		has, err := db.Has(ctx, h)
		if err != nil {
			return errors.Wrap(err, "checking hash db")
		}
		if has {
			if GetVerbose(ctx) {
				con.Indentf("%s is up to date", con.Describe(ft))
			}
			return nil
		}
	}

	if err := con.Run(ctx, ft.Target); err != nil {
		return errors.Wrap(err, "running subtarget")
	}

	if db == nil || GetDryRun(ctx) {
		return nil
	}
''', '''	var (
		db  = GetHashDB(ctx)
		dry = GetDryRun(ctx)
	)
	if db == nil || dry {
		err := con.Run(ctx, ft.Target)
		return errors.Wrap(err, "running subtarget")
	}

	if !GetForce(ctx) {
		h, err := ft.computeHash(con)
		if err != nil {
			return errors.Wrap(err, "computing hash before running subtarget")
		}
		switch has, err := db.Has(ctx, h); {
		case err != nil:
			return errors.Wrap(err, "checking hash db")
		case has:
			if GetVerbose(ctx) {
				con.Indentf("%s is up to date", con.Describe(ft))
			}
			return nil
		}
	}

	if err := con.Run(ctx, ft.Target); err != nil {
		return errors.Wrap(err, "running subtarget")
	}
'''))
m('files-uptodate', (FI, '''	if db != nil && !GetForce(ctx) && !GetDryRun(ctx) {
		h, err := ft.computeHash(con)
		if err != nil {
			return errors.Wrap(err, "computing hash before running subtarget")
		}
		has, err := db.Has(ctx, h)
		if err != nil {
			return errors.Wrap(err, "checking hash db")
		}
		if has {
			if GetVerbose(ctx) {
				con.Indentf("%s is up to date", con.Describe(ft))
			}
			return nil
		}
	}
''', '''	uptodate, err := ft.uptodate(ctx, con, db)
	if err != nil {
		return err
	}
	if uptodate {
		if GetVerbose(ctx) {
			con.Indentf("%s is up to date", con.Describe(ft))
		}
		return nil
	}
'''), (FI, '''// Desc implements Target.Desc.
func (*files)''', '''func (ft *files) uptodate(ctx context.Context, con *Controller, db HashDB) (bool, error) {
	if db == nil || GetForce(ctx) || GetDryRun(ctx) {
		return false, nil
	}
	h, err := ft.computeHash(con)
	if err != nil {
		return false, errors.Wrap(err, "computing hash before running subtarget")
	}
	has, err := db.Has(ctx, h)
	return has, errors.Wrap(err, "checking hash db")
}

// Desc implements Target.Desc.
func (*files)'''))
m('files-contains', (FI, '''	for _, parent := range parents {
		if parent == target {
			return fmt.Errorf("target %s contains itself", con.Describe(target))
		}
	}
	parents = append(parents[:len(parents):len(parents)], target)
''', '''	for i := len(parents) - 1; i >= 0; i-- {
		if parents[i] == target {
			return fmt.Errorf("target %s contains itself", con.Describe(target))
		}
	}
	chain := make([]Target, 0, len(parents)+1)
	chain = append(chain, parents...)
	chain = append(chain, target)
'''), (FI, 'resolveReferences(con, subtarget, parents)', 'resolveReferences(con, subtarget, chain)'))
m('files-dirs', (FI, '''	for {
		if target, ok := filesRegistry.lookup(name); ok {
			return target
		}

		dir := filepath.Dir(name)
		switch dir {
		case "", ".", "/", name:
			return nil
		}
		name = dir
	}
''', '''	if target, ok := filesRegistry.lookup(name); ok {
		return target
	}
	switch dir := filepath.Dir(name); dir {
	case "", ".", "/", name:
		return nil
	default:
		return findInFilesRegistry(dir)
	}
'''))
m('files-autoclean-defer', (FI, '''		autocleanMu.Lock()
		for _, file := range f.Out {
			autocleanRegistry.Add(file)
		}
		autocleanMu.Unlock()
''', '''		autocleanMu.Lock()
		defer autocleanMu.Unlock()
		autocleanRegistry.Add(f.Out...)
'''))
m('files-hash-insert', (FI, '''	result := make([]string, 0, 2*len(keys))
	for _, key := range keys {
		result = append(result, key, hashes[key])
	}
''', '''	var result []string
	for _, key := range keys {
		result = append(result, key)
		result = append(result, hashes[key])
	}
'''))
m('compile-exported', (K, '''	for _, ident := range idents {
		if !ast.IsExported(ident) {
			continue
		}
		// Types and constants may implement Target but are not targets.
		obj, ok := scope.Lookup(ident).(*types.Var)
		if !ok {
			continue
		}
		if err := checkImplementsTarget(obj.Type()); err != nil {
			continue
		}
		targets[ident] = &targetPair{Name: ident, Doc: `""`}
	}
''', '''	for _, ident := range idents {
		obj := scope.Lookup(ident)
		v, isVar := obj.(*types.Var)
		if isVar && obj.Exported() && checkImplementsTarget(v.Type()) == nil {
			targets[ident] = &targetPair{Name: ident, Doc: `""`}
		}
	}
'''))
m('compile-entry-switch', (K, '''		if entry.IsDir() {
			continue
		}
		if strings.HasSuffix(entry.Name(), "_test.go") {
			continue
		}
		if !strings.HasSuffix(entry.Name(), ".go") {
			continue
		}
		if err = copyFile(filepath.Join(pkgdir, entry.Name()), subpkgdir); err != nil {
			return errors.Wrapf(err, "copying %s to tmp subdir", entry.Name())
		}
''', '''		name := entry.Name()
		switch {
		case entry.IsDir(), strings.HasSuffix(name, "_test.go"), filepath.Ext(name) != ".go":
			// skip
		default:
			if err = copyFile(filepath.Join(pkgdir, name), subpkgdir); err != nil {
				return errors.Wrapf(err, "copying %s to tmp subdir", name)
			}
		}
'''))
m('compile-gomod', (K, '''	gomodPath := filepath.Join(tmpdir, "go.mod")
	gomodData, err := os.ReadFile(gomodPath)
	if err != nil {
		return errors.Wrapf(err, "reading %s", gomodPath)
	}
	mf, err := modfile.Parse(gomodPath, gomodData, nil)
	if err != nil {
		return errors.Wrapf(err, "parsing %s", gomodPath)
	}
	if err = mf.AddReplace("github.com/bobg/fab", "", "./fab", ""); err != nil {
		return errors.Wrapf(err, "adding replace directive in %s", gomodPath)
	}
	gomodData, err = mf.Format()
	if err != nil {
		return errors.Wrapf(err, "formatting go.mod in %s", gomodPath)
	}
	if err = os.WriteFile(gomodPath, gomodData, 0644); err != nil {
		return errors.Wrapf(err, "rewriting %s", gomodPath)
	}
''', '''	if err = addReplace(filepath.Join(tmpdir, "go.mod")); err != nil {
		return err
	}
'''), (K, '''// Returns the doc comment for the variable''', '''func addReplace(path string) error {
	data, err := os.ReadFile(path)
	if err != nil {
		return errors.Wrapf(err, "reading %s", path)
	}
	mf, err := modfile.Parse(path, data, nil)
	if err != nil {
		return errors.Wrapf(err, "parsing %s", path)
	}
	if err = mf.AddReplace("github.com/bobg/fab", "", "./fab", ""); err != nil {
		return errors.Wrapf(err, "adding replace directive in %s", path)
	}
	data, err = mf.Format()
	if err != nil {
		return errors.Wrapf(err, "formatting go.mod in %s", path)
	}
	return errors.Wrapf(os.WriteFile(path, data, 0644), "rewriting %s", path)
}

// Returns the doc comment for the variable'''))
m('compile-docmap', (K, '''	for _, v := range vars {
		for _, name := range v.Names {
			if tp, ok := targets[name]; ok {
				dstr := string(pr.Text(parser.Parse(varDoc(v, name))))
				dstr = strings.TrimRight(dstr, "\\r\\n")
				tp.Doc = strconv.Quote(dstr)
			}
		}
	}
''', '''	text := func(v *doc.Value, name string) string {
		d := parser.Parse(varDoc(v, name))
		return strings.TrimRight(string(pr.Text(d)), "\\r\\n")
	}
	for _, v := range vars {
		for _, name := range v.Names {
			tp := targets[name]
			if tp == nil {
				continue
			}
			tp.Doc = strconv.Quote(text(v, name))
		}
	}
'''))
m('compile-copyfile-flags', (K, '''	if _, err = io.Copy(out, in); err != nil {
		return errors.Wrapf(err, "copying %s to %s", filename, destdir)
	}
	return errors.Wrapf(out.Close(), "closing %s", outfilename)
''', '''	_, err = io.Copy(out, in)
	if err != nil {
		return errors.Wrapf(err, "copying %s to %s", filename, destdir)
	}
	if err = out.Close(); err != nil {
		return errors.Wrapf(err, "closing %s", outfilename)
	}
	return nil
'''))
m('main-run-nodriver', (N, '''	if errors.Is(err, errNoDriver) {
		return m.driverless(ctx)
	}
	if err != nil {
		return errors.Wrap(err, "ensuring driver is up to date")
	}

	args := []string{"-fab", m.Fabdir, "-top", m.Topdir}
	if m.Verbose {
		args = append(args, "-v")
	}
	if m.List {
		args = append(args, "-list")
	}
	if m.Force {
		args = append(args, "-f")
	}
	if m.DryRun {
		args = append(args, "-n")
	}
	args = append(args, "--") // Do not let the driver parse m.Args as its own flags.
	args = append(args, m.Args...)

	cmd := exec.CommandContext(ctx, driver, args...)
''', '''	if err != nil {
		if errors.Is(err, errNoDriver) {
			return m.driverless(ctx)
		}
		return errors.Wrap(err, "ensuring driver is up to date")
	}

	args := m.driverArgs()
	cmd := exec.CommandContext(ctx, driver, args...)
'''), (N, 'var errNoDriver =', '''func (m *Main) driverArgs() (args []string) {
	flag := func(set bool, name string) {
		if set {
			args = append(args, name)
		}
	}
	args = append(args, "-fab", m.Fabdir, "-top", m.Topdir)
	flag(m.Verbose, "-v")
	flag(m.List, "-list")
	flag(m.Force, "-f")
	flag(m.DryRun, "-n")
	args = append(args, "--")
	return append(args, m.Args...)
}

var errNoDriver ='''))
m('main-reason', (N, '''	if !compile {
		if newhash == string(oldhash) {
			if m.Verbose {
				fmt.Println("Using existing driver")
			}
		} else {
			compile = true
			if m.Verbose {
				fmt.Println("Recompiling driver")
			}
		}
	}

	if !compile {
		return driver, nil
	}
''', '''	if !compile && newhash == string(oldhash) {
		if m.Verbose {
			fmt.Println("Using existing driver")
		}
		return driver, nil
	}
	if !compile && m.Verbose {
		fmt.Println("Recompiling driver")
	}
'''))
m('main-write-version', (N, '''	if buildInfo != nil {
		v, openErr := os.OpenFile(versionfile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
		if openErr != nil {
			return "", errors.Wrapf(openErr, "opening %s for writing", versionfile)
		}
		defer func() {
			closeErr := v.Close()
			if err == nil {
				err = errors.Wrapf(closeErr, "closing %s", versionfile)
			}
		}()
		enc := json.NewEncoder(v)
		enc.SetIndent("", "  ")
		if err = enc.Encode(buildInfo); err != nil {
			return "", errors.Wrap(err, "encoding build info")
		}
	}
''', '''	if buildInfo != nil {
		if err = writeVersion(versionfile, buildInfo); err != nil {
			return "", err
		}
	}
'''), (N, '''func (m *Main) checkVersion(''', '''func writeVersion(versionfile string, buildInfo *debug.BuildInfo) (err error) {
	v, err := os.Create(versionfile)
	if err != nil {
		return errors.Wrapf(err, "opening %s for writing", versionfile)
	}
	defer func() {
		closeErr := v.Close()
		if err == nil {
			err = errors.Wrapf(closeErr, "closing %s", versionfile)
		}
	}()
	enc := json.NewEncoder(v)
	enc.SetIndent("", "  ")
	return errors.Wrap(enc.Encode(buildInfo), "encoding build info")
}

func (m *Main) checkVersion('''))
m('main-version-named', (N, '''func (m *Main) checkVersion(versionfile string) (bool, *debug.BuildInfo, error) {
	newInfo, ok := debug.ReadBuildInfo()
	if !ok {''', '''func (m *Main) checkVersion(versionfile string) (compile bool, info *debug.BuildInfo, err error) {
	say := func(format string, args ...any) {
		if m.Verbose {
			fmt.Printf(format, args...)
		}
	}

	newInfo, ok := debug.ReadBuildInfo()
	if !ok {'''), (N, '''		if m.Verbose {
			fmt.Printf("No %s file, compiling driver\\n", fabVersionBasename)
		}
''', '''		say("No %s file, compiling driver\\n", fabVersionBasename)
'''), (N, '''	if !reflect.DeepEqual(*newInfo, oldInfo) {
		if m.Verbose {
			fmt.Println("Fab build info changed, will recompile driver")
		}
		return true, newInfo, nil
	}

	return false, nil, nil
''', '''	if reflect.DeepEqual(*newInfo, oldInfo) {
		return false, nil, nil
	}
	say("Fab build info changed, will recompile driver\\n")
	return true, newInfo, nil
'''))
m('main-dirs-plain', (N, '''	for _, dir := range []*string{&m.Topdir, &m.Fabdir} {
		abs, err := filepath.Abs(*dir)
		if err != nil {
			return errors.Wrapf(err, "making %s absolute", *dir)
		}
		*dir = abs
	}
''', '''	topdir, err := filepath.Abs(m.Topdir)
	if err != nil {
		return errors.Wrapf(err, "making %s absolute", m.Topdir)
	}
	fabdir, err := filepath.Abs(m.Fabdir)
	if err != nil {
		return errors.Wrapf(err, "making %s absolute", m.Fabdir)
	}
	m.Topdir, m.Fabdir = topdir, fabdir
'''))
m('copier-sawcr', (R, '''		switch b {
		case '\\n':
			if err := c.newline(); err != nil {
				return n, err
			}

		case '\\r':
			if c.sawcr {
				if err := c.newline(); err != nil {
					return n, err
				}
			}
			c.sawcr = true

		default:
			if c.sawcr {
				if err := c.newline(); err != nil {
					return n, err
				}
			}
''', '''		if c.sawcr || b == '\\n' {
			if err := c.newline(); err != nil {
				return n, err
			}
		}
		switch b {
		case '\\n':
			// done

		case '\\r':
			c.sawcr = true

		default:
'''))
