"""A second set of bugs written from the statements of the properties, without regard to the checks."""
M = []
def m(name, prop, *edits): M.append((name, prop, list(edits)))
R, CO, K, N, FI, Y, CL, T, RG, CX = 'runner.go','command.go','compile.go','main.go','files.go','yaml.go','clean.go','types.go','register.go','context.go'
CT, DH, SQ, DP, GO, PR, DB, TS, TP, GA, CM, DT, RY, AT = 'controller.go','dirhash.go','seq.go','deps.go','golang/go.go','proto/proto.go','sqlite/db.go','ts/tsdecls.go','top.go','gate.go','cmd/fab/main.go','driver.go.tmpl','registry.go','argtarg.go'

# C01
m('outcome-forget', 'C01', (R, '''				o.err = err
				o.g.set(true)
''', '''				o.err = err
				o.g.set(true)
				if err != nil {
					con.mu.Lock()
					delete(con.ran, addr)
					con.mu.Unlock()
				}
'''))
m('id-type-name', 'C01', (RG, '''type targetID struct {
	typ  reflect.Type
''', '''type targetID struct {
	typ  string
'''), (RG, 'typ: v.Type()', 'typ: v.Type().String()'))
m('force-rerun', 'C01', (R, '''			o, ok := con.ran[addr]
''', '''			o, ok := con.ran[addr]
			if ok && GetForce(ctx) && o.g.open {
				ok = false
			}
'''))
m('dryrun-key', 'C01', (R, '''			if !ok {
				o = &outcome{''', '''			if !ok || (o.dry && !GetDryRun(ctx)) {
				ok = false
				o = &outcome{dry: GetDryRun(ctx), '''), (R, '''	err error

''', '''	err error
	dry bool

'''))
m('described-id', 'C01', (RG, '''	addr, err := targetAddr(target)
	if err != nil {
		return nil, err
	}

	tuple :=''', '''	addr, err := targetAddr(target)
	if err != nil {
		return nil, err
	}
	con.mu.Lock()
	if old, ok := con.targetsByName[name]; ok && old.target != target {
		if oldAddr, err := targetAddr(old.target); err == nil {
			delete(con.ran, oldAddr)
		}
	}
	con.mu.Unlock()

	tuple :='''))
# C02
m('first-error', 'C02', (R, '	return errors.Join(errs...)\n', '''	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
'''))
m('ctx-early', 'C02', (R, '	wg.Wait()\n', '''	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-ctx.Done():
		return ctx.Err()
	}
'''))
m('unresolved-break', 'C02', (R, '''				errs[i] = err
				continue
			}
		}
''', '''				errs[i] = err
				break
			}
		}
'''))
m('err-index', 'C02', (R, 'errs    = make([]error, len(targets))', 'errs    = make([]error, len(targets)+1)'), (R, '		i, target := i, target // Go loop-var pitfall\n', '		i, target := i&63, target // Go loop-var pitfall\n'))
m('cancelled-ok', 'C02', (R, '''				errs[i] = err
				o.err = err
''', '''				if errors.Is(err, context.Canceled) {
					err = nil
				}
				errs[i] = err
				o.err = err
'''))
# C03
m('set-signal', 'C03', (GA, 'g.c.Broadcast()', 'g.c.Signal()'))
m('wait-if', 'C03', (GA, '	for !g.open {\n', '	if !g.open {\n'))
m('gate-first', 'C03', (R, '''				errs[i] = err
				o.err = err
				o.g.set(true)
''', '''				errs[i] = err
				o.g.set(true)
				o.err = err
'''))
m('fail-closed', 'C03', (R, '				o.g.set(true)\n', '				o.g.set(err == nil || ctx.Err() == nil)\n'))
# C04
m('deps-all', 'C04', (DP, 'return Seq(All(depTargets...), target)', 'return Seq(append(depTargets, target)...)'))
m('args-keep', 'C04', (AT, '	ctx = WithArgs(ctx, a.Args...)\n', '	if len(a.Args) > 0 {\n		ctx = WithArgs(ctx, a.Args...)\n	}\n'))
m('seq-all-once', 'C04', (SQ, '''	for _, t := range s.Targets {
		if err := con.Run(ctx, t); err != nil {
			return err
		}
	}
	return nil
''', '''	seen := make(map[Target]bool)
	for _, t := range s.Targets {
		if seen[t] {
			continue
		}
		seen[t] = true
		if err := con.Run(ctx, t); err != nil && !GetDryRun(ctx) {
			return err
		}
	}
	return nil
'''))
m('f-background', 'C04', ('f.go', 'return f.f(ctx, con)', 'return f.f(context.WithoutCancel(ctx), con)'))
# C05
m('has-err-run', 'C05', (FI, '''		if err != nil {
			return errors.Wrap(err, "checking hash db")
		}
		if has {''', '''		if err != nil && ctx.Err() != nil {
			return errors.Wrap(err, "checking hash db")
		}
		if has {'''))
m('no-inputs', 'C05', (FI, '''	db := GetHashDB(ctx)

	if db''', '''	db := GetHashDB(ctx)

	if len(ft.Out) == 0 && len(ft.In) == 0 && !GetForce(ctx) && GetDryRun(ctx) {
		return nil
	}

	if db'''))
m('hash-before', 'C05', (FI, '''	if err := ft.runPrereqs(ctx, con); err != nil {
		return errors.Wrap(err, "in prerequisites")
	}

	db := GetHashDB(ctx)

	if db != nil && !GetForce(ctx) && !GetDryRun(ctx) {
		h, err := ft.computeHash(con)
		if err != nil {
			return errors.Wrap(err, "computing hash before running subtarget")
		}
''', '''	db := GetHashDB(ctx)

	var h []byte
	var err error
	check := db != nil && !GetForce(ctx) && !GetDryRun(ctx)
	if check {
		if h, err = ft.computeHash(con); err != nil {
			return errors.Wrap(err, "computing hash before running subtarget")
		}
	}
	if err := ft.runPrereqs(ctx, con); err != nil {
		return errors.Wrap(err, "in prerequisites")
	}

	if check {
'''), (FI, '	h, err := ft.computeHash(con)\n	if err != nil {\n		return nil, errors.Wrap(err, "in JSON', '	h, err := ft.computeHash(con)\n	if err != nil {\n		return nil, errors.Wrap(err, "in JSON'))
# C06
m('add-noforce', 'C06', (FI, '	if db == nil || GetDryRun(ctx) {', '	if db == nil || GetDryRun(ctx) || len(ft.Out) == 0 && GetForce(ctx) {'))
m('add-async', 'C06', (FI, '''	err = db.Add(ctx, h)
	return errors.Wrap(err, "adding hash to db")''', '''	go func() { _ = db.Add(ctx, h) }()
	return nil'''))
# C07
m('fold-case', 'C07', (FI, '	keys := maps.Keys(hashes)\n	sort.Strings(keys)\n', '	keys := maps.Keys(hashes)\n	sort.Slice(keys, func(i, j int) bool { return filepath.Base(keys[i]) < filepath.Base(keys[j]) })\n'))
m('limit-copy', 'C07', (FI, '	_, err = io.Copy(hasher, f)\n', '	_, err = io.CopyN(hasher, f, 1<<20)\n	if err == io.EOF {\n		err = nil\n	}\n'))
m('perm-skip', 'C07', (FI, '''	if errors.Is(err, fs.ErrNotExist) {
		hashes[item] = ""''', '''	if errors.Is(err, fs.ErrNotExist) || errors.Is(err, fs.ErrPermission) {
		hashes[item] = ""'''))
m('omit-dir', 'C07', (CO, '`json:"dir,omitempty"`', '`json:"-"`'))
m('args-hash', '', (AT, '	Args   []string\n}', '	Args   []string `json:",omitempty"`\n	_ struct{}\n}'))
m('env-hash', 'C07', (CO, 'Env []string `json:"env,omitempty"`', 'Env []string `json:"args,omitempty"`'))
m('inout-same', 'C07', (FI, '`json:"out,omitempty"`', '`json:"in,omitempty"`'))
# C08
m('prereq-first', 'C08', (FI, '''			prereqs = append(prereqs, target)
		}
	}
''', '''			prereqs = append(prereqs, target)
			break
		}
	}
'''))
m('prereq-dir', 'C08', (FI, '''		case "", ".", "/", name:''', '''		case "", ".", "/", name, filepath.Dir(dir):'''))
m('prereq-dry', 'C08', (FI, '	if len(prereqs) == 0 {\n', '	if len(prereqs) == 0 || GetDryRun(ctx) {\n'))
m('register-last', 'C08', (FI, '''	for _, o := range out {
		filesRegistry.add(o, result)
	}
''', '''	for _, o := range out {
		if _, ok := filesRegistry.lookup(o); !ok {
			filesRegistry.add(o, result)
		}
	}
'''))
m('prereq-exists', 'C08', (FI, '''		if target := findInFilesRegistry(in); target != nil && target != ft {''', '''		if _, err := os.Stat(in); err == nil && GetForce(ctx) {
			continue
		}
		if target := findInFilesRegistry(in); target != nil && target != ft {'''))
# C09
m('ts-dry', 'C09', (TS, '	if fab.GetDryRun(ctx) {\n		return nil\n	}\n', '	if fab.GetDryRun(ctx) && fab.GetVerbose(ctx) {\n		return nil\n	}\n'))
m('files-dry', 'C09', (FI, '	if err := con.Run(ctx, ft.Target); err != nil {', '	if GetForce(ctx) {\n		ctx = WithDryRun(ctx, false)\n	}\n	if err := con.Run(ctx, ft.Target); err != nil {'))
m('dry-shell', 'C09', (CO, '	if GetDryRun(ctx) {\n', '	if c.Cmd == "" {\n		if err := exec.CommandContext(ctx, cmdname, "-n", "-c", c.Shell).Run(); err != nil {\n			return err\n		}\n	}\n	if GetDryRun(ctx) {\n'))
# C10
m('no-remove', 'C10', (N, 'if err = os.Remove(hashfile); err != nil && !errors.Is(err, fs.ErrNotExist) {', 'if err = os.Remove(driver); err != nil && !errors.Is(err, fs.ErrNotExist) {'))
m('hash-prefix', 'C10', (N, 'if newhash == string(oldhash) {', 'if strings.HasPrefix(newhash, string(oldhash)) {'))
m('hash-first-file', 'C10', (N, '''			return "", errors.Wrapf(err, "hashing file %s", filename)
		}
''', '''			return "", errors.Wrapf(err, "hashing file %s", filename)
		}
		if compile {
			break
		}
'''))
m('base-hash', 'C10', (DH, 'd.hashes[filepath.Base(name)] = h', 'd.hashes[filepath.Ext(name)] = h'))
m('version-settings', 'C10', (N, '	if !reflect.DeepEqual(*newInfo, oldInfo) {', '	newInfo.Settings, oldInfo.Settings = nil, nil\n	if !reflect.DeepEqual(*newInfo, oldInfo) {'))
m('skipversion', 'C10', (N, '	driver, err := m.getDriver(ctx, false)', '	driver, err := m.getDriver(ctx, m.List)'))
m('hash-newline', 'C10', (N, '[]byte(newhash), 0644', '[]byte(newhash+"\\n"), 0644'))
m('version-copy', 'C10', (N, '	if !reflect.DeepEqual(*newInfo, oldInfo) {', '	a, b := *newInfo, oldInfo\n	a.Settings, b.Settings = nil, nil\n	if !reflect.DeepEqual(a, b) {'))
# C11
m('rename-early', 'C11', (K, '	cmd = exec.CommandContext(ctx, "go", "build")\n', '	_ = os.Remove(binfile)\n	cmd = exec.CommandContext(ctx, "go", "build")\n'))
m('build-o', 'C11', (K, 'exec.CommandContext(ctx, "go", "build")', 'exec.CommandContext(ctx, "go", "build", "-o", binfile)'), (K, '	return os.Rename(filepath.Join(tmpdir, "x"), binfile)', '	return nil'))
m('fixed-tmp', 'C11', (K, '	tmpdir, err := os.MkdirTemp("", "fab")\n', '	tmpdir := filepath.Join(os.TempDir(), "fab-"+pkg.Name)\n	err = os.MkdirAll(tmpdir, 0755)\n'))
m('tidy-warn', 'C11', (K, '''		return fmt.Errorf("error in go mod tidy: %w; output follows\\n%s", err, string(output))
''', '''		if _, ok := err.(*exec.ExitError); !ok {
			return fmt.Errorf("error in go mod tidy: %w; output follows\\n%s", err, string(output))
		}
'''))
# C12
m('stdin-path', 'C12', (CO, 'result.StdinFile = con.JoinPath(dir, c.Stdin)', 'result.StdinFile = con.JoinPath(c.Stdin)'))
m('dir-only-set', 'C12', (CO, '		Dir:   con.JoinPath(dir, c.Dir),\n', '		Dir:   con.JoinPath(c.Dir, dir),\n'))
m('ts-out', 'C12', (TS, 'con.JoinPath(dir, d.Out)', 'con.JoinPath(dir, d.Dir, d.Out)'))
m('clean-seq', 'C12', (CL, 'files, err = con.YAMLFileListFromNodes(node.Content, dir)', 'files, err = con.YAMLStringListFromNodes(node.Content, dir)'))
m('filelist-abs', 'C12', (Y, '''func (con *Controller) YAMLFileListFromNodes(nodes []*yaml.Node, dir string) ([]string, error) {
	strs, err := con.YAMLStringListFromNodes(nodes, dir)
	if err != nil {
		return nil, err
	}
	return slices.Map(strs, func(s string) string { return con.JoinPath(dir, s) }), nil''', '''func (con *Controller) YAMLFileListFromNodes(nodes []*yaml.Node, dir string) ([]string, error) {
	strs, err := con.YAMLStringListFromNodes(nodes, dir)
	if err != nil {
		return nil, err
	}
	return slices.Map(strs, func(s string) string { return filepath.Join(con.JoinPath(dir), s) }), nil'''))
# C13
m('dup-first', 'C13', (Y, '			sawDirDecl = true\n', '			sawDirDecl = true\n			if i == 0 && len(m.Content) == 2 {\n				return nil\n			}\n'), )
m('slash-ok', 'C13', (Y, 'if strings.Contains(name, "/") {', 'if strings.HasPrefix(name, "/") {'))
m('tag-fold', 'C13', (Y, '	return strings.TrimPrefix(tag, "!")\n', '	return strings.TrimLeft(tag, "!")\n'))
m('all-skip', 'C13', ('all.go', '''	if node.Kind != yaml.SequenceNode {
		return nil, BadYAMLNodeKindError{Got: node.Kind, Want: yaml.SequenceNode}
	}
''', '''	if node.Kind == yaml.ScalarNode {
		return nil, BadYAMLNodeKindError{Got: node.Kind, Want: yaml.SequenceNode}
	}
'''))
m('yaml-missing', 'C13', (Y, '''			if err := con.ReadYAMLFile(tdir); err != nil {''', '''			if err := con.ReadYAMLFile(tdir); err != nil && !errors.Is(err, fs.ErrNotExist) {'''), (Y, '			return nil, fmt.Errorf("cannot resolve target %s", qname)\n', '			return &deferredResolutionTarget{Name: qname}, nil\n'))
m('dir-late', 'C13', (Y, '	if dir != "" && !sawDirDecl {', '	if dir != "" && !sawDirDecl && len(m.Content) > 0 {'))
# C14
m('read-flag', 'C14', (Y, '	con.reading[rel]++\n', '	con.reading[dir]++\n'), (Y, '		con.reading[rel]--\n', '		con.reading[dir]--\n'))
m('reading-top', 'C14', (Y, 'reading := con.reading[tdir] > 0', 'reading := con.reading[tdir] > 1'))
# C15
m('append-trunc', 'C15', (CO, '''			f, openErr := os.OpenFile(stderrFile, os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0644)''', '''			f, openErr := os.OpenFile(stderrFile, os.O_WRONLY|os.O_CREATE, 0644)'''))
m('two-opens', 'C15', (CO, '''		case stdoutFile == stderrFile:
			cmd.Stderr = cmd.Stdout
''', '''		case stdoutFile == stderrFile && stdoutAppend:
			cmd.Stderr = cmd.Stdout
'''))
m('stdin-null', 'C15', (CO, '	cmd.Stdin = c.Stdin\n', '	cmd.Stdin = c.Stdin\n	if c.Stdin == os.Stdin && !GetVerbose(ctx) {\n		cmd.Stdin = nil\n	}\n'))
m('close-process-err', 'C15', (CO, '''				closeErr := f.Close()
				if err == nil {
					err = errors.Wrapf(closeErr, "closing stderr file %s", stderrFile)
				}
			}()
			cmd.Stderr = f
		}''', '''				if err != nil {
					return
				}
				err = errors.Wrapf(f.Close(), "closing stderr file %s", stderrFile)
			}()
			cmd.Stderr = f
		}'''))
m('verbose-swap', 'C15', (CO, 'cmd.Stderr = con.IndentingCopier(os.Stderr, "    ")', 'cmd.Stderr = con.IndentingCopier(os.Stdout, "    ")'))
# C16
m('env-replace', 'C16', (CO, 'cmd.Env = append(os.Environ(), c.Env...)', 'cmd.Env = append(cmd.Env, c.Env...)'))
m('retry', 'C16', (CO, '	err = cmd.Run()\n', '	err = cmd.Run()\n	if err != nil && c.Cmd == "" && errors.Is(err, exec.ErrNotFound) {\n		err = exec.CommandContext(ctx, "/bin/sh", args...).Run()\n	}\n'))
m('shell-fields', 'C16', (CO, '		args = []string{"-c", c.Shell}\n', '		args = append([]string{"-c", c.Shell}, c.Args...)\n'))
m('exit-code', 'C16', (CO, '	return err\n}\n\n// Desc implements Target.Desc.\nfunc (*Command) Desc', '	if cmd.ProcessState != nil && cmd.ProcessState.Success() {\n		return nil\n	}\n	return err\n}\n\nfunc (*Command) Desc'))
m('detach', 'C16', (CO, 'exec.CommandContext(ctx, cmdname', 'exec.CommandContext(context.WithoutCancel(ctx), cmdname'))
# C17
m('stderr-append', 'C17', (CO, 'result.StderrFile = outputFile(con, c.Stderr, dir, forceAppend)', 'result.StderrFile = outputFile(con, c.Stderr, dir, forceAppend && c.Stdout == c.Stderr)'))
m('idx-append', 'C17', (CO, 'args, env, idx > 0), nil', 'args, env, idx > 1), nil'))
m('shell-args', 'C17', (CO, 'return c.toTarget(con, str, dir, args, env, idx > 0), nil', 'return c.toTarget(con, str, dir, args, nil, idx > 0), nil'))
m('indent-to', 'C17', (CO, 'result.StderrFn = maybeIndent(os.Stderr)', 'result.StderrFn = deferredIndent(os.Stderr)'))
m('tests-opt', 'C17', (GO, 'return Deps(con.JoinPath(dir, gd.Dir), gd.Recursive, gd.Tests)', 'return Deps(con.JoinPath(dir, gd.Dir), gd.Recursive || gd.Tests, gd.Tests)'))
m('proto-autoclean', 'C17', (PR, '`yaml:"Autoclean"`', '`yaml:"autoclean"`'))
# C18
m('rows-affected', 'C18', (DB, '''		return aff > 0, errors.Wrap(err, "counting affected rows")''', '''		return err == nil && aff > 0, nil'''))
m('scan-err', 'C18', (PR, '	return sc.Err()\n', '	return nil\n'))
m('ts-close', 'C18', (TS, '	return f.Close()\n', '	return nil\n'))
m('abs-err', 'C18', (N, '''			return errors.Wrapf(err, "making %s absolute", *dir)
''', '''			continue
'''))
m('encode-err', 'C18', (N, '''		if err = enc.Encode(buildInfo); err != nil {
			return "", errors.Wrap(err, "encoding build info")
		}
''', '''		_ = enc.Encode(buildInfo)
'''))
