M = []
def m(name, prop, *edits): M.append((name, prop, list(edits)))
F='runner.go'; FI='files.go'; C='command.go'; Y='yaml.go'; N='main.go'; K='compile.go'; DB='sqlite/db.go'; G='golang/go.go'
m('first-only','C02',(F,'	return errors.Join(errs...)\n','''	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
'''))
m('ctx-first','C02',(F,'''	return errors.Join(errs...)
''','''	if err := ctx.Err(); err != nil {
		return err
	}
	return errors.Join(errs...)
'''))
m('ctx-nil','C02',(F,'''				errs[i] = o.err
''','''				if ctx.Err() == nil {
					errs[i] = o.err
				}
'''))
m('sem','C02',(F,'''	return errors.Join(errs...)
''','''	return errors.Join(errs...)
'''+'//'),) if 0 else None
m('recover','C03',(F,'''				err := target.Run(ctx, con)
				if err != nil {
					err = errors.Wrapf(err, "running %s", con.Describe(target))
				}
				errs[i] = err
				o.err = err
				o.g.set(true)
''','''				err := func() (err error) {
					defer func() {
						if r := recover(); r != nil {
							err = fmt.Errorf("panic: %v", r)
						}
					}()
					return target.Run(ctx, con)
				}()
				o.g.set(true)
				if err != nil {
					err = errors.Wrapf(err, "running %s", con.Describe(target))
				}
				errs[i] = err
				o.err = err
'''))
m('ok-recover','',(F,'''				err := target.Run(ctx, con)
				if err != nil {
					err = errors.Wrapf(err, "running %s", con.Describe(target))
				}
				errs[i] = err
				o.err = err
				o.g.set(true)
''','''				err := func() (err error) {
					defer func() {
						if r := recover(); r != nil {
							err = fmt.Errorf("panic: %v", r)
						}
					}()
					return target.Run(ctx, con)
				}()
				if err != nil {
					err = errors.Wrapf(err, "running %s", con.Describe(target))
				}
				errs[i] = err
				o.err = err
				o.g.set(true)
'''))
m('single','C01',(F,'''	con.incDepth()
	defer con.decDepth()
''','''	con.incDepth()
	defer con.decDepth()

	if len(targets) == 1 {
		if c, ok := targets[0].(*Command); ok && c.Shell == "" && c.Cmd == "" {
			return c.Run(ctx, con)
		}
	}
'''))
m('force-again','C01',(F,'''			if !ok {
				o = &outcome{g: newGate(false), target: target}
''','''			if ok && GetForce(ctx) && o.err != nil {
				ok = false
			}
			if !ok {
				o = &outcome{g: newGate(false), target: target}
'''))
m('inout','C07',(FI,'''		In:         inHashes,
		Out:        outHashes,
''','''		In:         append(inHashes, outHashes...),
'''))
m('prefix-hash','C07',(FI,'''	_, err = io.Copy(hasher, f)
	if err != nil {
		return "", errors.Wrapf(err, "hashing %s", path)
	}
''','''	_, err = io.CopyN(hasher, f, 1<<24)
	if err != nil && err != io.EOF {
		return "", errors.Wrapf(err, "hashing %s", path)
	}
'''))
m('lstat','C07',(FI,'info, err := os.Stat(item)','info, err := os.Lstat(item)'))
m('typekind','C07',(FI,'TargetType: tt.String(),','TargetType: tt.Kind().String(),'))
m('stdin-close','C15',(C,'''		defer f.Close()
		cmd.Stdin = f
''','''		cmd.Stdin = f
		f.Close()
'''))
m('lookupenv','C16',(C,'''		if cmdname = os.Getenv("SHELL"); cmdname == "" {
			cmdname = "/bin/sh"
		}
''','''		var ok bool
		if cmdname, ok = os.LookupEnv("SHELL"); !ok {
			cmdname = "/bin/sh"
		}
'''))
m('stderr-only','C15',(C,'''		if cmd.Stdout == nil {
			cmd.Stdout = &buf
		}
''','''		if cmd.Stdout == nil {
			cmd.Stdout = io.Discard
		}
'''))
m('topdir-decl','C13',(Y,'''			if decl.Value != dir {''','''			if dir != "" && decl.Value != dir {'''))
m('list-stderr','C24',(N,'con.ListTargets(os.Stdout)','con.ListTargets(os.Stderr)'))
m('version-main','C10',(N,'if !reflect.DeepEqual(*newInfo, oldInfo) {','if newInfo.Main != oldInfo.Main {'),(N,'\t"reflect"\n',''))
m('chmod','C11',(K,'''	return os.Rename(filepath.Join(tmpdir, "x"), binfile)
''','''	if err = os.Rename(filepath.Join(tmpdir, "x"), binfile); err != nil {
		return err
	}
	return os.Chmod(binfile, 0755)
'''))
m('bg','C11',(K,'''	cmd = exec.CommandContext(ctx, "go", "build")''','''	cmd = exec.Command("go", "build")'''))
m('keep-eq','C21',(DB,'DELETE FROM hashes WHERE unix_secs < $1','DELETE FROM hashes WHERE unix_secs <= $1'))
m('nested-mod','C28',(G,'''	if pkg.Module.Path != modpath {''','''	if !strings.HasPrefix(pkg.Module.Path, modpath) {'''),(G,'	"sort"\n','	"sort"\n	"strings"\n'))
m('mod-main','C28',(G,'''	if pkg.Module.Path != modpath {''','''	if pkg.Module.Path != modpath || !pkg.Module.Main {'''))
m('autoclean-copy','C20',('clean.go','''	for _, f := range files {
		err := os.Remove(f)
''','''	for _, f := range files {
		f = filepath.Clean(f)
		err := os.RemoveAll(f)
''')) if 0 else None
m('dir-empty','C12',(C,'		Dir:   con.JoinPath(dir, c.Dir),\n','		Dir:   c.Dir,\n'))
m('shell-all-append','C17',(C,'args, env, idx > 0), nil','args, env, idx > 1), nil'))
m('join-first','C32',('controller.go','x','y')) if 0 else None
m('desc-name','C31',('register.go','	con.targetsByAddr[addr] = tuple\n','''	if _, ok := con.targetsByAddr[addr]; !ok {
		con.targetsByAddr[addr] = tuple
	}
'''))
m('args-trunc','C24',(N,'	args = append(args, m.Args...)\n','''	for _, arg := range m.Args {
		if arg != "" {
			args = append(args, arg)
		}
	}
'''))
m('parse-space','C26',('register.go','x','y')) if 0 else None
m('hidden-embed','C33',(K,'''		if strings.HasSuffix(entry.Name(), "_test.go") {
			continue
		}
		contents''','''		if strings.HasSuffix(entry.Name(), "_test.go") || strings.HasSuffix(entry.Name(), ".sql") {
			continue
		}
		contents'''))
m('has-cancel','C05',(FI,'''		has, err := db.Has(ctx, h)
		if err != nil {
			return errors.Wrap(err, "checking hash db")
		}
''','''		has, err := db.Has(ctx, h)
		if errors.Is(err, context.Canceled) {
			return nil
		}
		if err != nil {
			return errors.Wrap(err, "checking hash db")
		}
'''))
m('add-dry','C06',(FI,'	if db == nil || GetDryRun(ctx) {\n		return nil\n	}\n','	if db == nil || GetDryRun(ctx) || GetForce(ctx) {\n		return nil\n	}\n'))
m('add-err','C18',(FI,'''	err = db.Add(ctx, h)
	return errors.Wrap(err, "adding hash to db")
''','''	if err = db.Add(ctx, h); err != nil && GetVerbose(ctx) {
		con.Indentf("Warning: %s", err)
	}
	return nil
'''))
m('prereq-self','C08',(FI,'target != nil && target != ft {','target != nil && target != ft && !contains(ft.Out, in) {'),(FI,'func findInFilesRegistry','''func contains(list []string, s string) bool {
	for _, item := range list {
		if item == s {
			return true
		}
	}
	return false
}

func findInFilesRegistry'''))
m('dry-open','C09',(C,'''	if GetDryRun(ctx) {
		if GetVerbose(ctx) {
			con.Indentf("  Would run command %s", cmd)
		}
		return nil
	}

''',''),(C,'''	err = cmd.Run()
	if err != nil && buf''','''	if GetDryRun(ctx) {
		if GetVerbose(ctx) {
			con.Indentf("  Would run command %s", cmd)
		}
		return nil
	}

	err = cmd.Run()
	if err != nil && buf'''))
m('depth-go','C30',(F,'''	con.incDepth()
	defer con.decDepth()

	var (''','''	if len(targets) > 1 {
		con.incDepth()
		defer con.decDepth()
	}

	var ('''))
m('list-blank','C31',('controller.go','x','y')) if 0 else None
m('reading-early','C14',(Y,'''			if reading {
				// The''','''			if reading && tdir != dir {
				// The'''))
m('resolve-cache','C36',(Y,'''		target, _ := con.RegistryTarget(dt.Name)
		if target == nil {''','''		target, _ := con.RegistryTarget(filepath.Base(dt.Name))
		if target == nil {'''))
m('seq-mapx','C13',('seq.go','''		if err != nil {
			return nil, errors.Wrapf(err, "child %d", idx)
		}
''','''		if err != nil && idx == 0 {
			return nil, errors.Wrapf(err, "child %d", idx)
		}
'''))
m('neg-index','C27',('controller.go','x','y')) if 0 else None
M[:] = [x for x in M if x]
M[:] = [x for x in M if all(e[1] != 'x' for e in x[2])]
