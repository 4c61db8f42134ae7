"""A third set of bugs written from the statements of the properties, without regard to the checks."""
M = []
def m(name, prop, *edits): M.append((name, prop, list(edits)))
R, CO, K, N, FI, Y, CL, T, RG, CX = 'runner.go','command.go','compile.go','main.go','files.go','yaml.go','clean.go','types.go','register.go','context.go'
CT, DH, SQ, DP, GO, PR, DB, TS, TP, GA, CM, DT, RY, AT = 'controller.go','dirhash.go','seq.go','deps.go','golang/go.go','proto/proto.go','sqlite/db.go','ts/tsdecls.go','top.go','gate.go','cmd/fab/main.go','driver.go.tmpl','registry.go','argtarg.go'

# C10
m('hash-name-only', 'C10', (N, '''		if err = addFileToHash(dh, filename); err != nil {''', '''		if filepath.Base(filename) == "doc.go" {
			continue
		}
		if err = addFileToHash(dh, filename); err != nil {'''))
m('version-keys', 'C10', (N, '''	if !reflect.DeepEqual(*newInfo, oldInfo) {''', '''	if !reflect.DeepEqual(newInfo.Main, oldInfo.Main) || newInfo.GoVersion != oldInfo.GoVersion {'''))
m('hash-trunc', 'C10', (N, '''		if newhash == string(oldhash) {''', '''		if strings.HasPrefix(newhash, string(oldhash)) {'''))
m('dirhash-len', 'C10', (DH, '''	_, err := io.Copy(hasher, r)
''', '''	_, err := io.Copy(hasher, io.LimitReader(r, 1<<20))
'''))
m('dirhash-key', 'C10', (DH, '''	d.hashes[filepath.Base(name)] = h
''', '''	key := filepath.Base(name)
	if i := len(key) - len(filepath.Ext(key)); i > 8 {
		key = key[:8]
	}
	d.hashes[key] = h
'''))
m('version-late', 'C10', (N, '''		v, openErr := os.OpenFile(versionfile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)''', '''		v, openErr := os.OpenFile(versionfile, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0644)
		if errors.Is(openErr, fs.ErrExist) {
			v, openErr = os.OpenFile(versionfile, os.O_WRONLY, 0644)
		}'''))
# C11
m('compile-keep', 'C11', (K, '''	defer os.RemoveAll(tmpdir)
''', '''	if os.Getenv("FAB_KEEP") == "" {
		defer os.RemoveAll(tmpdir)
	}
'''))
m('compile-reuse', 'C11', (K, '''	if err = os.WriteFile(gomodPath, gomodData, 0644); err != nil {
		return errors.Wrapf(err, "rewriting %s", gomodPath)
	}
''', '''	if sum, err := os.ReadFile(filepath.Join(filepath.Dir(binfile), "go.sum")); err == nil {
		_ = os.WriteFile(filepath.Join(filepath.Dir(binfile), "go.sum.bak"), sum, 0644)
		_ = os.Remove(binfile)
	}
	if err = os.WriteFile(gomodPath, gomodData, 0644); err != nil {
		return errors.Wrapf(err, "rewriting %s", gomodPath)
	}
'''))
# C19
m('describe-unlocked', 'C19', (RG, '''		con.mu.Lock()
		tuple, ok := con.targetsByAddr[addr]
		con.mu.Unlock()
''', '''		tuple, ok := con.targetsByAddr[addr]
'''))
m('names-unlocked', 'C19', (RG, '''	con.mu.Lock()
	keys := maps.Keys(con.targetsByName)
	con.mu.Unlock()
''', '''	con.mu.Lock()
	byName := con.targetsByName
	con.mu.Unlock()
	keys := maps.Keys(byName)
'''))
m('registry-early', 'C19', (RY, '''	val, ok := r.items[name]
	r.mu.Unlock()
	return val, ok
''', '''	val, ok := r.items[name]
	if !ok {
		return val, false
	}
	r.mu.Unlock()
	return val, ok
'''))
m('clean-hold', '', (CL, '''		files = append(files, autocleanFiles...)
		autocleanMu.Unlock()
	}
''', '''		files = append(files, autocleanFiles...)
		if GetVerbose(ctx) {
			con.Indentf("  including %d registered files", len(autocleanFiles))
		}
		autocleanMu.Unlock()
	}
'''))
m('clean-len', 'C19', (CL, '''	if c.Autoclean {
		autocleanMu.Lock()''', '''	if c.Autoclean && autocleanRegistry.Len() > 0 {
		autocleanMu.Lock()'''))
m('registertarget-check', 'C19', (RG, '''	con.mu.Lock()
	con.targetsByName[name] = tuple
''', '''	if old, ok := con.targetsByName[name]; ok && old == tuple {
		return target, nil
	}
	con.mu.Lock()
	con.targetsByName[name] = tuple
'''))
# C20
m('clean-dirs', 'C20', (CL, '''		err := os.Remove(f)
''', '''		err := os.Remove(f)
		if err != nil && !errors.Is(err, fs.ErrNotExist) {
			err = os.RemoveAll(f)
		}
'''))
m('clean-last', 'C20', (CL, '''	for _, f := range files {
		err := os.Remove(f)
		if errors.Is(err, fs.ErrNotExist) {
			continue
		}
		if err != nil {
			return errors.Wrapf(err, "removing %s", f)
		}
	}
	return nil
''', '''	var err error
	for _, f := range files {
		err = os.Remove(f)
		if errors.Is(err, fs.ErrNotExist) {
			err = nil
			continue
		}
		if err != nil {
			err = errors.Wrapf(err, "removing %s", f)
		}
	}
	return err
'''))
m('clean-glob', 'C20', (CL, '''	sort.Strings(files)

''', '''	sort.Strings(files)
	for _, f := range files {
		if matches, err := filepath.Glob(f); err == nil && len(matches) > 1 {
			files = append(files, matches...)
		}
	}

'''), (CL, '''	"os"
''', '''	"os"
	"path/filepath"
'''))
m('clean-forget', 'C20', (CL, '''		files = append(files, autocleanFiles...)
''', '''		files = append(files, autocleanFiles...)
		autocleanRegistry = set.New[string]()
'''))
m('clean-dup', 'C20', (CL, '''	for _, f := range files {
		err := os.Remove(f)
''', '''	for i, f := range files {
		if i > 0 && len(f) == len(files[i-1]) {
			continue
		}
		err := os.Remove(f)
'''))
# C21
m('keep-days', 'C21', (DB, '''		when := now.Add(-db.keep).Unix()
''', '''		when := now.Add(-db.keep / 2).Unix()
'''))
m('keep-trunc', 'C21', (DB, '''		when := now.Add(-db.keep).Unix()
''', '''		when := now.Truncate(24 * time.Hour).Add(-db.keep).Unix()
'''))
m('has-nokeep', 'C21', (DB, '''	if db.updateOnAccess {
		const q''', '''	if db.updateOnAccess && db.keep > 0 {
		const q'''))
m('add-ignore', 'C21', (DB, 'ON CONFLICT DO UPDATE SET unix_secs = $2 WHERE hash = $1', 'ON CONFLICT DO UPDATE SET unix_secs = $2 WHERE hash = $1 AND unix_secs > $2'))
m('evict-open', 'C21', (DB, '''	if result.clk == nil {
		result.clk = clock.New()
	}
''', '''	if result.clk == nil {
		result.clk = clock.New()
	}
	if result.keep > 0 {
		if _, err = db.Exec(`DELETE FROM hashes WHERE unix_secs < $1`, time.Now().Add(-result.keep).Unix()); err != nil {
			db.Close()
			return nil, errors.Wrap(err, "evicting")
		}
	}
'''))
m('keep-default', 'C21', (DB, '''		updateOnAccess: true,
	}
''', '''		updateOnAccess: true,
		keep:           90 * 24 * time.Hour,
	}
'''))
m('now-before', 'C21', (DB, '''		now := db.clk.Now()
		res, err :=''', '''		now := time.Now()
		res, err :='''))
# C22
m('drv-unexported-doc', 'C22', (K, '''				dstr = strings.TrimRight(dstr, "\\r\\n")
				tp.Doc = strconv.Quote(dstr)
''', '''				dstr = strings.TrimRight(dstr, "\\r\\n")
				if strings.Contains(dstr, "`") {
					tp.Doc = strconv.Quote(dstr)
				} else {
					tp.Doc = "`" + dstr + "`"
				}
'''))
m('drv-doc-nl', 'C22', (K, '''tp.Doc = strconv.Quote(dstr)''', '''_ = strconv.Quote
				tp.Doc = fmt.Sprintf("\\"%s\\"", strings.ReplaceAll(strings.ReplaceAll(dstr, "\\\\", "\\\\\\\\"), "\\"", "\\\\\\""))'''))
m('drv-types-doc', 'C22', (K, '''				tp.Doc = strconv.Quote(dstr)
			}
''', '''				tp.Doc = strconv.Quote(dstr)
			} else {
				delete(targets, name)
			}
'''), (K, '''	for _, v := range vars {
		for _, name''', '''	documented := make(map[string]bool)
	for _, v := range vars {
		for _, name'''), (K, '''	tmpdir, err := os.MkdirTemp("", "fab")
''', '''	for name, tp := range targets {
		if tp.Doc == `""` && len(documented) > 0 {
			delete(targets, name)
		}
	}

	tmpdir, err := os.MkdirTemp("", "fab")
'''), (K, '''				tp.Doc = strconv.Quote(dstr)
''', '''				tp.Doc = strconv.Quote(dstr)
				documented[name] = true
'''))
m('drv-skip-init', 'C22', (K, '''		if strings.HasSuffix(entry.Name(), "_test.go") {
			continue
		}
		if !strings''', '''		if strings.HasSuffix(entry.Name(), "_test.go") {
			continue
		}
		if strings.HasPrefix(entry.Name(), "zz_") {
			continue
		}
		if !strings'''))
m('drv-import', 'C22', (DT, '''{{ if .Targets }}subpkg{{ else }}_{{ end }}''', '''subpkg'''))
m('drv-flag-v', 'C22', (DT, '''	ctx = fab.WithVerbose(ctx, verbose)
''', '''	if verbose && !list {
		ctx = fab.WithVerbose(ctx, verbose && !dryrun)
	}
'''))
m('drv-list-args', 'C22', (DT, '''	if list {
		con''', '''	if list && len(args) == 0 {
		con'''))
m('drv-exit0', 'C22', (DT, '''	if err := con.Run(ctx, targets...); err != nil {
		fatalf("Error: %s", err)
	}
''', '''	for _, target := range targets {
		if err := con.Run(ctx, target); err != nil {
			fatalf("Error: %s", err)
		}
	}
'''))
m('drv-case', 'C22', (K, '''		targets[ident] = &targetPair{Name: ident, Doc: `""`}
''', '''		if tp, ok := targets[strings.ToLower(ident)]; ok {
			tp.Name = ident
			continue
		}
		targets[ident] = &targetPair{Name: ident, Doc: `""`}
		targets[strings.ToLower(ident)] = targets[ident]
'''))
# C23
m('ctx-args-nil', 'C23', (CX, '''	val, _ := ctx.Value(argsKeyType{}).([]string)
	return val
''', '''	val, _ := ctx.Value(argsKeyType{}).([]string)
	if len(val) == 0 {
		return nil
	}
	return val[:len(val):len(val)]
'''))
m('ctx-dry-force', 'C23', (CX, '''	val, _ := ctx.Value(forceKeyType{}).(bool)
	return val
''', '''	val, _ := ctx.Value(forceKeyType{}).(bool)
	return val && !GetDryRun(ctx)
'''))
m('ctx-sticky', 'C23', (CX, '''	return context.WithValue(ctx, verboseKeyType{}, verbose)
''', '''	if GetVerbose(ctx) {
		return ctx
	}
	return context.WithValue(ctx, verboseKeyType{}, verbose)
'''))
m('ctx-nildb', 'C23', (CX, '''	return context.WithValue(ctx, hashDBKeyType{}, db)
''', '''	if db == nil {
		return ctx
	}
	return context.WithValue(ctx, hashDBKeyType{}, db)
'''))
# C24
m('main-order', 'C24', (N, '''	args = append(args, "--") // Do not let the driver parse m.Args as its own flags.
	args = append(args, m.Args...)
''', '''	if len(m.Args) > 0 && strings.HasPrefix(m.Args[0], "-") {
		args = append(args, "--") // Do not let the driver parse m.Args as its own flags.
	}
	args = append(args, m.Args...)
'''))
m('main-args-dedup', 'C24', (N, '''	targets, err := con.ParseArgs(m.Args)
''', '''	var args []string
	for i, arg := range m.Args {
		if i > 0 && arg == m.Args[i-1] {
			continue
		}
		args = append(args, arg)
	}
	targets, err := con.ParseArgs(args)
'''))
m('main-env', 'C24', (N, '''	cmd.Dir = m.Topdir
	cmd.Stdin''', '''	cmd.Dir = m.Topdir
	cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + os.Getenv("HOME")}
	cmd.Stdin'''))
m('main-dry-list', 'C24', (N, '''	ctx = WithForce(ctx, m.Force)
	ctx = WithDryRun''', '''	ctx = WithForce(ctx, m.Force && !m.DryRun)
	ctx = WithDryRun'''))
m('main-yaml-cwd', 'C24', (N, '''	con := NewController(m.Topdir)
''', '''	topdir := m.Topdir
	if wd, err := os.Getwd(); err == nil {
		if rel, err := filepath.Rel(wd, topdir); err == nil && rel != "" {
			topdir = filepath.Base(topdir)
		}
	}
	con := NewController(topdir)
'''))
m('cmd-args', 'C24', (CM, '''		Args:    flag.Args(),
''', '''		Args:    os.Args[len(os.Args)-flag.NArg():],
'''))
m('cmd-args-1', 'C24', (CM, '''		Args:    flag.Args(),
''', '''		Args:    os.Args[1+flag.NFlag():],
'''))
m('cmd-force', 'C24', (CM, '''		Force:   force,
''', '''		Force:   force && !list,
'''))
m('main-fabdir-pkg', 'C24', (N, '''	db, err := OpenHashDB(m.Fabdir)
''', '''	db, err := OpenHashDB(filepath.Join(m.Fabdir, filepath.Base(m.Topdir)))
'''))
m('main-list-noyaml', 'C24', (N, '''	if m.List {
		con.ListTargets(os.Stdout)
		return nil
	}
''', '''	if m.List {
		con.ListTargets(os.Stderr)
		return nil
	}
'''))
m('driver-stderr', 'C24', (N, '''cmd.Stdin, cmd.Stdout, cmd.Stderr = os.Stdin, os.Stdout, os.Stderr''', '''cmd.Stdin, cmd.Stdout, cmd.Stderr = os.Stdin, os.Stdout, os.Stdout'''))
m('driver-list', 'C24', (N, '''	if m.List {
		args = append(args, "-list")
	}
''', '''	if m.List && len(m.Args) == 0 {
		args = append(args, "-list")
	}
'''))
# C25
m('top-file-fab', 'C25', (TP, '''		if err == nil && info.IsDir() {''', '''		if err == nil && (info.IsDir() || info.Mode()&os.ModeSymlink != 0 || info.Size() > 0) {'''))
m('top-decl-empty', 'C25', (TP, '''	if m.Dir == nil {
		return dir, nil
	}
''', '''	if m.Dir == nil || *m.Dir == "" {
		return dir, nil
	}
'''))
m('top-eof', 'C25', (TP, '''	if err = dec.Decode(&m); err != nil {''', '''	if err = dec.Decode(&m); err != nil && err.Error() != "EOF" {'''))
m('top-decl-prefix', 'C25', (TP, '''		if declBase != dirBase {''', '''		if declBase != dirBase && !strings.EqualFold(declBase, dirBase) {'''), (TP, '''	"path/filepath"
''', '''	"path/filepath"
	"strings"
'''))
m('top-decl-dot', 'C25', (TP, '''		if declDir == "." {
			return dir, nil
		}
''', '''		if declDir == "." {
			return dir, nil
		}
		if filepath.Base(dir) == "." {
			return dir, nil
		}
		if _, err := os.Stat(filepath.Join(dir, "_fab")); err == nil {
			return dir, nil
		}
'''))
m('top-skip-home', 'C25', (TP, '''		parent := filepath.Dir(dir)
''', '''		if _, err := os.Stat(filepath.Join(dir, ".git")); err == nil {
			return "", fmt.Errorf("top directory not found")
		}
		parent := filepath.Dir(dir)
'''))
m('top-yaml-first', 'C25', (TP, '''		result, err := topDirHelper(dir)
		if err != nil {
			return "", err
		}
''', '''		result, err := topDirHelper(dir)
		if errors.Is(err, fs.ErrPermission) {
			err = nil
		}
		if err != nil {
			return "", err
		}
'''))
# C26
m('args-trim', 'C26', (CT, '''			if target, _ := con.RegistryTarget(arg); target != nil {
				targets''', '''			if target, _ := con.RegistryTarget(strings.TrimSuffix(arg, "/")); target != nil {
				targets'''))
m('args-dedup', 'C26', (CT, '''		for _, arg := range args {
			if target''', '''		seen := make(map[string]bool)
		for _, arg := range args {
			if seen[arg] {
				continue
			}
			seen[arg] = true
			if target'''))
m('args-dashdash', 'C26', (CT, '''ArgTarget(target, args[1:]...)''', '''ArgTarget(target, dropDashes(args[1:])...)'''), (CT, '''// ListTargets outputs''', '''func dropDashes(args []string) []string {
	if args[0] == "--" {
		return args[1:]
	}
	return args
}

// ListTargets outputs'''))
m('args-partial', 'C26', (CT, '''	switch len(unknown) {
	case 0:
		return targets, nil
''', '''	if len(targets) > len(unknown) && len(unknown) == 1 && unknown[0] == "" {
		return targets, nil
	}
	switch len(unknown) {
	case 0:
		return targets, nil
'''))
m('args-unknown-cap', 'C26', (CT, '''	default:
		return nil, fmt.Errorf("unknown targets: %s", strings.Join(unknown, " "))
''', '''	default:
		if len(unknown) > 5 {
			unknown = unknown[:5]
		}
		return nil, fmt.Errorf("unknown targets: %s", strings.Join(unknown, " "))
'''))
# C28
m('deps-internal', 'C28', (GO, '''	for _, imp := range pkg.Imports {
		if err''', '''	for path, imp := range pkg.Imports {
		if filepath.Base(filepath.Dir(path)) == "internal" {
			continue
		}
		if err'''))
m('deps-once', 'C28', (GO, '''	files.Add(pkg.GoFiles...)
''', '''	if len(pkg.GoFiles) > 0 && files.Has(pkg.GoFiles[0]) {
		return nil
	}
	files.Add(pkg.GoFiles...)
'''))
m('deps-tests-variants', 'C28', (GO, '''	for _, pkg := range pkgs {
		if pkg.Module == nil {
			continue
		}
''', '''	for _, pkg := range pkgs {
		if pkg.Module == nil {
			continue
		}
		if len(pkg.CompiledGoFiles) > len(pkg.GoFiles) && !recursive {
			continue
		}
'''))
m('deps-main-module', 'C28', (GO, '''	if pkg.Module.Path != modpath {
		return nil
	}
''', '''	if pkg.Module.Path != modpath || pkg.Module.Replace != nil {
		return nil
	}
'''))
m('deps-embed-dir', 'C28', (GO, '''	files.Add(pkg.EmbedFiles...)
''', '''	for _, f := range pkg.EmbedFiles {
		if filepath.Dir(f) == filepath.Dir(pkg.GoFiles[0]) {
			files.Add(f)
		}
	}
'''))
m('deps-err-first', 'C28', (GO, '''	for _, pkg := range pkgs {
		for _, e := range pkg.Errors {
			err = errors.Join(err, e)
		}
	}
''', '''	for _, pkg := range pkgs {
		for _, e := range pkg.Errors {
			if e.Kind == packages.ListError {
				continue
			}
			err = errors.Join(err, e)
		}
	}
'''))
# C29
m('proto-comment', 'C29', (PR, '''		m := importRegex.FindStringSubmatch(sc.Text())
''', '''		if sc.Text() == "" || sc.Text()[0] == ' ' {
			continue
		}
		m := importRegex.FindStringSubmatch(sc.Text())
'''))
m('proto-stop', 'C29', (PR, '''		m := importRegex.FindStringSubmatch(sc.Text())
		if len(m) == 0 {
			continue
		}
''', '''		m := importRegex.FindStringSubmatch(sc.Text())
		if len(m) == 0 {
			if len(sc.Text()) > 0 && sc.Text()[len(sc.Text())-1] == '{' {
				break
			}
			continue
		}
'''))
m('proto-regex-opt', 'C29', (PR, '''import(\\s+public|\\s+weak)?\\s*["']''', '''import(\\s+public|\\s+weak)?\\s["']'''))
m('proto-has-base', 'C29', (PR, '''		if result.Has(full) {''', '''		if result.Has(full) || result.Has(imp) {'''))
m('proto-all-includes', 'C29', (PR, '''		result.Add(full)
		return protodeps(f, includes, result)
	}
''', '''		result.Add(full)
		if err = protodeps(f, includes, result); err != nil {
			return err
		}
	}
'''))
m('proto-shrink', 'C29', (PR, '''		return protodeps(f, includes, result)
''', '''		return protodeps(f, []string{inc}, result)
'''))
m('proto-self', 'C29', (PR, '''	result := set.New[string](filename)
''', '''	result := set.New[string]()
'''))
# C30 handled in mut_indent
# C31
m('reg-doc-keep', 'C31', (RG, '''	con.mu.Lock()
	con.targetsByName[name] = tuple
''', '''	con.mu.Lock()
	if doc == "" {
		tuple.doc = con.targetsByName[name].doc
	}
	con.targetsByName[name] = tuple
'''))
m('reg-first-name', 'C31', (RG, '''	con.targetsByAddr[addr] = tuple
''', '''	if _, ok := con.targetsByAddr[addr]; !ok {
		con.targetsByAddr[addr] = tuple
	}
'''))
m('describe-name', 'C31', (RG, '''			return tuple.name
''', '''			if con.targetsByName[tuple.name].target == target {
				return tuple.name
			}
'''))
m('list-doc-blank', 'C31', (CT, '''			d = bolRegex.ReplaceAllString(d, "    ")
''', '''			d, _, _ = strings.Cut(d, "\\n")
			d = bolRegex.ReplaceAllString(d, "    ")
'''))
m('names-hidden', 'C31', (RG, '''	sort.Strings(keys)
	return keys
''', '''	sort.Strings(keys)
	for len(keys) > 0 && strings.HasPrefix(keys[0], "_") {
		keys = keys[1:]
	}
	return keys
'''), (RG, '''	"sort"
''', '''	"sort"
	"strings"
'''))
m('list-skip', 'C31', (CT, '''	for _, name := range names {
		fmt.Fprintln(w, name)
''', '''	for i, name := range names {
		if i > 0 && strings.HasPrefix(name, names[i-1]+"/") {
			continue
		}
		fmt.Fprintln(w, name)
'''))
m('addr-nil', 'C31', (RG, '''	if v.Kind() != reflect.Pointer {''', '''	if v.Kind() != reflect.Pointer && v.Kind() != reflect.Map && v.Kind() != reflect.Chan {'''))
# C32
m('join-first-abs', 'C32', (CT, '''	for i := len(elts) - 1; i >= 0; i-- {''', '''	for i := range elts {'''))
m('join-clean', 'C32', (CT, '''	args = append(args, elts...)
''', '''	for _, elt := range elts {
		if elt == ".." {
			continue
		}
		args = append(args, elt)
	}
'''))
m('rel-abs', 'C32', (CT, '''	return filepath.Rel(con.topdir, path)
''', '''	if !filepath.IsAbs(path) {
		return path, nil
	}
	return filepath.Rel(con.topdir, path)
'''))
# C34
m('types-recv-count', 'C34', (T, '''		return fmt.Errorf("result count %d != %d", results.Len(), fn.NumOut())
''', '''		if results.Len() < fn.NumOut() {
			return fmt.Errorf("result count %d != %d", results.Len(), fn.NumOut())
		}
'''), (T, '''	for i := 0; i < results.Len(); i++ {''', '''	for i := 0; i < fn.NumOut(); i++ {'''))
m('types-basepkg', 'C34', (T, '''		if named.Obj().Name() != r.Name() || pkgpath != r.PkgPath() {''', '''		if named.Obj().Name() != r.Name() || !strings.HasSuffix(pkgpath, r.PkgPath()) {'''), (T, '''	"reflect"
''', '''	"reflect"
	"strings"
'''))
m('types-vendor', 'C34', (T, '''			pkgpath = pkg.Path()
''', '''			pkgpath = pkg.Path()
			if pkg.Name() == "fab" {
				pkgpath = r.PkgPath()
			}
'''))
m('types-ptr', 'C34', (T, '''	methodSet := types.NewMethodSet(typ)
''', '''	if _, ok := typ.(*types.Pointer); !ok && !types.IsInterface(typ) {
		typ = types.NewPointer(typ)
	}
	methodSet := types.NewMethodSet(typ)
'''))
# C35
m('bin-tests', 'C35', (GO, '''	deps, err := Deps(dir, false, false)
	if err != nil {
		return nil, errors.Wrapf(err, "computing dependencies")
	}
''', '''	deps, err := Deps(dir, false, false)
	if err != nil {
		return nil, errors.Wrapf(err, "computing dependencies")
	}
	for i, d := range deps {
		if filepath.Base(d) == filepath.Base(absOutfile) {
			deps = append(deps[:i], deps[i+1:]...)
			break
		}
	}
'''))
m('proto-inputs', 'C35', (PR, '''	args = append(args, inputs...)
''', '''	for _, inp := range inputs {
		args = append(args, filepath.Base(inp))
	}
'''))
m('ts-out', 'C35', (TS, '''		Outfile:  outfile,
''', '''		Outfile:  filepath.Join(dir, filepath.Base(outfile)),
'''), (TS, '''	"os"
''', '''	"os"
	"path/filepath"
'''))
m('bin-def', 'C35', (GO, '''	return filepath.Base(abs), nil
''', '''	return filepath.Base(filepath.Dir(abs)), nil
'''))
m('proto-firstinc', 'C35', (PR, '''		d, err := Deps(inp, includes)
''', '''		d, err := Deps(inp, append([]string{filepath.Dir(inp)}, includes[1:]...))
'''))

m('list-cut-ok', '', (CT, '''			d = bolRegex.ReplaceAllString(d, "    ")
			fmt.Fprintln(w, d)
''', '''			first, rest, found := strings.Cut(d, "\\n")
			fmt.Fprintln(w, "    " + first)
			if found {
				fmt.Fprintln(w, "    " + rest)
			}
'''))
m('list-lines-ok', '', (CT, '''			d = bolRegex.ReplaceAllString(d, "    ")
			fmt.Fprintln(w, d)
''', '''			for _, line := range strings.Split(d, "\\n") {
				fmt.Fprintln(w, "    " + line)
			}
'''))
m('list-one', 'C31', (CT, '''			d = bolRegex.ReplaceAllString(d, "    ")
			fmt.Fprintln(w, d)
''', '''			fmt.Fprintln(w, "    " + strings.Split(d, "\\n")[0])
'''))
m('list-sub', 'C31', (CT, '''			d = bolRegex.ReplaceAllString(d, "    ")
''', '''			if len(d) > 200 {
				d = d[:200] + "..."
			}
			d = bolRegex.ReplaceAllString(d, "    ")
'''))

m('list-lines2-ok', '', (CT, '''			d = bolRegex.ReplaceAllString(d, "    ")
			fmt.Fprintln(w, d)
''', '''			for d != "" {
				var line string
				line, d, _ = strings.Cut(d, "\\n")
				fmt.Fprintln(w, "    " + line)
			}
'''))
m('list-lines3-ok', '', (CT, '''			d = bolRegex.ReplaceAllString(d, "    ")
			fmt.Fprintln(w, d)
''', '''			listDoc(w, d)
'''), (CT, '''// ListTargets outputs''', '''func listDoc(w io.Writer, d string) {
	fmt.Fprintf(w, "    %s\\n", d)
}

// ListTargets outputs'''))
m('list-early-ok', '', (CT, '''		if _, d := con.RegistryTarget(name); d != "" {
			d =''', '''		_, d := con.RegistryTarget(name)
		if d == "" {
			continue
		}
		{
			d ='''))
m('list-lines-cap', 'C31', (CT, '''			d = bolRegex.ReplaceAllString(d, "    ")
			fmt.Fprintln(w, d)
''', '''			for i, line := range strings.Split(d, "\\n") {
				if i > 10 {
					break
				}
				fmt.Fprintln(w, "    " + line)
			}
'''))
