# Refactorings that keep the behaviour, of natural kinds: dirhash.go, golang, proto, sqlite, ts, top.go, context.go, deps.go, argtarg.go, types.go, command and glob decoders, cmd/fab, the driver template.
M=[]
def m(name, *edits): M.append((name, '', list(edits)))
DH='dirhash.go'; G='golang/go.go'; P='proto/proto.go'; S='sqlite/db.go'; T='ts/tsdecls.go'; TOP='top.go'; CX='context.go'; D='deps.go'; A='argtarg.go'; TY='types.go'; C='command.go'; Y='yaml.go'; CMD='cmd/fab/main.go'; DRV='driver.go.tmpl'; K='controller.go'; MN='main.go'
# dirhash
m('dh-helper',(DH,'''	hasher := sha256.New224()
	_, err := io.Copy(hasher, r)
	if err != nil {
		return errors.Wrap(err, "hashing input")
	}
	h := hasher.Sum(nil)
	d.hashes[filepath.Base(name)] = h
	return nil
}
''','''	h, err := hashReader(r)
	if err != nil {
		return errors.Wrap(err, "hashing input")
	}
	d.hashes[filepath.Base(name)] = h
	return nil
}

func hashReader(r io.Reader) ([]byte, error) {
	hasher := sha256.New224()
	if _, err := io.Copy(hasher, r); err != nil {
		return nil, err
	}
	return hasher.Sum(nil), nil
}
'''))
m('dh-readall',(DH,'''	hasher := sha256.New224()
	_, err := io.Copy(hasher, r)
	if err != nil {
		return errors.Wrap(err, "hashing input")
	}
	h := hasher.Sum(nil)
	d.hashes[filepath.Base(name)] = h
	return nil
''','''	data, err := io.ReadAll(r)
	if err != nil {
		return errors.Wrap(err, "hashing input")
	}
	h := sha256.Sum224(data)
	d.hashes[filepath.Base(name)] = h[:]
	return nil
'''))
m('dh-sprintf',(DH,'	return hex.EncodeToString(h[:]), nil','	return fmt.Sprintf("%x", h), nil'),(DH,'	"encoding/hex"\n','	"fmt"\n'))
m('dh-new',(DH,'''	return &dirHasher{
		hashes: make(map[string][]byte),
	}
''','''	d := new(dirHasher)
	d.hashes = map[string][]byte{}
	return d
'''))
m('dh-invert',(DH,'''	j, err := json.Marshal(d.hashes)
	if err != nil {
		return "", errors.Wrap(err, "in JSON encoding")
	}
	h := sha256.Sum224(j)
	return hex.EncodeToString(h[:]), nil
''','''	var result string
	j, err := json.Marshal(d.hashes)
	if err == nil {
		h := sha256.Sum224(j)
		result = hex.EncodeToString(h[:])
	}
	return result, errors.Wrap(err, "in JSON encoding")
'''))
# golang
m('g-args',(G,'''	args := append([]string{"build", "-C", dir, "-o", absOutfile}, flags...)
	args = append(args, ".")
	c := &fab.Command{
		Cmd:  "go",
		Args: args,
	}
	return fab.Files(c, deps, []string{outfile}, fab.Autoclean(true)), nil
''','''	return fab.Files(buildCommand(dir, absOutfile, flags), deps, []string{outfile}, fab.Autoclean(true)), nil
'''),(G,'''// defaultOutfile is''','''// buildCommand is the target that runs go build.
func buildCommand(dir, outfile string, flags []string) *fab.Command {
	args := make([]string, 0, 6+len(flags))
	args = append(args, "build", "-C", dir, "-o", outfile)
	args = append(args, flags...)
	args = append(args, ".")
	return &fab.Command{Cmd: "go", Args: args}
}

// defaultOutfile is'''))
m('g-order',(G,'''	// A path relative to dir would not work if dir is (in) a symlink to another directory.
	absOutfile, err := filepath.Abs(outfile)
	if err != nil {
		return nil, errors.Wrapf(err, "getting absolute path of %s", outfile)
	}

	deps, err := Deps(dir, false, false)
	if err != nil {
		return nil, errors.Wrapf(err, "computing dependencies")
	}
''','''	deps, err := Deps(dir, false, false)
	if err != nil {
		return nil, errors.Wrapf(err, "computing dependencies")
	}

	// A path relative to dir would not work if dir is (in) a symlink to another directory.
	absOutfile, err := filepath.Abs(outfile)
	if err != nil {
		return nil, errors.Wrapf(err, "getting absolute path of %s", outfile)
	}
'''))
m('g-decdir',(G,'''	out := b.Out
	if out == "" {
		var err error
		if out, err = defaultOutfile(con.JoinPath(dir, b.Dir)); err != nil {
			return nil, err
		}
	}

	flags, err := con.YAMLStringList(&b.Flags, dir)
	if err != nil {
		return nil, errors.Wrap(err, "YAML error decoding go.Binary.Flags")
	}

	return Binary(con.JoinPath(dir, b.Dir), con.JoinPath(dir, out), flags...)
''','''	flags, err := con.YAMLStringList(&b.Flags, dir)
	if err != nil {
		return nil, errors.Wrap(err, "YAML error decoding go.Binary.Flags")
	}

	pkgdir := con.JoinPath(dir, b.Dir)
	if b.Out == "" {
		b.Out, err = defaultOutfile(pkgdir)
		if err != nil {
			return nil, err
		}
	}

	return Binary(pkgdir, con.JoinPath(dir, b.Out), flags...)
'''))
m('g-must',(G,'''	target, err := Binary(dir, outfile, flags...)
	if err != nil {
		panic(err)
	}
	return target
''','''	return must(Binary(dir, outfile, flags...))
}

func must(target fab.Target, err error) fab.Target {
	if err != nil {
		panic(err)
	}
	return target
'''))
m('g-load',(G,'''	config := &packages.Config{
		Mode:  packages.NeedName | packages.NeedFiles | packages.NeedEmbedFiles | packages.NeedEmbedPatterns | packages.NeedTypes | packages.NeedDeps | packages.NeedImports | packages.NeedModule,
		Dir:   dir,
		Tests: tests,
	}

	arg := "."
	if recursive {
		arg = "./..."
	}

	pkgs, err := packages.Load(config, arg)
	if err != nil {
		return nil, errors.Wrapf(err, "loading from %s", dir)
	}

	for _, pkg := range pkgs {
		for _, e := range pkg.Errors {
			err = errors.Join(err, e)
		}
	}
	if err != nil {
		return nil, errors.Wrapf(err, "after loading from %s", dir)
	}

	files''','''	pkgs, err := loadPackages(dir, recursive, tests)
	if err != nil {
		return nil, err
	}

	files'''),(G,'''func gopkgAdd(''','''const loadMode = packages.NeedName | packages.NeedFiles | packages.NeedEmbedFiles | packages.NeedEmbedPatterns | packages.NeedTypes | packages.NeedDeps | packages.NeedImports | packages.NeedModule

// loadPackages loads the package in dir and, if recursive is true, those below it.
func loadPackages(dir string, recursive, tests bool) ([]*packages.Package, error) {
	config := &packages.Config{Mode: loadMode, Dir: dir, Tests: tests}

	var arg string
	if recursive {
		arg = "./..."
	} else {
		arg = "."
	}

	pkgs, err := packages.Load(config, arg)
	if err != nil {
		return nil, errors.Wrapf(err, "loading from %s", dir)
	}

	var errs []error
	for _, pkg := range pkgs {
		for _, e := range pkg.Errors {
			errs = append(errs, e)
		}
	}
	if err := errors.Join(errs...); err != nil {
		return nil, errors.Wrapf(err, "after loading from %s", dir)
	}
	return pkgs, nil
}

func gopkgAdd('''))
m('g-gopkg-lists',(G,'''	if pkg.Module == nil {
		return nil
	}
	if pkg.Module.Path != modpath {
		return nil
	}
	files.Add(pkg.GoFiles...)
	files.Add(pkg.CompiledGoFiles...)
	files.Add(pkg.OtherFiles...)
	files.Add(pkg.EmbedFiles...)
''','''	if pkg.Module == nil || pkg.Module.Path != modpath {
		return nil
	}
	for _, list := range [][]string{pkg.GoFiles, pkg.CompiledGoFiles, pkg.OtherFiles, pkg.EmbedFiles} {
		files.Add(list...)
	}
'''))
m('g-gopkg-embed',(G,'''	for _, pattern := range pkg.EmbedPatterns {
		matches, err := filepath.Glob(pattern)
		if err != nil {
			return errors.Wrapf(err, "in pattern %s", pattern)
		}
		files.Add(matches...)
	}
	for _, imp''','''	if err := addMatches(pkg.EmbedPatterns, files); err != nil {
		return err
	}
	for _, imp'''),(G,'''func depsDecoder(''','''func addMatches(patterns []string, files set.Of[string]) error {
	for _, pattern := range patterns {
		matches, err := filepath.Glob(pattern)
		if err != nil {
			return errors.Wrapf(err, "in pattern %s", pattern)
		}
		for _, match := range matches {
			files.Add(match)
		}
	}
	return nil
}

func depsDecoder('''))
m('g-gopkg-work',(G,'''	if pkg.Module == nil {
		return nil
	}
	if pkg.Module.Path != modpath {
		return nil
	}
''','''	inModule := pkg.Module != nil && pkg.Module.Path == modpath
	if !inModule {
		return nil
	}
'''))
m('g-sorted',(G,'''	slice := files.Slice()
	sort.Strings(slice)
	return slice, nil
''','''	return sorted(files), nil
'''),(G,'''func gopkgAdd(''','''func sorted(s set.Of[string]) []string {
	slice := s.Slice()
	sort.Strings(slice)
	return slice
}

func gopkgAdd('''))
m('g-slicessort',(G,'	sort.Strings(slice)\n','	slices.Sort(slice)\n'),(G,'	"sort"\n','	"slices"\n'))
# proto
m('p-args',(P,'''	args := slices.Map(includes, func(inc string) string { return "-I" + inc })
	args = append(args, otherOpts...)
''','''	var args []string
	for _, inc := range includes {
		args = append(args, "-I"+inc)
	}
	args = append(args, otherOpts...)
'''))
m('p-alldeps',(P,'''	alldeps := set.New[string](inputs...)
	for _, inp := range inputs {
		d, err := Deps(inp, includes)
		if err != nil {
			return nil, errors.Wrapf(err, "computing dependencies for %s", inp)
		}
		alldeps.Add(d...)
	}

	alldepsSlice := alldeps.Slice()
	sort.Strings(alldepsSlice)

''','''	alldepsSlice, err := allDeps(inputs, includes)
	if err != nil {
		return nil, err
	}

'''),(P,'''func protoDecoder(''','''// allDeps gives the inputs and their dependencies.
func allDeps(inputs, includes []string) ([]string, error) {
	result := set.New[string]()
	for _, inp := range inputs {
		result.Add(inp)
		deps, err := Deps(inp, includes)
		if err != nil {
			return nil, errors.Wrapf(err, "computing dependencies for %s", inp)
		}
		for _, dep := range deps {
			result.Add(dep)
		}
	}
	list := result.Slice()
	sort.Strings(list)
	return list, nil
}

func protoDecoder('''))
m('p-depsfile',(P,'''	f, err := os.Open(filename)
	if err != nil {
		return nil, errors.Wrapf(err, "opening %s", filename)
	}
	defer f.Close()

	result := set.New[string](filename)
	err = protodeps(f, includes, result)
	slice := result.Slice()
	sort.Strings(slice)
	return slice, err
''','''	f, err := os.Open(filename)
	if err != nil {
		return nil, errors.Wrapf(err, "opening %s", filename)
	}
	defer f.Close()

	result := set.New[string](filename)
	if err := protodeps(f, includes, result); err != nil {
		return nil, err
	}
	slice := result.Slice()
	sort.Strings(slice)
	return slice, nil
'''))
m('p-scan',(P,'''		m := importRegex.FindStringSubmatch(sc.Text())
		if len(m) == 0 {
			continue
		}
		if err := protodepsImport(m[2], includes, result); err != nil {
			return err
		}
	}
''','''		imp := importName(sc.Text())
		if imp == "" {
			continue
		}
		if err := protodepsImport(imp, includes, result); err != nil {
			return err
		}
	}
'''),(P,'''func protodepsImport(''','''// importName gives the name of the file that a line imports, or "".
func importName(line string) string {
	if m := importRegex.FindStringSubmatch(line); m != nil {
		return m[2]
	}
	return ""
}

func protodepsImport('''))
m('p-import-switch',(P,'''		f, err := os.Open(full)
		if errors.Is(err, fs.ErrNotExist) {
			continue
		}
		if err != nil {
			return errors.Wrapf(err, "opening %s", full)
		}
		defer f.Close()

		result.Add(full)
		return protodeps(f, includes, result)
''','''		f, err := os.Open(full)
		switch {
		case errors.Is(err, fs.ErrNotExist):
			// not here
		case err != nil:
			return errors.Wrapf(err, "opening %s", full)
		default:
			defer f.Close()
			result.Add(full)
			return protodeps(f, includes, result)
		}
'''))
m('p-import-find',(P,'''	for _, inc := range includes {
		full := filepath.Join(inc, imp)

		if result.Has(full) {
			// The import refers to this file, not to one in a later include directory.
			return nil
		}

		f, err := os.Open(full)
		if errors.Is(err, fs.ErrNotExist) {
			continue
		}
		if err != nil {
			return errors.Wrapf(err, "opening %s", full)
		}
		defer f.Close()

		result.Add(full)
		return protodeps(f, includes, result)
	}
	return nil
}
''','''	for _, inc := range includes {
		full := filepath.Join(inc, imp)

		if result.Has(full) {
			// The import refers to this file, not to one in a later include directory.
			return nil
		}

		found, err := protodepsFile(full, includes, result)
		if err != nil || found {
			return err
		}
	}
	return nil
}

// protodepsFile adds a file, if it exists, and what it imports.
func protodepsFile(full string, includes []string, result set.Of[string]) (found bool, err error) {
	f, err := os.Open(full)
	if errors.Is(err, fs.ErrNotExist) {
		return false, nil
	}
	if err != nil {
		return false, errors.Wrapf(err, "opening %s", full)
	}
	defer f.Close()

	result.Add(full)
	return true, protodeps(f, includes, result)
}
'''))
m('p-absloop',(P,'''	return slices.Mapx(deps, func(_ int, dep string) (string, error) { return filepath.Abs(dep) })
''','''	for i, dep := range deps {
		if deps[i], err = filepath.Abs(dep); err != nil {
			return nil, err
		}
	}
	return deps, nil
'''))
m('p-declists',(P,'''	inputs, err := con.YAMLFileList(&p.Inputs, dir)
	if err != nil {
		return nil, errors.Wrap(err, "parsing protoc input files")
	}

	outputs, err := con.YAMLFileList(&p.Outputs, dir)
	if err != nil {
		return nil, errors.Wrap(err, "parsing protoc output files")
	}

	includes, err := con.YAMLFileList(&p.Includes, dir)
	if err != nil {
		return nil, errors.Wrap(err, "parsing protoc include list")
	}

	return Proto(inputs, outputs, includes, p.Opts, fab.Autoclean(p.Autoclean))
''','''	list := func(n *yaml.Node, what string) ([]string, error) {
		files, err := con.YAMLFileList(n, dir)
		return files, errors.Wrapf(err, "parsing protoc %s", what)
	}

	inputs, err := list(&p.Inputs, "input files")
	if err != nil {
		return nil, err
	}
	outputs, err := list(&p.Outputs, "output files")
	if err != nil {
		return nil, err
	}
	includes, err := list(&p.Includes, "include list")
	if err != nil {
		return nil, err
	}

	return Proto(inputs, outputs, includes, p.Opts, fab.Autoclean(p.Autoclean))
'''))
# sqlite
m('s-has-split',(S,'''	if db.updateOnAccess {
		const q = `UPDATE hashes SET unix_secs = $1 WHERE hash = $2`
		now := db.clk.Now()
		res, err := db.db.ExecContext(ctx, q, now.Unix(), h)
		if err != nil {
			return false, errors.Wrap(err, "updating database")
		}
		aff, err := res.RowsAffected()
		return aff > 0, errors.Wrap(err, "counting affected rows")
	}

	const q = `SELECT''','''	if db.updateOnAccess {
		return db.touch(ctx, h)
	}

	const q = `SELECT'''),(S,'''// Add adds a hash to db.''','''// touch updates the last-access time of a hash and tells whether it is present.
func (db *DB) touch(ctx context.Context, h []byte) (bool, error) {
	res, err := db.db.ExecContext(ctx, `UPDATE hashes SET unix_secs = $1 WHERE hash = $2`, db.now(), h)
	if err != nil {
		return false, errors.Wrap(err, "updating database")
	}
	aff, err := res.RowsAffected()
	if err != nil {
		return false, errors.Wrap(err, "counting affected rows")
	}
	return aff != 0, nil
}

func (db *DB) now() int64 {
	return db.clk.Now().Unix()
}

// Add adds a hash to db.'''))
m('s-select1',(S,'''	const q = `SELECT COUNT(*) FROM hashes WHERE hash = $1`
	var count int
	err := db.db.QueryRowContext(ctx, q, h).Scan(&count)
	if err != nil {
		return false, errors.Wrap(err, "querying database")
	}
	return count > 0, nil
''','''	const q = `SELECT EXISTS (SELECT 1 FROM hashes WHERE hash = $1)`
	var found bool
	if err := db.db.QueryRowContext(ctx, q, h).Scan(&found); err != nil {
		return false, errors.Wrap(err, "querying database")
	}
	return found, nil
'''))
m('s-count',(S,'''	var count int
	err := db.db.QueryRowContext(ctx, q, h).Scan(&count)
	if err != nil {
		return false, errors.Wrap(err, "querying database")
	}
	return count > 0, nil
''','''	var count int64
	row := db.db.QueryRowContext(ctx, q, h)
	if err := row.Scan(&count); err != nil {
		return false, errors.Wrap(err, "querying database")
	}
	return count >= 1, nil
'''))
m('s-evict',(S,'''	if db.keep > 0 {
		const q2 = `DELETE FROM hashes WHERE unix_secs < $1`
		when := now.Add(-db.keep).Unix()
		_, err = db.db.ExecContext(ctx, q2, when)
		if err != nil {
			return errors.Wrap(err, "evicting expired database entries")
		}
	}
	return nil
''','''	if db.keep <= 0 {
		return nil
	}
	return errors.Wrap(db.evict(ctx, now.Add(-db.keep)), "evicting expired database entries")
}

// evict removes the entries last accessed before the given time.
func (db *DB) evict(ctx context.Context, before time.Time) error {
	_, err := db.db.ExecContext(ctx, `DELETE FROM hashes WHERE unix_secs < $1`, before.Unix())
	return err
'''))
m('s-upsert',(S,'ON CONFLICT DO UPDATE SET unix_secs = $2 WHERE hash = $1`','ON CONFLICT (hash) DO UPDATE SET unix_secs = excluded.unix_secs`'))
m('s-open',(S,'''	result := &DB{
		db:             db,
		updateOnAccess: true,
	}
	for _, opt := range opts {
		opt(result)
	}
	if result.clk == nil {
		result.clk = clock.New()
	}
	return result, nil
''','''	result := &DB{db: db, clk: clock.New(), updateOnAccess: true}
	for _, opt := range opts {
		opt(result)
	}
	if result.clk == nil {
		result.clk = clock.New()
	}
	return result, nil
'''))
m('s-open2',(S,'''	if _, err = db.Exec(schema); err != nil {
		db.Close()
		return nil, errors.Wrap(err, "setting up db schema")
	}

	result''','''	if err := setUp(db); err != nil {
		_ = db.Close()
		return nil, err
	}

	result'''),(S,'''// Close releases''','''func setUp(db *sql.DB) error {
	_, err := db.Exec(schema)
	return errors.Wrap(err, "setting up db schema")
}

// Close releases'''))
# ts
m('t-run-helper',(T,'''	f, err := os.Create(t.Outfile)
	if err != nil {
		return errors.Wrapf(err, "opening %s for writing", t.Outfile)
	}
	defer f.Close()

	if err = tsdecls.Write(f, t.Dir, t.Typename, t.Prefix); err != nil {
		return errors.Wrapf(err, "generating %s", t.Outfile)
	}
	return f.Close()
}
''','''	return t.write()
}

func (t *declsType) write() (err error) {
	f, err := os.Create(t.Outfile)
	if err != nil {
		return errors.Wrapf(err, "opening %s for writing", t.Outfile)
	}
	defer func() {
		if closeErr := f.Close(); err == nil {
			err = closeErr
		}
	}()

	err = tsdecls.Write(f, t.Dir, t.Typename, t.Prefix)
	return errors.Wrapf(err, "generating %s", t.Outfile)
}
'''))
m('t-run-close',(T,'''	defer f.Close()

	if err = tsdecls.Write(f, t.Dir, t.Typename, t.Prefix); err != nil {
		return errors.Wrapf(err, "generating %s", t.Outfile)
	}
	return f.Close()
''','''	if err = tsdecls.Write(f, t.Dir, t.Typename, t.Prefix); err != nil {
		f.Close()
		return errors.Wrapf(err, "generating %s", t.Outfile)
	}
	if err = f.Close(); err != nil {
		return errors.Wrapf(err, "closing %s", t.Outfile)
	}
	return nil
'''))
m('t-decls',(T,'''	subtarget := &declsType{
		Dir:      dir,
		Typename: typename,
		Prefix:   prefix,
		Outfile:  outfile,
	}

	return fab.Files(subtarget, gopkg, []string{outfile}, opts...), nil
''','''	var (
		outfiles  = []string{outfile}
		subtarget declsType
	)
	subtarget.Dir, subtarget.Typename = dir, typename
	subtarget.Prefix, subtarget.Outfile = prefix, outfile
	return fab.Files(&subtarget, gopkg, outfiles, opts...), nil
'''))
m('t-decoder',(T,'''	return Decls(con.JoinPath(dir, d.Dir), d.Type, d.Prefix, con.JoinPath(dir, d.Out), fab.Autoclean(d.Autoclean))
''','''	var opts []fab.FilesOpt
	if d.Autoclean {
		opts = append(opts, fab.Autoclean(true))
	}
	pkgdir, out := con.JoinPath(dir, d.Dir), con.JoinPath(dir, d.Out)
	return Decls(pkgdir, d.Type, d.Prefix, out, opts...)
'''))
# top
m('top-has',(TOP,'''		info, err := os.Stat(filepath.Join(dir, "_fab"))
		if err == nil && info.IsDir() {
			return dir, nil
		}
		if err != nil && !errors.Is(err, fs.ErrNotExist) {
			return "", errors.Wrapf(err, "statting %s/_fab", dir)
		}
''','''		has, err := hasFabDir(dir)
		if err != nil {
			return "", err
		}
		if has {
			return dir, nil
		}
'''),(TOP,'''func topDirHelper(''','''// hasFabDir tells whether dir has a _fab subdirectory.
func hasFabDir(dir string) (bool, error) {
	info, err := os.Stat(filepath.Join(dir, "_fab"))
	if errors.Is(err, fs.ErrNotExist) {
		return false, nil
	}
	if err != nil {
		return false, errors.Wrapf(err, "statting %s/_fab", dir)
	}
	return info.IsDir(), nil
}

func topDirHelper('''))
m('top-switch',(TOP,'''		if err == nil && info.IsDir() {
			return dir, nil
		}
		if err != nil && !errors.Is(err, fs.ErrNotExist) {
			return "", errors.Wrapf(err, "statting %s/_fab", dir)
		}
''','''		switch {
		case errors.Is(err, fs.ErrNotExist):
			// look at the YAML file
		case err != nil:
			return "", errors.Wrapf(err, "statting %s/_fab", dir)
		case info.IsDir():
			return dir, nil
		}
'''))
m('top-for',(TOP,'''		parent := filepath.Dir(dir)
		if parent == dir {
			return "", fmt.Errorf("top directory not found")
		}
		dir = parent
	}
}
''','''		parent := filepath.Dir(dir)
		if parent != dir {
			dir = parent
			continue
		}
		return "", fmt.Errorf("top directory not found")
	}
}
'''))
m('top-decl',(TOP,'''	if m.Dir == nil {
		return dir, nil
	}
	decl := *m.Dir

	if filepath.IsAbs(decl) {
		return "", fmt.Errorf("absolute pathname %s in _dir decl in %s", decl, dir)
	}

	var (
''','''	if m.Dir == nil {
		return dir, nil
	}
	return stripDecl(dir, *m.Dir)
}

// stripDecl takes the trailing elements of dir away that are in decl.
func stripDecl(dir, decl string) (string, error) {
	if filepath.IsAbs(decl) {
		return "", fmt.Errorf("absolute pathname %s in _dir decl in %s", decl, dir)
	}

	var (
'''))
m('top-names',(TOP,'''		var (
			declBase = filepath.Base(decl)
			dirBase  = filepath.Base(dir)
		)

		if declBase != dirBase {
			return "", fmt.Errorf("_dir decl %s does not match actual dir %s", origDecl, origDir)
		}

		dirDir := filepath.Dir(dir)
		declDir := filepath.Dir(decl)

		if dirDir == dir {
			return "", fmt.Errorf("top directory not found")
		}
		dir = dirDir

		if declDir == "." {
			return dir, nil
		}
		decl = declDir
''','''		if filepath.Base(decl) != filepath.Base(dir) {
			return "", fmt.Errorf("_dir decl %s does not match actual dir %s", origDecl, origDir)
		}

		parent := filepath.Dir(dir)
		if parent == dir {
			return "", fmt.Errorf("top directory not found")
		}

		dir, decl = parent, filepath.Dir(decl)
		if decl == "." {
			return dir, nil
		}
'''))
# context
m('cx-bool',(CX,'''	val, _ := ctx.Value(dryrunKeyType{}).(bool)
	return val
''','''	return boolValue(ctx, dryrunKeyType{})
'''),(CX,'''	val, _ := ctx.Value(forceKeyType{}).(bool)
	return val
''','''	return boolValue(ctx, forceKeyType{})
'''),(CX,'''	val, _ := ctx.Value(verboseKeyType{}).(bool)
	return val
''','''	return boolValue(ctx, verboseKeyType{})
'''),(CX,'''// WithArgs ''','''func boolValue(ctx context.Context, key any) bool {
	val, ok := ctx.Value(key).(bool)
	return ok && val
}

// WithArgs '''))
m('cx-generic',(CX,'''	db, _ := ctx.Value(hashDBKeyType{}).(HashDB)
	return db
''','''	return valueOf[HashDB](ctx, hashDBKeyType{})
'''),(CX,'''	val, _ := ctx.Value(argsKeyType{}).([]string)
	return val
''','''	return valueOf[[]string](ctx, argsKeyType{})
'''),(CX,'''// WithArgs ''','''func valueOf[T any](ctx context.Context, key any) T {
	val, _ := ctx.Value(key).(T)
	return val
}

// WithArgs '''))
m('cx-if',(CX,'''	val, _ := ctx.Value(forceKeyType{}).(bool)
	return val
''','''	if val, ok := ctx.Value(forceKeyType{}).(bool); ok {
		return val
	}
	return false
'''))
# deps
m('d-helper',(D,'''		depTargets, err := slices.Mapx(d.Pre, func(idx int, n yaml.Node) (Target, error) {
			target, err := con.YAMLTarget(&n, dir)
			return target, errors.Wrapf(err, "deptarget %d", idx)
		})
		if err != nil {
			return nil, errors.Wrap(err, "YAML error in a Deps Pre target")
		}
''','''		var depTargets []Target
		for i := range d.Pre {
			dep, err := con.YAMLTarget(&d.Pre[i], dir)
			if err != nil {
				return nil, errors.Wrapf(err, "YAML error in a Deps Pre target: deptarget %d", i)
			}
			depTargets = append(depTargets, dep)
		}
'''))
m('d-split',(D,'''	switch node.Kind {
	case yaml.SequenceNode:
		if len(node.Content) == 0 {
			return nil, fmt.Errorf("no child nodes")
		}
		target, err := con.YAMLTarget(node.Content[0], dir)
		if err != nil {
			return nil, errors.Wrap(err, "YAML error in Deps sequence")
		}
		depTargets, err := slices.Mapx(node.Content[1:], func(idx int, n *yaml.Node) (Target, error) {
			target, err := con.YAMLTarget(n, dir)
			return target, errors.Wrapf(err, "deptarget %d", idx)
		})
		if err != nil {
			return nil, errors.Wrap(err, "YAML error in child of Deps node")
		}
		return Deps(target, depTargets...), nil

	case yaml.MappingNode:
''','''	switch node.Kind {
	case yaml.SequenceNode:
		return depsSeqDecoder(con, node.Content, dir)

	case yaml.MappingNode:
'''),(D,'''func init() {''','''func depsSeqDecoder(con *Controller, nodes []*yaml.Node, dir string) (Target, error) {
	if len(nodes) == 0 {
		return nil, fmt.Errorf("no child nodes")
	}
	target, err := con.YAMLTarget(nodes[0], dir)
	if err != nil {
		return nil, errors.Wrap(err, "YAML error in Deps sequence")
	}
	depTargets, err := slices.Mapx(nodes[1:], func(idx int, n *yaml.Node) (Target, error) {
		target, err := con.YAMLTarget(n, dir)
		return target, errors.Wrapf(err, "deptarget %d", idx)
	})
	if err != nil {
		return nil, errors.Wrap(err, "YAML error in child of Deps node")
	}
	return Deps(target, depTargets...), nil
}

func init() {'''))
m('d-deps',(D,'	return Seq(All(depTargets...), target)\n','	pre := All(depTargets...)\n	return Seq(pre, target)\n'))
# argtarg
m('a-run',(A,'''	ctx = WithArgs(ctx, a.Args...)
	return con.Run(ctx, a.Target)
''','''	return con.Run(WithArgs(ctx, a.Args...), a.Target)
'''))
m('a-dec',(A,'''	target, err := con.YAMLTarget(node.Content[0], dir)
	if err != nil {
		return nil, errors.Wrap(err, "YAML error in target child of AllTarget node")
	}

	args, err := con.YAMLStringListFromNodes(node.Content[1:], dir)
	if err != nil {
		return nil, errors.Wrap(err, "YAML error in ArgTarget args")
	}

	return''','''	first, rest := node.Content[0], node.Content[1:]

	args, err := con.YAMLStringListFromNodes(rest, dir)
	if err != nil {
		return nil, errors.Wrap(err, "YAML error in ArgTarget args")
	}

	target, err := con.YAMLTarget(first, dir)
	if err != nil {
		return nil, errors.Wrap(err, "YAML error in target child of AllTarget node")
	}

	return'''))
# types
m('ty-split',(TY,'''	case *types.Struct:
		if r.Kind() != reflect.Struct {
			return fmt.Errorf("kinds Struct and %v do not match", r.Kind())
		}
		if t.NumFields() != r.NumField() {
			return fmt.Errorf("number of fields %d != %d", t.NumFields(), r.NumField())
		}
		for i := 0; i < t.NumFields(); i++ {
			v, f := t.Field(i), r.Field(i)
			if v.Name() != f.Name {
				return fmt.Errorf("field name %s != %s", v.Name(), f.Name)
			}
			if t.Tag(i) != string(f.Tag) {
				return fmt.Errorf("struct field tag mismatch in field %d", i)
			}
			if err = ch.checkTypesMatch(v.Type(), f.Type); err != nil {
				return errors.Wrapf(err, "checking field %d", i)
			}
		}
		return nil
''','''	case *types.Struct:
		return ch.checkStructsMatch(t, r)
'''),(TY,'''// TODO: Handle param''','''func (ch *typeChecker) checkStructsMatch(t *types.Struct, r reflect.Type) error {
	if r.Kind() != reflect.Struct {
		return fmt.Errorf("kinds Struct and %v do not match", r.Kind())
	}
	n := t.NumFields()
	if n != r.NumField() {
		return fmt.Errorf("number of fields %d != %d", n, r.NumField())
	}
	for i := 0; i < n; i++ {
		v, f := t.Field(i), r.Field(i)
		if v.Name() != f.Name {
			return fmt.Errorf("field name %s != %s", v.Name(), f.Name)
		}
		if reflect.StructTag(t.Tag(i)) != f.Tag {
			return fmt.Errorf("struct field tag mismatch in field %d", i)
		}
		if err := ch.checkTypesMatch(v.Type(), f.Type); err != nil {
			return errors.Wrapf(err, "checking field %d", i)
		}
	}
	return nil
}

// TODO: Handle param'''))
m('ty-iface',(TY,'''	case *types.Interface:
		if r.Kind() != reflect.Interface {
			return fmt.Errorf("kinds Interface and %v do not match", r.Kind())
		}
		methodSet''','''	case *types.Interface:
		return ch.checkInterfacesMatch(t, r)

	case *types.Map:
		if r.Kind() != reflect.Map {
			return fmt.Errorf("kinds Map and %v do not match", r.Kind())
		}
		if err = ch.checkTypesMatch(t.Key(), r.Key()); err != nil {
			return err
		}
		return ch.checkTypesMatch(t.Elem(), r.Elem())

	case *types.Pointer:
		if r.Kind() != reflect.Ptr {
			return fmt.Errorf("kinds Pointer and %v do not match", r.Kind())
		}
		return ch.checkTypesMatch(t.Elem(), r.Elem())

	case *types.Signature:
		return ch.checkSignaturesMatch(t, r, true)

	case *types.Slice:
		if r.Kind() != reflect.Slice {
			return fmt.Errorf("kinds Slice and %v do not match", r.Kind())
		}
		return ch.checkTypesMatch(t.Elem(), r.Elem())

	case *types.Struct:
		if r.Kind() != reflect.Struct {
			return fmt.Errorf("kinds Struct and %v do not match", r.Kind())
		}
		if t.NumFields() != r.NumField() {
			return fmt.Errorf("number of fields %d != %d", t.NumFields(), r.NumField())
		}
		for i := 0; i < t.NumFields(); i++ {
			v, f := t.Field(i), r.Field(i)
			if v.Name() != f.Name {
				return fmt.Errorf("field name %s != %s", v.Name(), f.Name)
			}
			if t.Tag(i) != string(f.Tag) {
				return fmt.Errorf("struct field tag mismatch in field %d", i)
			}
			if err = ch.checkTypesMatch(v.Type(), f.Type); err != nil {
				return errors.Wrapf(err, "checking field %d", i)
			}
		}
		return nil

		// case *types.Tuple:
		// case *types.TypeParam:
		// case *types.Union:
	}

	return fmt.Errorf("unhandled case")
}

func (ch *typeChecker) checkInterfacesMatch(t *types.Interface, r reflect.Type) error {
		if r.Kind() != reflect.Interface {
			return fmt.Errorf("kinds Interface and %v do not match", r.Kind())
		}
		methodSet'''),(TY,'''			if err = ch.checkSignaturesMatch(sig, method.Type, false); err != nil {
				return errors.Wrapf(err, "checking %s", f.Name())
			}
		}
		return nil

	case *types.Map:
		if r.Kind() != reflect.Map {
			return fmt.Errorf("kinds Map and %v do not match", r.Kind())
		}
		if err = ch.checkTypesMatch(t.Key(), r.Key()); err != nil {
			return err
		}
		return ch.checkTypesMatch(t.Elem(), r.Elem())

	case *types.Pointer:
		if r.Kind() != reflect.Ptr {
			return fmt.Errorf("kinds Pointer and %v do not match", r.Kind())
		}
		return ch.checkTypesMatch(t.Elem(), r.Elem())

	case *types.Signature:
		return ch.checkSignaturesMatch(t, r, true)

	case *types.Slice:
		if r.Kind() != reflect.Slice {
			return fmt.Errorf("kinds Slice and %v do not match", r.Kind())
		}
		return ch.checkTypesMatch(t.Elem(), r.Elem())

	case *types.Struct:
		if r.Kind() != reflect.Struct {
			return fmt.Errorf("kinds Struct and %v do not match", r.Kind())
		}
		if t.NumFields() != r.NumField() {
			return fmt.Errorf("number of fields %d != %d", t.NumFields(), r.NumField())
		}
		for i := 0; i < t.NumFields(); i++ {
			v, f := t.Field(i), r.Field(i)
			if v.Name() != f.Name {
				return fmt.Errorf("field name %s != %s", v.Name(), f.Name)
			}
			if t.Tag(i) != string(f.Tag) {
				return fmt.Errorf("struct field tag mismatch in field %d", i)
			}
			if err = ch.checkTypesMatch(v.Type(), f.Type); err != nil {
				return errors.Wrapf(err, "checking field %d", i)
			}
		}
		return nil

		// case *types.Tuple:
		// case *types.TypeParam:
		// case *types.Union:
	}

	return fmt.Errorf("unhandled case")
}
''','''			if err := ch.checkSignaturesMatch(sig, method.Type, false); err != nil {
				return errors.Wrapf(err, "checking %s", f.Name())
			}
		}
		return nil
}
'''))
KINDS='''Bool Int Int8 Int16 Int32 Int64 Uint Uint8 Uint16 Uint32 Uint64 Uintptr Float32 Float64 Complex64 Complex128 String UnsafePointer'''.split()
old='		switch t.Kind() {\n'+''.join('		case types.%s:\n			if r.Kind() == reflect.%s {\n				return nil\n			}\n'%(k,k) for k in KINDS)+'		}\n'
m('ty-table',(TY,old,'''		if kind, ok := basicKinds[t.Kind()]; ok && kind == r.Kind() {
			return nil
		}
'''),(TY,'''// TODO: Handle param''','''var basicKinds = map[types.BasicKind]reflect.Kind{
'''+''.join('	types.%s: reflect.%s,\n'%(k,k) for k in KINDS)+'''}

// TODO: Handle param'''))
m('ty-switch2',(TY,old,'		var want reflect.Kind\n		switch t.Kind() {\n'+''.join('		case types.%s:\n			want = reflect.%s\n'%(k,k) for k in KINDS)+'		}\n		if want != reflect.Invalid && r.Kind() == want {\n			return nil\n		}\n'))
m('ty-named',(TY,'''	if named, ok := t.(*types.Named); ok {
		var pkgpath string
		if pkg := named.Obj().Pkg(); pkg != nil {
			pkgpath = pkg.Path()
		}
		if named.Obj().Name() != r.Name() || pkgpath != r.PkgPath() {
			return fmt.Errorf("types %s and %s do not match", t, r)
		}
		return nil
	}
''','''	if named, ok := t.(*types.Named); ok {
		if !sameNamed(named, r) {
			return fmt.Errorf("types %s and %s do not match", t, r)
		}
		return nil
	}
'''),(TY,'''// TODO: Handle param''','''// sameNamed tells whether r is the named type t.
func sameNamed(t *types.Named, r reflect.Type) bool {
	obj := t.Obj()
	if obj.Name() != r.Name() {
		return false
	}
	if obj.Pkg() == nil {
		return r.PkgPath() == ""
	}
	return obj.Pkg().Path() == r.PkgPath()
}

// TODO: Handle param'''))
# command decoder
m('cmd-main',(CMD,'''	cacheDir, err := os.UserCacheDir()
	if err != nil {
		home, err := os.UserHomeDir()
		if err != nil {
			fmt.Printf("Error getting home dir: %s\\n", err)
			os.Exit(1)
		}
		cacheDir = filepath.Join(home, ".cache")
	}

	var (
		fabdir  string
		verbose bool
		list    bool
		force   bool
		dryrun  bool
	)
	flag.StringVar(&fabdir, "fab", filepath.Join(cacheDir, "fab"), "directory containing fab DB and compiled drivers")
	flag.BoolVar(&verbose, "v", false, "run verbosely")
	flag.BoolVar(&list, "list", false, "list available targets")
	flag.BoolVar(&force, "f", false, "force compilation of -bin executable")
	flag.BoolVar(&dryrun, "n", false, "dry run mode")
	flag.Parse()

	m := fab.Main{
		Fabdir:  fabdir,
		Verbose: verbose,
		List:    list,
		Force:   force,
		DryRun:  dryrun,
		Args:    flag.Args(),
	}
	if err''','''	cacheDir, err := os.UserCacheDir()
	if err != nil {
		home, err := os.UserHomeDir()
		if err != nil {
			fmt.Printf("Error getting home dir: %s\\n", err)
			os.Exit(1)
		}
		cacheDir = filepath.Join(home, ".cache")
	}

	var m fab.Main
	flag.StringVar(&m.Fabdir, "fab", filepath.Join(cacheDir, "fab"), "directory containing fab DB and compiled drivers")
	flag.BoolVar(&m.Verbose, "v", false, "run verbosely")
	flag.BoolVar(&m.List, "list", false, "list available targets")
	flag.BoolVar(&m.Force, "f", false, "force compilation of -bin executable")
	flag.BoolVar(&m.DryRun, "n", false, "dry run mode")
	flag.Parse()
	m.Args = flag.Args()

	if err'''))
m('cmd-main2',(CMD,'''	cacheDir, err := os.UserCacheDir()
	if err != nil {
		home, err := os.UserHomeDir()
		if err != nil {
			fmt.Printf("Error getting home dir: %s\\n", err)
			os.Exit(1)
		}
		cacheDir = filepath.Join(home, ".cache")
	}
''','''	cacheDir, err := findCacheDir()
	if err != nil {
		fmt.Printf("Error getting home dir: %s\\n", err)
		os.Exit(1)
	}
'''),(CMD,'''	if err := m.Run(context.Background()); err != nil {
		fmt.Printf("Error: %s\\n", err)
		os.Exit(1)
	}
}
''','''	if err := m.Run(context.Background()); err != nil {
		fmt.Printf("Error: %s\\n", err)
		os.Exit(1)
	}
}

func findCacheDir() (string, error) {
	cacheDir, err := os.UserCacheDir()
	if err == nil {
		return cacheDir, nil
	}
	home, err := os.UserHomeDir()
	if err != nil {
		return "", err
	}
	return filepath.Join(home, ".cache"), nil
}
'''))
m('drv-flags',(DRV,'''	var (
		fabdir  string
		topdir  string
		verbose bool
		list    bool
		force   bool
		dryrun  bool
	)
	flag.StringVar(&fabdir, "fab", filepath.Join(cacheDir, "fab"), "directory containing driver binaries and hash DB")
	flag.StringVar(&topdir, "top", "", "project's top directory")
	flag.BoolVar(&verbose, "v", false, "run verbosely")
	flag.BoolVar(&list, "list", false, "list available targets")
	flag.BoolVar(&force, "f", false, "force rebuilding of targets")
	flag.BoolVar(&dryrun, "n", false, "dry run mode")
	flag.Parse()

	ctx := context.Background()
	ctx = fab.WithVerbose(ctx, verbose)
	ctx = fab.WithForce(ctx, force)
	ctx = fab.WithDryRun(ctx, dryrun)

	con := fab.NewController(topdir)
''','''	var (
		fabdir  = flag.String("fab", filepath.Join(cacheDir, "fab"), "directory containing driver binaries and hash DB")
		topdir  = flag.String("top", "", "project's top directory")
		verbose = flag.Bool("v", false, "run verbosely")
		listp   = flag.Bool("list", false, "list available targets")
		force   = flag.Bool("f", false, "force rebuilding of targets")
		dryrun  = flag.Bool("n", false, "dry run mode")
	)
	flag.Parse()

	ctx := fab.WithDryRun(fab.WithForce(fab.WithVerbose(context.Background(), *verbose), *force), *dryrun)

	con, list := fab.NewController(*topdir), *listp
'''),(DRV,'	db, err := fab.OpenHashDB(fabdir)','	db, err := fab.OpenHashDB(*fabdir)'))
m('drv-run',(DRV,'''	args := flag.Args()
	if len(args) == 0 && !list {
		fmt.Print("Specify one or more of the following targets:\\n\\n")
		list = true
	}

	if list {
		con.ListTargets(os.Stdout)
		return
	}

	targets, err := con.ParseArgs(args)
	if err != nil {
		fatalf("Parsing args: %s", err)
	}

	if err := con.Run(ctx, targets...); err != nil {
		fatalf("Error: %s", err)
	}
}
''','''	args := flag.Args()

	switch {
	case list:
		con.ListTargets(os.Stdout)
	case len(args) == 0:
		fmt.Print("Specify one or more of the following targets:\\n\\n")
		con.ListTargets(os.Stdout)
	default:
		if err := runTargets(ctx, con, args); err != nil {
			fatalf("%s", err)
		}
	}
}

func runTargets(ctx context.Context, con *fab.Controller, args []string) error {
	targets, err := con.ParseArgs(args)
	if err != nil {
		return fmt.Errorf("Parsing args: %w", err)
	}
	if err := con.Run(ctx, targets...); err != nil {
		return fmt.Errorf("Error: %w", err)
	}
	return nil
}
'''))
m('drv-fatal',(DRV,'''		fmt.Printf("Error reading YAML file: %s\\n", err)
		os.Exit(1)
''','''		fatalf("Error reading YAML file: %s", err)
'''),(DRV,'''	fmt.Printf(format, args...)
	if !strings.HasSuffix(format, "\\n") {
		fmt.Println("")
	}
	os.Exit(1)
''','''	msg := fmt.Sprintf(format, args...)
	fmt.Println(strings.TrimSuffix(msg, "\\n"))
	os.Exit(1)
'''))
