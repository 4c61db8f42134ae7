M=[]
def m(name, prop, *eds): M.append((name, prop, list(eds)))
N,D,K='main.go','dirhash.go','compile.go'
m('10-force','C10',(N,'''	if m.Force {
		compile = true
''','''	if m.Force && len(m.Args) > 0 {
		compile = true
'''))
m('10-stat','C10',(N,'''		_, err = os.Stat(driver)
''','''		_, err = os.Stat(driverdir)
'''))
m('10-nohashfile','C10',(N,'''		oldhash, err = os.ReadFile(hashfile)
		if errors.Is(err, fs.ErrNotExist) {
			compile = true
''','''		oldhash, err = os.ReadFile(hashfile)
		if errors.Is(err, fs.ErrNotExist) {
			return driver, nil
'''))
m('10-prefix','C10',(N,'''		if newhash == string(oldhash) {''','''		if strings.HasPrefix(newhash, string(oldhash)) {'''))
m('10-skipfile','C10',(N,'''	for _, filename := range pkg.GoFiles { // TODO: is this the right set of files?
''','''	for _, filename := range pkg.GoFiles { // TODO: is this the right set of files?
		if strings.HasPrefix(filepath.Base(filename), "zz_") {
			continue
		}
'''))
m('10-first','C10',(N,'range pkg.GoFiles { //','range pkg.GoFiles[:1] { //'))
m('10-noremove','C10',(N,'''	if err = os.Remove(hashfile); err != nil && !errors.Is(err, fs.ErrNotExist) {
		return "", errors.Wrapf(err, "removing %s", hashfile)
	}
	if err = Comp''','''	if err = Comp'''))
m('10-rmbin','C10',(N,'''	if err = os.Remove(hashfile); err != nil && !errors.Is(err, fs.ErrNotExist) {
		return "", errors.Wrapf(err, "removing %s", hashfile)''','''	if err = os.Remove(driver); err != nil && !errors.Is(err, fs.ErrNotExist) {
		return "", errors.Wrapf(err, "removing %s", hashfile)'''))
m('10-rmignore','C10',(N,'''	if err = os.Remove(hashfile); err != nil && !errors.Is(err, fs.ErrNotExist) {
		return "", errors.Wrapf(err, "removing %s", hashfile)
	}
''','''	_ = os.Remove(hashfile)
'''))
m('10-hashfirst','C10',(N,'''	if err = CompilePackage(ctx, pkg, driver); err != nil {''','''	if err = os.WriteFile(hashfile, []byte(newhash), 0644); err != nil {
		return "", errors.Wrapf(err, "writing %s", hashfile)
	}
	if err = CompilePackage(ctx, pkg, driver); err != nil {'''))
m('10-notrunc','C10',(N,'os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)\n		if openErr','os.O_WRONLY|os.O_CREATE, 0644)\n		if openErr'))
m('10-nover','C10',(N,'''	if buildInfo == nil && !skipVersionCheck {
		// The version check was not reached.
		buildInfo, _ = debug.ReadBuildInfo()
	}
''',''))
m('10-forcever','C10',(N,'''	if buildInfo == nil && !skipVersionCheck {''','''	if buildInfo == nil && !skipVersionCheck && !m.Force {'''))
m('10-deep','C10',(N,'!reflect.DeepEqual(*newInfo, oldInfo)','newInfo.GoVersion != oldInfo.GoVersion || !reflect.DeepEqual(newInfo.Main, oldInfo.Main)'))
m('10-decerr','C10',(N,'''			fmt.Printf("Error decoding %s, will recompile driver: %s\\n", versionfile, err)
		}
		return true, newInfo, nil''','''			fmt.Printf("Error decoding %s, will recompile driver: %s\\n", versionfile, err)
		}
		return false, newInfo, nil'''))
m('10-nobi','C10',(N,'''		_ = os.Remove(versionfile)
		return true, nil, nil''','''		_ = os.Remove(versionfile)
		return false, nil, nil'''))
m('10-skip','C10',(N,'m.getDriver(ctx, false)','m.getDriver(ctx, m.DryRun)'))
m('10-wrong','C10',(N,'os.WriteFile(hashfile, []byte(newhash), 0644)','os.WriteFile(hashfile, []byte(newhash+"\\n"), 0644)'))
m('10-old','C10',(N,'''	if !compile {
		return driver, nil
	}
''','''	if !compile || m.List && len(oldhash) > 0 {
		return driver, nil
	}
'''))
m('10-dh','C10',(D,'	d.hashes[filepath.Base(name)] = h','	d.hashes[filepath.Ext(name)] = h'))
m('10-dhlen','C10',(D,'	_, err := io.Copy(hasher, r)','	_, err := io.Copy(hasher, io.LimitReader(r, 1<<20))'))
m('10-late','C10',(N,'''	dh := newDirHasher()
	for _, filename := range pkg.GoFiles { // TODO: is this the right set of files?
		if err = addFileToHash(dh, filename); err != nil {
			return "", errors.Wrapf(err, "hashing file %s", filename)
		}
	}
	newhash, err := dh.hash()
	if err != nil {
		return "", errors.Wrapf(err, "computing hash of directory %s", pkgdir)
	}
''','''	newhash := ""
	rehash := func() error {
		dh := newDirHasher()
		for _, filename := range pkg.GoFiles {
			if err := addFileToHash(dh, filename); err != nil {
				return errors.Wrapf(err, "hashing file %s", filename)
			}
		}
		var err error
		newhash, err = dh.hash()
		return err
	}
	if !compile {
		if err = rehash(); err != nil {
			return "", err
		}
	}
'''),(N,'''		return "", errors.Wrapf(err, "compiling driver %s", driver)
	}
''','''		return "", errors.Wrapf(err, "compiling driver %s", driver)
	}
	if err = rehash(); err != nil {
		return "", err
	}
'''))
m('10-otherpkg','C10',(N,'driverdir := filepath.Join(m.Fabdir, pkg.PkgPath)','driverdir := filepath.Join(m.Fabdir, pkg.Name)'))
m('10-vererr','C10',(N,'''		if err = enc.Encode(buildInfo); err != nil {
			return "", errors.Wrap(err, "encoding build info")
		}''','''		_ = enc.Encode(buildInfo)'''))
m('r10-helper','',(N,'''	dh := newDirHasher()
	for _, filename := range pkg.GoFiles { // TODO: is this the right set of files?
		if err = addFileToHash(dh, filename); err != nil {
			return "", errors.Wrapf(err, "hashing file %s", filename)
		}
	}
	newhash, err := dh.hash()
''','''	newhash, err := hashPackage(pkg.GoFiles)
'''),(N,'func addFileToHash(','''func hashPackage(files []string) (string, error) {
	dh := newDirHasher()
	for i := 0; i < len(files); i++ {
		data, err := os.ReadFile(files[i])
		if err != nil {
			return "", err
		}
		if err = dh.file(files[i], bytes.NewReader(data)); err != nil {
			return "", errors.Wrapf(err, "hashing file %s", files[i])
		}
	}
	return dh.hash()
}

func addFileToHash('''),(N,'import (\n','import (\n	"bytes"\n'))
m('r10-early','',(N,'''	if !compile {
		if newhash == string(oldhash) {
			if m.Verbose {
				fmt.Println("Using existing driver")
			}
		} else {
			compile = true
			if m.Verbose {
				fmt.Println("Recompiling driver")
			}
		}
	}

	if !compile {
		return driver, nil
	}
''','''	if !compile && newhash == string(oldhash) {
		if m.Verbose {
			fmt.Println("Using existing driver")
		}
		return driver, nil
	}
	if !compile && m.Verbose {
		fmt.Println("Recompiling driver")
	}
'''))
m('r10-marshal','',(N,'''		v, openErr := os.OpenFile(versionfile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
		if openErr != nil {
			return "", errors.Wrapf(openErr, "opening %s for writing", versionfile)
		}
		defer func() {
			closeErr := v.Close()
			if err == nil {
				err = errors.Wrapf(closeErr, "closing %s", versionfile)
			}
		}()
		enc := json.NewEncoder(v)
		enc.SetIndent("", "  ")
		if err = enc.Encode(buildInfo); err != nil {
			return "", errors.Wrap(err, "encoding build info")
		}
''','''		data, err := json.MarshalIndent(buildInfo, "", "  ")
		if err != nil {
			return "", errors.Wrap(err, "encoding build info")
		}
		if err = os.WriteFile(versionfile, data, 0644); err != nil {
			return "", errors.Wrapf(err, "writing %s", versionfile)
		}
'''))
m('r10-recompile','',(N,'''	// Remove the old hash before replacing the driver and write the new one last.
''','''	return m.rebuild(ctx, pkg, hashfile, versionfile, driver, newhash, buildInfo, skipVersionCheck)
}

func (m *Main) rebuild(ctx context.Context, pkg *packages.Package, hashfile, versionfile, driver, newhash string, buildInfo *debug.BuildInfo, skipVersionCheck bool) (_ string, err error) {
	// Remove the old hash before replacing the driver and write the new one last.
'''))
m('r10-inlinever','',(N,'''	if !reflect.DeepEqual(*newInfo, oldInfo) {
		if m.Verbose {
			fmt.Println("Fab build info changed, will recompile driver")
		}
		return true, newInfo, nil
	}

	return false, nil, nil''','''	same := reflect.DeepEqual(newInfo, &oldInfo)
	if !same && m.Verbose {
		fmt.Println("Fab build info changed, will recompile driver")
	}
	return !same, newInfo, nil'''))
m('r10-bytes','',(N,'if newhash == string(oldhash) {','if bytes.Equal([]byte(newhash), oldhash) {'),(N,'import (\n','import (\n	"bytes"\n'))
m('11-direct','C11',(K,'''exec.CommandContext(ctx, "go", "build")''','''exec.CommandContext(ctx, "go", "build", "-o", binfile)'''))
m('11-early','C11',(K,'''	output, err = cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("error in go build: %w; output follows\\n%s", err, string(output))
	}

	return os.Rename(filepath.Join(tmpdir, "x"), binfile)''','''	output, err = cmd.CombinedOutput()
	if renameErr := os.Rename(filepath.Join(tmpdir, "x"), binfile); renameErr != nil && err == nil {
		return renameErr
	}
	if err != nil {
		return fmt.Errorf("error in go build: %w; output follows\\n%s", err, string(output))
	}
	return nil'''))
m('11-norm','C11',(K,'	defer os.RemoveAll(tmpdir)\n',''))
m('11-rmok','C11',(K,'	defer os.RemoveAll(tmpdir)\n','''	defer func() {
		if err == nil {
			os.RemoveAll(tmpdir)
		}
	}()
'''))
m('11-rmlate','C11',(K,'	defer os.RemoveAll(tmpdir)\n',''),(K,'	data := struct {','	defer os.RemoveAll(tmpdir)\n	data := struct {'))
m('11-notemp','C11',(K,'filepath.Join(tmpdir, "driver.go")','filepath.Join(pkgdir, "..", "driver.go")'))
m('11-pkgdir','C11',(K,'''	subpkgdir := filepath.Join(tmpdir, "pkg", pkg.Name)''','''	subpkgdir := filepath.Join(filepath.Dir(tmpdir), "pkg", pkg.Name)'''))
m('11-fixed','C11',(K,'''	tmpdir, err := os.MkdirTemp("", "fab")
	if err''','''	tmpdir := filepath.Join(os.TempDir(), "fab")
	err = os.MkdirAll(tmpdir, 0755)
	if err'''))
m('11-dir','C11',(K,'''"go", "build")
	cmd.Dir = tmpdir''','''"go", "build")
	cmd.Dir = filepath.Join(tmpdir, "fab")'''))
m('11-noclose','C11',(K,'''	if err = driverOut.Close(); err != nil {
		return errors.Wrap(err, "closing driver.go")
	}
''',''))
m('11-copyclose','C11',(K,'''	return errors.Wrapf(out.Close(), "closing %s", outfilename)''','''	return nil'''))
m('11-copyerr','C11',(K,'''		if err = copyFile(filepath.Join(pkgdir, entry.Name()), subpkgdir); err != nil {''','''		if err = copyFile(filepath.Join(pkgdir, entry.Name()), subpkgdir); err != nil && !os.IsPermission(err) {'''))
m('11-tidy','C11',(K,'''	output, err = cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("error in go mod tidy: %w; output follows\\n%s", err, string(output))
	}''','''	_, _ = cmd.CombinedOutput()'''))
m('11-ctx','C11',(K,'exec.CommandContext(ctx, "go", "mod", "tidy")','exec.Command("go", "mod", "tidy")'))
m('11-ctx2','C11',(K,'exec.CommandContext(ctx, "go", "build")','exec.CommandContext(context.Background(), "go", "build")'))
m('11-preremove','C11',(K,'''	return os.Rename(filepath.Join(tmpdir, "x"), binfile)''','''	if err := os.Remove(binfile); err != nil && !os.IsNotExist(err) {
		return err
	}
	return os.Rename(filepath.Join(tmpdir, "x"), binfile)'''))
m('11-chmod','C11',(K,'''	return os.Rename(filepath.Join(tmpdir, "x"), binfile)''','''	if err := os.Rename(filepath.Join(tmpdir, "x"), binfile); err != nil {
		return err
	}
	return os.Chmod(binfile, 0755)'''))
m('11-copybin','C11',(K,'''	return os.Rename(filepath.Join(tmpdir, "x"), binfile)''','''	if err := os.Rename(filepath.Join(tmpdir, "x"), binfile); err == nil {
		return nil
	}
	contents, err := os.ReadFile(filepath.Join(tmpdir, "x"))
	if err != nil {
		return err
	}
	return os.WriteFile(binfile, contents, 0755)'''))
m('11-mkdirdest','C11',(K,'''	tmpdir, err := os.MkdirTemp("", "fab")''','''	if err = os.MkdirAll(filepath.Dir(binfile), 0755); err != nil {
		return err
	}
	tmpdir, err := os.MkdirTemp("", "fab")'''))
m('11-loadctx','C11',(K,'return CompilePackage(ctx, ppkgs[0], binfile)','return CompilePackage(context.Background(), ppkgs[0], binfile)'))
m('11-order','C11',(K,'''	cmd = exec.CommandContext(ctx, "go", "mod", "tidy")
	cmd.Dir = tmpdir
	output, err = cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("error in go mod tidy: %w; output follows\\n%s", err, string(output))
	}

	cmd = exec.CommandContext(ctx, "go", "build")
	cmd.Dir = tmpdir
	output, err = cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("error in go build: %w; output follows\\n%s", err, string(output))
	}
''','''	cmd = exec.CommandContext(ctx, "go", "build")
	cmd.Dir = tmpdir
	output, err = cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("error in go build: %w; output follows\\n%s", err, string(output))
	}
'''))
m('r11-helper','',(K,'''	cmd = exec.CommandContext(ctx, "go", "mod", "tidy")
	cmd.Dir = tmpdir
	output, err = cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("error in go mod tidy: %w; output follows\\n%s", err, string(output))
	}

	cmd = exec.CommandContext(ctx, "go", "build")
	cmd.Dir = tmpdir
	output, err = cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("error in go build: %w; output follows\\n%s", err, string(output))
	}

	return os.Rename(filepath.Join(tmpdir, "x"), binfile)
}
''','''	for _, args := range [][]string{{"mod", "tidy"}, {"build"}} {
		if err = runGo(ctx, tmpdir, args...); err != nil {
			return err
		}
	}
	return os.Rename(filepath.Join(tmpdir, "x"), binfile)
}

func runGo(ctx context.Context, dir string, args ...string) error {
	cmd := exec.CommandContext(ctx, "go", args...)
	cmd.Dir = dir
	output, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("error in go %s: %w; output follows\\n%s", strings.Join(args, " "), err, string(output))
	}
	return nil
}
'''))
m('r11-helper2','',(K,'''	cmd = exec.CommandContext(ctx, "go", "mod", "tidy")
	cmd.Dir = tmpdir
	output, err = cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("error in go mod tidy: %w; output follows\\n%s", err, string(output))
	}

	cmd = exec.CommandContext(ctx, "go", "build")
	cmd.Dir = tmpdir
	output, err = cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("error in go build: %w; output follows\\n%s", err, string(output))
	}

	return os.Rename(filepath.Join(tmpdir, "x"), binfile)
}
''','''	if err = runGo(ctx, tmpdir, "mod", "tidy"); err != nil {
		return err
	}
	out := filepath.Join(tmpdir, "driver.bin")
	if err = runGo(ctx, tmpdir, "build", "-o", out, "."); err != nil {
		return err
	}
	return errors.Wrap(os.Rename(out, binfile), "installing")
}

func runGo(ctx context.Context, dir string, args ...string) error {
	cmd := exec.CommandContext(ctx, "go", args...)
	cmd.Dir = dir
	output, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("error in go %s: %w; output follows\\n%s", strings.Join(args, " "), err, string(output))
	}
	return nil
}
'''))
m('r11-split','',(K,'''	defer os.RemoveAll(tmpdir)

	if err = populate''','''	defer os.RemoveAll(tmpdir)
	return compileIn(ctx, tmpdir, pkgdir, binfile, pkg, maps.Values(targets))
}

type targetPair struct {
	Name, Doc string
}

func compileIn(ctx context.Context, tmpdir, pkgdir, binfile string, pkg *packages.Package, targets []*targetPair) error {
	var err error
	if err = populate'''),(K,'''	type targetPair struct {
		Name, Doc string
	}
''',''),(K,'maps.Values(targets),','targets,'))
m('r11-buf','',(K,'''	driverOut, err := os.Create(filepath.Join(tmpdir, "driver.go"))
	if err != nil {
		return errors.Wrap(err, "creating driver.go in temp dir")
	}
	defer driverOut.Close()
''','''	var driverOut strings.Builder
'''),(K,'tmpl.Execute(driverOut, data)','tmpl.Execute(&driverOut, data)'),(K,'driverOut.Close(); err','os.WriteFile(filepath.Join(tmpdir, "driver.go"), []byte(driverOut.String()), 0644); err'))
m('r11-gofiles','',(K,'''	entries, err := os.ReadDir(pkgdir)
	if err != nil {
		return errors.Wrapf(err, "reading entries from %s", pkgdir)
	}

	for _, entry := range entries {
		if entry.IsDir() {
			continue
		}
		if strings.HasSuffix(entry.Name(), "_test.go") {
			continue
		}
		if !strings.HasSuffix(entry.Name(), ".go") {
			continue
		}
		if err = copyFile(filepath.Join(pkgdir, entry.Name()), subpkgdir); err != nil {
			return errors.Wrapf(err, "copying %s to tmp subdir", entry.Name())
		}
	}
''','''	for _, filename := range pkg.GoFiles {
		if err = copyFile(filename, subpkgdir); err != nil {
			return errors.Wrapf(err, "copying %s to tmp subdir", filename)
		}
	}
'''))
