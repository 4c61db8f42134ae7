M=[]
def m(name, prop, *edits): M.append((name, prop, list(edits)))
T='top.go'
m('abs-dropped','C25',(T,'''	dir, err = filepath.Abs(dir)
''','''	dir, err = filepath.Clean(dir), nil
'''))
m('file-fab','C25',(T,'err == nil && info.IsDir()','err == nil'),(T,'''		info, err := os.Stat''','''		_, err := os.Stat'''))
m('stat-err-ignored','C25',(T,'''			return "", errors.Wrapf(err, "statting %s/_fab", dir)
''',''))
m('helper-err','C25',(T,'''		result, err := topDirHelper(dir)
		if err != nil {
			return "", err
		}
		if result''','''		result, err := topDirHelper(dir)
		if err == nil && result'''))
m('no-root','C25',(T,'''		if parent == dir {
			return "", fmt.Errorf("top directory not found")
		}
		dir = parent''','''		dir = parent'''))
m('root-returned','C25',(T,'''		if parent == dir {
			return "", fmt.Errorf("top directory not found")
		}
		dir = parent''','''		if parent == dir {
			return dir, nil
		}
		dir = parent'''))
m('skip-two','C25',(T,'''		parent := filepath.Dir(dir)
''','''		parent := filepath.Dir(filepath.Dir(dir))
'''))
m('yaml-first','C25',(T,'''		info, err := os.Stat(filepath.Join(dir, "_fab"))
''','''		if result, err := topDirHelper(dir); err == nil && result != "" {
			return result, nil
		}
		info, err := os.Stat(filepath.Join(dir, "_fab"))
'''))
m('lstat','C25',(T,'os.Stat(','os.Lstat('))
m('open-err-tolerated','C25',(T,'''	if err != nil {
		return "", errors.Wrapf(err, "opening YAML file in %s", dir)
	}
''','''	if err != nil {
		return "", nil
	}
'''))
m('decode-err-tolerated','C25',(T,'''		return "", errors.Wrapf(err, "reading YAML file in %s", dir)
''','''		return dir, nil
'''))
m('decl-map','C25',(T,'''	var m struct {
		Dir *string `yaml:"_dir"`
	}
''','''	var m map[string]any
'''),(T,'''	if m.Dir == nil {
		return dir, nil
	}
	decl := *m.Dir
''','''	decl, ok := m["_dir"].(string)
	if !ok {
		return dir, nil
	}
'''))
m('decl-wrongkey','C25',(T,'`yaml:"_dir"`','`yaml:"dir"`'))
m('absent-empty','C25',(T,'''	if m.Dir == nil {
		return dir, nil
	}''','''	if m.Dir == nil {
		return "", nil
	}'''))
m('absent-parent','C25',(T,'''	if m.Dir == nil {
		return dir, nil
	}''','''	if m.Dir == nil {
		return filepath.Dir(dir), nil
	}'''))
m('mismatch-ignored','C25',(T,'''		if declBase != dirBase {
			return "", fmt.Errorf("_dir decl %s does not match actual dir %s", origDecl, origDir)
		}
''','''		_, _, _, _ = origDecl, origDir, declBase, dirBase
'''))
m('mismatch-first-only','C25',(T,'if declBase != dirBase {','if declBase != dirBase && dir == origDir {'))
m('mismatch-fold','C25',(T,'declBase != dirBase {','!strings.EqualFold(declBase, dirBase) {'),(T,'"path/filepath"\n','"path/filepath"\n\t"strings"\n'))
m('stop-early','C25',(T,'if declDir == "." {','if declDir == "." || filepath.Dir(declDir) == "." {'))
m('return-one-less','C25',(T,'''		dirDir := filepath.Dir(dir)
		declDir := filepath.Dir(decl)
''','''		dirDir := filepath.Dir(dir)
		declDir := filepath.Dir(decl)
		if declDir == "." {
			return dir, nil
		}
'''))
m('decl-not-advanced','C25',(T,'		decl = declDir\n','		_ = declDir\n'))
m('dir-not-advanced','C25',(T,'		dir = dirDir\n\n','		_ = dirDir\n\n'))
m('prefix-compare','C25',(T,'declBase != dirBase {','!strings.HasPrefix(dirBase, declBase) {'),(T,'"path/filepath"\n','"path/filepath"\n\t"strings"\n'))
m('abs-trimmed','C25',(T,'''	if filepath.IsAbs(decl) {
		return "", fmt.Errorf("absolute pathname %s in _dir decl in %s", decl, dir)
	}
''','''	decl = strings.TrimPrefix(decl, "/")
'''),(T,'"path/filepath"\n','"path/filepath"\n\t"strings"\n'))
m('mismatch-nofail','C25',(T,'''			return "", fmt.Errorf("_dir decl %s does not match actual dir %s", origDecl, origDir)
''','''			_ = origDecl
			return origDir, nil
'''))
m('gives-up','C25',(T,'''	for {
		info''','''	for n := 0; ; n++ {
		if n > 40 {
			return "", fmt.Errorf("too deep")
		}
		info'''))
m('yml-only','C25',('yaml.go','''	if errors.Is(err, fs.ErrNotExist) {
		filename = filepath.Join(dir, "fab.yml")''','''	if err != nil {
		filename = filepath.Join(dir, "fab.yml")'''))
m('no-yml','C25',('yaml.go','''	if errors.Is(err, fs.ErrNotExist) {
		filename = filepath.Join(dir, "fab.yml")
		f, err = os.Open(filename)
	}
''',''))
m('home-dir','C25',(T,'''		if result != "" {
			return result, nil
		}
''','''		if result != "" {
			return result, nil
		}
		if filepath.Base(dir) == "home" {
			return dir, nil
		}
'''))
m('_fab-name','C25',(T,'filepath.Join(dir, "_fab")','filepath.Join(dir, "fab")'))
m('subdir-fab','C25',(T,'filepath.Join(dir, "_fab")','filepath.Join(dir, "..", "_fab")'))
# refactorings
m('ok-inline','',(T,'''		result, err := topDirHelper(dir)
		if err != nil {
			return "", err
		}
		if result != "" {
			return result, nil
		}
''','''		if result, err := topDirHelper(dir); err != nil || result != "" {
			return result, err
		}
'''))
m('ok-string','',(T,'''		Dir *string `yaml''','''		Dir string `yaml'''),(T,'''	if m.Dir == nil {''','''	if m.Dir == "" {'''),(T,'decl := *m.Dir','decl := m.Dir'))
m('ok-loop','',(T,'''	for {
		var (
			declBase = filepath.Base(decl)
			dirBase  = filepath.Base(dir)
		)

		if declBase != dirBase {
			return "", fmt.Errorf("_dir decl %s does not match actual dir %s", origDecl, origDir)
		}

		dirDir := filepath.Dir(dir)
		declDir := filepath.Dir(decl)

		if dirDir == dir {
			return "", fmt.Errorf("top directory not found")
		}
		dir = dirDir

		if declDir == "." {
			return dir, nil
		}
		decl = declDir
	}
''','''	for done := false; !done; {
		if filepath.Base(decl) != filepath.Base(dir) {
			return "", fmt.Errorf("_dir decl %s does not match actual dir %s", origDecl, origDir)
		}
		up := filepath.Dir(dir)
		if up == dir {
			return "", fmt.Errorf("top directory not found")
		}
		dir, decl = up, filepath.Dir(decl)
		done = decl == "."
	}
	return dir, nil
'''))
m('ok-switch','',(T,'''		if err == nil && info.IsDir() {
			return dir, nil
		}
		if err != nil && !errors.Is(err, fs.ErrNotExist) {
			return "", errors.Wrapf(err, "statting %s/_fab", dir)
		}
''','''		switch {
		case errors.Is(err, fs.ErrNotExist):
			// ok
		case err != nil:
			return "", errors.Wrapf(err, "statting %s/_fab", dir)
		case info.IsDir():
			return dir, nil
		}
'''))
m('ok-outer','',(T,'''		parent := filepath.Dir(dir)
		if parent == dir {
			return "", fmt.Errorf("top directory not found")
		}
		dir = parent
	}
}
''','''		if filepath.Dir(dir) == dir {
			break
		}
		dir = filepath.Dir(dir)
	}
	return "", fmt.Errorf("top directory not found")
}
'''))
m('ok-extract','',(T,'''		info, err := os.Stat(filepath.Join(dir, "_fab"))
		if err == nil && info.IsDir() {
			return dir, nil
		}
		if err != nil && !errors.Is(err, fs.ErrNotExist) {
			return "", errors.Wrapf(err, "statting %s/_fab", dir)
		}
''','''		isFab, err := hasFabDir(dir)
		if err != nil {
			return "", err
		}
		if isFab {
			return dir, nil
		}
'''),(T,'''func topDirHelper(''','''func hasFabDir(dir string) (bool, error) {
	info, err := os.Stat(filepath.Join(dir, "_fab"))
	if errors.Is(err, fs.ErrNotExist) {
		return false, nil
	}
	if err != nil {
		return false, errors.Wrapf(err, "statting %s/_fab", dir)
	}
	return info.IsDir(), nil
}

func topDirHelper('''))
m('ok-unmarshal-close','',(T,'''	defer rc.Close()

	dec := yaml.NewDecoder(rc)
	var m struct {
		Dir *string `yaml:"_dir"`
	}
	if err = dec.Decode(&m); err != nil {
''','''	var m struct {
		Dir *string `yaml:"_dir"`
	}
	err = yaml.NewDecoder(rc).Decode(&m)
	rc.Close()
	if err != nil {
'''))
