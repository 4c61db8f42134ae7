M=[]
def m(n,p,*e): M.append((n,p,e))
E='embeds.go'; C='compile.go'
L='//go:embed *.go go.* driver.go.tmpl golang/*.go proto/*.go sqlite/*.go sqlite/*.sql ts/*.go'
m('e-nosql','C33',(E,L,L.replace(' sqlite/*.sql','')))
m('e-nots','C33',(E,L,L.replace(' ts/*.go','')))
m('e-deps','C33',(E,L,L.replace(' ts/*.go',' ts/t*.go').replace('*.go go','[a-xA-Z]*.go go')))
m('e-noproto','C33',(E,L,L.replace('proto/*.go ','')))
m('e-tmpl','C33',(E,L,L.replace(' driver.go.tmpl','')))
m('e-gomod','C33',(E,L,L.replace('go.*','go.sum')))
m('ok-dirs','',(E,L,'//go:embed *.go go.mod go.sum driver.go.tmpl golang proto sqlite ts'))
m('ok-quote','',(E,L,'//go:embed *.go "go.*" driver.go.tmpl\n//go:embed golang/*.go proto/*.go sqlite/*.go sqlite/*.sql ts/*.go'))
m('ok-all','',(E,L,'//go:embed *.go go.* driver.go.tmpl all:golang all:proto all:sqlite all:ts'))
m('ok-exact','',(E,L,L.replace('ts/*.go','ts/tsdecls.go')))
m('p-suffix','C33',(C,'''		if strings.HasSuffix(entry.Name(), "_test.go") {
			continue
		}
		contents,''','''		if strings.HasSuffix(entry.Name(), "test.go") {
			continue
		}
		contents,'''))
m('p-goonly','C33',(C,'''		if strings.HasSuffix(entry.Name(), "_test.go") {
			continue
		}
		contents,''','''		if strings.HasSuffix(entry.Name(), "_test.go") || filepath.Ext(entry.Name()) == ".sql" {
			continue
		}
		contents,'''))
m('p-skiperr','C33',(C,'''			return errors.Wrapf(err, "reading embedded file %s", entry.Name())
''','''			continue
'''))
m('p-ignorewr','C33',(C,'''		if err != nil {
			return errors.Wrapf(err, "writing %s", dest)
		}
	}
	return nil''','''		if errors.Is(err, os.ErrPermission) {
			continue
		}
		if err != nil {
			return errors.Wrapf(err, "writing %s", dest)
		}
	}
	return nil'''))
m('p-flat','C33',(C,'populateFabSubdir(filepath.Join(destdir, entry.Name()), filepath','populateFabSubdir(destdir, filepath'))
m('p-src','C33',(C,'embeds.ReadFile(filepath.Join(subdir, entry.Name()))','embeds.ReadFile(entry.Name())'))
m('p-trunc','C33',(C,'os.WriteFile(dest, contents, 0644)\n		if','os.WriteFile(dest, contents[:len(contents)/2*2], 0644)\n		if'))
m('p-trim','C33',(C,'os.WriteFile(dest, contents, 0644)\n		if','os.WriteFile(dest, bytes.TrimSpace(contents), 0644)\n		if'),(C,'import (','import (\n	"bytes"'))
m('p-perm','C33',(C,'os.WriteFile(dest, contents, 0644)','os.WriteFile(dest, contents, 0244)'))
m('p-nomk','C33',(C,'''	if err := os.MkdirAll(destdir, 0755); err != nil {
		return errors.Wrapf(err, "creating %s", destdir)
	}
	entries''','''	entries'''))
m('p-mkig','C33',(C,'''	if err := os.MkdirAll(destdir, 0755); err != nil {
		return errors.Wrapf(err, "creating %s", destdir)
	}
	entries''','''	_ = os.MkdirAll(destdir, 0755)
	entries'''))
m('p-dest','C33',(C,'populateFabSubdir(filepath.Join(tmpdir, "fab"), ".")','populateFabSubdir(filepath.Join(tmpdir, "fabs"), ".")'))
m('p-sub','C33',(C,'populateFabSubdir(filepath.Join(tmpdir, "fab"), ".")','populateFabSubdir(filepath.Join(tmpdir, "fab"), "golang")'))
m('p-ret','C33',(C,'''	return populateFabSubdir(filepath.Join(tmpdir, "fab"), ".")''','''	_ = populateFabSubdir(filepath.Join(tmpdir, "fab"), ".")
	return nil'''))
m('p-first','C33',(C,'''			if err != nil {
				return errors.Wrapf(err, "populating dir %s", entry.Name())
			}
			continue''','''			return err'''))
m('p-direrr','C33',(C,'''			if err != nil {
				return errors.Wrapf(err, "populating dir %s", entry.Name())
			}
			continue''','''			continue'''))
m('p-break','C33',(C,'''		if strings.HasSuffix(entry.Name(), "_test.go") {
			continue
		}
		contents,''','''		if strings.HasSuffix(entry.Name(), "_test.go") {
			break
		}
		contents,'''))
m('p-readerr','C33',(C,'''	if err != nil {
		return errors.Wrap(err, "reading embeds")
	}''','''	if err != nil {
		return nil
	}'''))
m('p-from1','C33',(C,'''	for _, entry := range entries {
		if entry.IsDir() {
			err =''','''	for _, entry := range entries[1:] {
		if entry.IsDir() {
			err ='''))
m('ok-path','',(C,'embeds.ReadFile(filepath.Join(subdir, entry.Name()))','embeds.ReadFile(path.Join(subdir, entry.Name()))'),(C,'"path/filepath"','"path"\n	"path/filepath"'))
m('ok-helper','',(C,'''		contents, err := embeds.ReadFile(filepath.Join(subdir, entry.Name()))
		if err != nil {
			return errors.Wrapf(err, "reading embedded file %s", entry.Name())
		}
		dest := filepath.Join(destdir, entry.Name())
		err = os.WriteFile(dest, contents, 0644)
		if err != nil {
			return errors.Wrapf(err, "writing %s", dest)
		}
	}
	return nil
}
''','''		if err := copyEmbed(destdir, subdir, entry.Name()); err != nil {
			return err
		}
	}
	return nil
}

func copyEmbed(destdir, subdir, name string) error {
	contents, err := embeds.ReadFile(filepath.Join(subdir, name))
	if err != nil {
		return errors.Wrapf(err, "reading embedded file %s", name)
	}
	return errors.Wrap(os.WriteFile(filepath.Join(destdir, name), contents, 0644), "writing")
}
'''))
m('ok-idx','',(C,'''	for _, entry := range entries {
		if entry.IsDir() {
			err =''','''	for i := 0; i < len(entries); i++ {
		entry := entries[i]
		if entry.IsDir() {
			err ='''))
m('ok-switch','',(C,'''		if entry.IsDir() {
			err = populateFabSubdir(filepath.Join(destdir, entry.Name()), filepath.Join(subdir, entry.Name()))
			if err != nil {
				return errors.Wrapf(err, "populating dir %s", entry.Name())
			}
			continue
		}
		if strings.HasSuffix(entry.Name(), "_test.go") {
			continue
		}
''','''		name := entry.Name()
		dest, src := filepath.Join(destdir, name), filepath.Join(subdir, name)
		switch {
		case entry.IsDir():
			if err = populateFabSubdir(dest, src); err != nil {
				return errors.Wrapf(err, "populating dir %s", name)
			}
			continue
		case strings.HasSuffix(name, "_test.go"):
			continue
		}
'''),(C,'''		dest := filepath.Join(destdir, entry.Name())
		err =''','''		err ='''))
m('ok-fs','',(C,'embeds.ReadDir(subdir)','fs.ReadDir(embeds, subdir)'))
W='''	return populateFabSubdir(filepath.Join(tmpdir, "fab"), ".")
}

func populateFabSubdir(destdir, subdir string) error {
	if err := os.MkdirAll(destdir, 0755); err != nil {
		return errors.Wrapf(err, "creating %s", destdir)
	}
	entries, err := embeds.ReadDir(subdir)
	if err != nil {
		return errors.Wrap(err, "reading embeds")
	}
	for _, entry := range entries {
		if entry.IsDir() {
			err = populateFabSubdir(filepath.Join(destdir, entry.Name()), filepath.Join(subdir, entry.Name()))
			if err != nil {
				return errors.Wrapf(err, "populating dir %s", entry.Name())
			}
			continue
		}
		if strings.HasSuffix(entry.Name(), "_test.go") {
			continue
		}
		contents, err := embeds.ReadFile(filepath.Join(subdir, entry.Name()))
		if err != nil {
			return errors.Wrapf(err, "reading embedded file %s", entry.Name())
		}
		dest := filepath.Join(destdir, entry.Name())
		err = os.WriteFile(dest, contents, 0644)
		if err != nil {
			return errors.Wrapf(err, "writing %s", dest)
		}
	}
	return nil
}
'''
V='''	destdir := filepath.Join(tmpdir, "fab")
	return fs.WalkDir(embeds, ".", func(path string, entry fs.DirEntry, err error) error {
		if err != nil {
			return errors.Wrap(err, "reading embeds")
		}
		dest := filepath.Join(destdir, path)
		if entry.IsDir() {
			return os.MkdirAll(dest, 0755)
		}
		if strings.HasSuffix(path, "_test.go") {
			return nil
		}
		contents, err := embeds.ReadFile(path)
		if err != nil {
			return errors.Wrapf(err, "reading embedded file %s", path)
		}
		return errors.Wrapf(os.WriteFile(dest, contents, 0644), "writing %s", dest)
	})
}
'''
I=(C,'LoadMode is the minimal','LoadMode is the minimal')
m('ok-walk','',(C,W,V),I)
m('w-base','C33',(C,W,V.replace('filepath.Join(destdir, path)','filepath.Join(destdir, entry.Name())')),I)
m('w-skip','C33',(C,W,V.replace('''return os.MkdirAll(dest, 0755)
''','''if entry.Name() == "sqlite" {
				return fs.SkipDir
			}
			return os.MkdirAll(dest, 0755)
''')),I)
m('w-err','C33',(C,W,V.replace('''return errors.Wrap(err, "reading embeds")''','''return nil''')),I)
m('w-drop','C33',(C,W,V.replace('''	return fs.WalkDir(''','''	_ = fs.WalkDir(''').replace('''	})
}''','''	})
	return nil
}''')),I)
