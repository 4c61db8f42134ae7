M=[]
def m(name, prop, *edits): M.append((name, prop, list(edits)))
G='golang/go.go'
P='proto/proto.go'
m('g-noembed','C28',(G,'packages.NeedFiles | packages.NeedEmbedFiles |','packages.NeedFiles |'))
m('g-nodeps','C28',(G,' | packages.NeedDeps',''))
m('g-nomodule','C28',(G,' | packages.NeedModule',''))
m('g-noimports','C28',(G,' | packages.NeedImports',''))
m('g-notypes','C28',(G,' | packages.NeedTypes',''))
m('g-nofiles','C28',(G,' | packages.NeedFiles',''))
m('g-dir','C28',(G,'		Dir:   dir,\n',''))
m('g-tests','C28',(G,'Tests: tests','Tests: tests && recursive'))
m('g-tests2','C28',(G,'		Tests: tests,\n',''))
m('g-rec','C28',(G,'	if recursive {','	if recursive || tests {'))
m('g-swap','C28',(G,'''	arg := "."
	if recursive {
		arg = "./..."''','''	arg := "./..."
	if recursive {
		arg = "."'''))
m('g-dots','C28',(G,'"./..."','"..."'))
m('g-errors','C28',(G,'''	for _, pkg := range pkgs {
		for _, e := range pkg.Errors {
			err = errors.Join(err, e)
		}
	}
''','''	for _, pkg := range pkgs[:1] {
		for _, e := range pkg.Errors {
			err = errors.Join(err, e)
		}
	}
'''))
m('g-errors2','C28',(G,'''		for _, e := range pkg.Errors {
			err = errors.Join(err, e)
		}
''','''		if len(pkg.Errors) > 1 {
			err = pkg.Errors[0]
		}
'''))
m('g-errors3','C28',(G,'''	for _, pkg := range pkgs {
		for _, e := range pkg.Errors {
			err = errors.Join(err, e)
		}
	}
	if err''','''	for _, pkg := range pkgs {
		err = nil
		for _, e := range pkg.Errors {
			err = errors.Join(err, e)
		}
	}
	if err'''))
m('g-errors4','C28',(G,'''			err = errors.Join(err, e)
''','''			if e.Kind == packages.ListError {
				continue
			}
			err = errors.Join(err, e)
'''))
m('g-first','C28',(G,'	for _, pkg := range pkgs {\n		if pkg.Module','	for _, pkg := range pkgs[:1] {\n		if pkg.Module'))
m('g-break','C28',(G,'''		if pkg.Module == nil {
			continue
		}
''','''		if pkg.Module == nil {
			break
		}
'''))
m('g-skipgen','C28',(G,'''		if pkg.Module == nil {
			continue
		}
''','''		if pkg.Module == nil || len(pkg.GoFiles) == 0 {
			continue
		}
'''))
m('g-modpath0','C28',(G,'gopkgAdd(pkg, pkg.Module.Path, files)','gopkgAdd(pkg, pkgs[0].Module.Path, files)'))
m('g-pkgpath','C28',(G,'gopkgAdd(pkg, pkg.Module.Path, files)','gopkgAdd(pkg, pkg.PkgPath, files)'))
m('g-adderr','C28',(G,'''		if err = gopkgAdd(pkg, pkg.Module.Path, files); err != nil {
			return nil, errors.Wrapf(err, "adding files from %s", pkg.PkgPath)
		}
''','''		gopkgAdd(pkg, pkg.Module.Path, files)
'''))
m('g-unsorted','C28',(G,'	sort.Strings(slice)\n','	sort.Strings(append([]string{}, slice...))\n'))
m('g-go','C28',(G,'	files.Add(pkg.GoFiles...)\n',''))
m('g-other','C28',(G,'	files.Add(pkg.OtherFiles...)\n',''))
m('g-embed','C28',(G,'	files.Add(pkg.EmbedFiles...)\n',''))
m('g-embed1','C28',(G,'	files.Add(pkg.EmbedFiles...)\n','	if len(pkg.EmbedPatterns) == 0 {\n		files.Add(pkg.EmbedFiles...)\n	}\n'))
m('g-ignored','C28',(G,'	files.Add(pkg.OtherFiles...)\n','	files.Add(pkg.OtherFiles...)\n	files.Add(pkg.IgnoredFiles...)\n'))
m('g-go1','C28',(G,'	files.Add(pkg.GoFiles...)\n','	for _, f := range pkg.GoFiles {\n		if filepath.Base(f) != "doc.go" {\n			files.Add(f)\n		}\n	}\n'))
m('g-noimport','C28',(G,'''	for _, imp := range pkg.Imports {
		if err := gopkgAdd(imp, modpath, files); err != nil {
			return errors.Wrapf(err, "in import of %s", imp.PkgPath)
		}
	}
''',''))
m('g-import1','C28',(G,'''	for _, imp := range pkg.Imports {
		if err''','''	for path, imp := range pkg.Imports {
		if filepath.Base(path) == "internal" {
			continue
		}
		if err'''))
m('g-import-mod','C28',(G,'gopkgAdd(imp, modpath, files)','gopkgAdd(imp, imp.Module.Path, files)'))
m('g-nogo-stop','C28',(G,'	files.Add(pkg.GoFiles...)\n','	if len(pkg.GoFiles) == 0 {\n		return nil\n	}\n	files.Add(pkg.GoFiles...)\n'))
m('g-main','C28',(G,'	if pkg.Module.Path != modpath {','	if pkg.Module.Path != modpath || !pkg.Module.Main {'))
m('g-modcheck','C28',(G,'	if pkg.Module.Path == modpath','	if true'))if False else None
m('g-noteq','C28',(G,'	if pkg.Module.Path != modpath {','	if pkg.Module.Path == modpath {'))
m('g-hasprefix','C28',(G,'	if pkg.Module.Path != modpath {','	if len(pkg.Module.Path) > len(modpath) {'))
# quiet
m('ok-g-config','',(G,'''	config := &packages.Config{
''','''	var config packages.Config
	config = packages.Config{
'''),(G,'packages.Load(config, arg)','packages.Load(&config, arg)'))
m('ok-g-arg','',(G,'''	arg := "."
	if recursive {
		arg = "./..."
	}
''','''	arg := "./..."
	if !recursive {
		arg = "."
	}
'''))
m('ok-g-errs','',(G,'''	for _, pkg := range pkgs {
		for _, e := range pkg.Errors {
			err = errors.Join(err, e)
		}
	}
	if err != nil {''','''	for i := 0; i < len(pkgs); i++ {
		for j := range pkgs[i].Errors {
			err = errors.Join(err, pkgs[i].Errors[j])
		}
	}
	if err != nil {'''))
m('ok-g-errs2','',(G,'''		for _, e := range pkg.Errors {
			err = errors.Join(err, e)
		}
''','''		if len(pkg.Errors) > 0 {
			return nil, errors.Wrapf(pkg.Errors[0], "after loading from %s", dir)
		}
'''))
m('ok-g-oneadd','',(G,'''	files.Add(pkg.GoFiles...)
	files.Add(pkg.CompiledGoFiles...)
	files.Add(pkg.OtherFiles...)
	files.Add(pkg.EmbedFiles...)
''','''	var list []string
	list = append(list, pkg.GoFiles...)
	list = append(list, pkg.OtherFiles...)
	list = append(list, pkg.EmbedFiles...)
	files.Add(list...)
'''))
m('ok-g-loopadd','',(G,'	files.Add(pkg.GoFiles...)\n','	for _, f := range pkg.GoFiles {\n		files.Add(f)\n	}\n'))
m('ok-g-listlist','',(G,'''	files.Add(pkg.GoFiles...)
	files.Add(pkg.CompiledGoFiles...)
	files.Add(pkg.OtherFiles...)
	files.Add(pkg.EmbedFiles...)
''','''	for _, list := range [][]string{pkg.GoFiles, pkg.CompiledGoFiles, pkg.OtherFiles, pkg.EmbedFiles} {
		files.Add(list...)
	}
'''))
m('ok-g-cond','',(G,'''	if pkg.Module == nil {
		return nil
	}
	if pkg.Module.Path != modpath {
		return nil
	}
''','''	if mod := pkg.Module; mod == nil || mod.Path != modpath {
		return nil
	}
'''))
m('ok-g-nomod-helper','',(G,'''		if pkg.Module == nil {
			continue
		}
		if err = gopkgAdd(pkg, pkg.Module.Path, files); err != nil {
			return nil, errors.Wrapf(err, "adding files from %s", pkg.PkgPath)
		}
''','''		if pkg.Module != nil {
			if err := gopkgAdd(pkg, pkg.Module.Path, files); err != nil {
				return nil, errors.Wrapf(err, "adding files from %s", pkg.PkgPath)
			}
		}
'''))
m('ok-g-split','',(G,'''	files.Add(pkg.GoFiles...)
	files.Add(pkg.CompiledGoFiles...)
''','''	addSources(pkg, files)
'''),(G,'''func depsDecoder(''','''func addSources(pkg *packages.Package, files set.Of[string]) {
	files.Add(pkg.GoFiles...)
	files.Add(pkg.CompiledGoFiles...)
}

func depsDecoder('''))
m('ok-g-nocompiled','',(G,'	files.Add(pkg.CompiledGoFiles...)\n',''))
m('ok-g-nopatterns','',(G,'''	for _, pattern := range pkg.EmbedPatterns {
		matches, err := filepath.Glob(pattern)
		if err != nil {
			return errors.Wrapf(err, "in pattern %s", pattern)
		}
		files.Add(matches...)
	}
''',''),(G,'	files.Add(pkg.EmbedFiles...)\n','	files.Add(pkg.EmbedFiles...)\n	_ = packages.NeedEmbedPatterns\n'))
# proto
RX='''`^\\s*import(\\s+public|\\s+weak)?\\s*["']([^"']+)["']`'''
def rx(name, new): m(name,'C29',(P,RX,new))
rx('p-rx-single','''`^\\s*import(\\s+public|\\s+weak)?\\s*["]([^"']+)["]`''')
rx('p-rx-nopublic','''`^\\s*import(\\s+weak)?\\s*["']([^"']+)["']`''')
rx('p-rx-noweak','''`^\\s*import(\\s+public)?\\s*["']([^"']+)["']`''')
rx('p-rx-noindent','''`^import(\\s+public|\\s+weak)?\\s*["']([^"']+)["']`''')
rx('p-rx-unanch','''`import(\\s+public|\\s+weak)?\\s*["']([^"']+)["']`''')
rx('p-rx-end','''`^\\s*import(\\s+public|\\s+weak)?\\s*["']([^"']+)["'];$`''')
rx('p-rx-word','''`^\\s*import(\\s+public|\\s+weak)?\\s*["']([\\w/]+\\.proto)["']`''')
rx('p-rx-greedy','''`^\\s*import(\\s+public|\\s+weak)?\\s*["'](.+)["']`''')
m('p-self','C29',(P,'result := set.New[string](filename)','result := set.New[string]()'))
m('p-unsorted','C29',(P,'	slice := result.Slice()\n	sort.Strings(slice)\n','	slice := result.Slice()\n	sort.Strings(slice[1:])\n'))
m('p-err','C29',(P,'	return slice, err\n','	if len(slice) > 1 {\n		return slice, nil\n	}\n	return slice, err\n'))
m('p-scanerr','C29',(P,'	return sc.Err()\n','	return nil\n'))
m('p-return','C29',(P,'''		if len(m) == 0 {
			continue
		}
''','''		if len(m) == 0 {
			return nil
		}
'''))
m('p-m1','C29',(P,'protodepsImport(m[2],','protodepsImport(m[1],'))
m('p-importerr','C29',(P,'''		if err := protodepsImport(m[2], includes, result); err != nil {
			return err
		}
''','''		protodepsImport(m[2], includes, result)
'''))
m('p-inc1','C29',(P,'for _, inc := range includes {\n		full','for _, inc := range includes[:1] {\n		full'))
m('p-incjoin','C29',(P,'filepath.Join(inc, imp)','filepath.Join(inc, filepath.Base(imp))'))
m('p-nohas','C29',(P,'''		if result.Has(full) {
			// The import refers to this file, not to one in a later include directory.
			return nil
		}

''',''))
m('p-hascont','C29',(P,'''			// The import refers to this file, not to one in a later include directory.
			return nil
''','''			continue
'''))
m('p-anyerr','C29',(P,'if errors.Is(err, fs.ErrNotExist) {','if err != nil && err != fs.ErrClosed {'))
m('p-perm','C29',(P,'if errors.Is(err, fs.ErrNotExist) {','if errors.Is(err, fs.ErrNotExist) || errors.Is(err, fs.ErrPermission) {'))
m('p-noadd','C29',(P,'		result.Add(full)\n		return protodeps','		return protodeps'))
m('p-addimp','C29',(P,'		result.Add(full)\n','		result.Add(imp)\n'))
m('p-norec','C29',(P,'		return protodeps(f, includes, result)\n','		return nil\n'))
m('p-recinc','C29',(P,'		return protodeps(f, includes, result)\n','		return protodeps(f, []string{inc}, result)\n'))
m('p-recset','C29',(P,'		return protodeps(f, includes, result)\n','		return protodeps(f, includes, set.New[string](full))\n'))
m('p-cont','C29',(P,'		return protodeps(f, includes, result)\n','		if err := protodeps(f, includes, result); err != nil {\n			return err\n		}\n'))if False else None
m('p-addlate','C29',(P,'''		result.Add(full)
		return protodeps(f, includes, result)
''','''		if err := protodeps(f, includes, result); err != nil {
			return err
		}
		result.Add(full)
		return nil
'''))
m('p-notfound-ret','C29',(P,'''		if errors.Is(err, fs.ErrNotExist) {
			continue
		}
''','''		if errors.Is(err, fs.ErrNotExist) {
			return nil
		}
'''))
m('p-stop-syntax','C29',(P,'''		if len(m) == 0 {
			continue
		}
''','''		if len(m) == 0 {
			if len(sc.Text()) > 0 && sc.Text()[0] == 'm' {
				break
			}
			continue
		}
'''))
m('p-lower','C29',(P,'FindStringSubmatch(sc.Text())','FindStringSubmatch(filepath.ToSlash(sc.Text()))'))
m('p-skipself','C29',(P,'	for _, inc := range includes {\n		full := filepath.Join(inc, imp)\n','	for i, inc := range includes {\n		if i > 0 && inc == includes[0] {\n			return nil\n		}\n		full := filepath.Join(inc, imp)\n'))
# Proto
#m('p-proto-inc','C35',(P,'return "-I" + inc','return "-I " + inc'))
m('ok-p-merge','',(P,'''	result := set.New[string](filename)
	err = protodeps(f, includes, result)
	slice := result.Slice()
	sort.Strings(slice)
	return slice, err
''','''	result := set.New[string]()
	result.Add(filename)
	if err := protodeps(f, includes, result); err != nil {
		return nil, err
	}
	slice := result.Slice()
	sort.Strings(slice)
	return slice, nil
'''))
m('ok-p-cond','',(P,'''		if len(m) == 0 {
			continue
		}
		if err := protodepsImport(m[2], includes, result); err != nil {
			return err
		}
''','''		if m != nil {
			if err := protodepsImport(m[2], includes, result); err != nil {
				return err
			}
		}
'''))
m('ok-p-inline','',(P,'''		if err := protodepsImport(m[2], includes, result); err != nil {
			return err
		}
''','''		imp := m[2]
		for _, inc := range includes {
			full := filepath.Join(inc, imp)
			if result.Has(full) {
				break
			}
			f, err := os.Open(full)
			if errors.Is(err, fs.ErrNotExist) {
				continue
			}
			if err != nil {
				return errors.Wrapf(err, "opening %s", full)
			}
			defer f.Close()
			result.Add(full)
			if err := protodeps(f, includes, result); err != nil {
				return err
			}
			break
		}
'''),(P,'''func protodepsImport(imp string, includes []string, result set.Of[string]) error {
	for _, inc := range includes {
		full := filepath.Join(inc, imp)

		if result.Has(full) {
			// The import refers to this file, not to one in a later include directory.
			return nil
		}

		f, err := os.Open(full)
		if errors.Is(err, fs.ErrNotExist) {
			continue
		}
		if err != nil {
			return errors.Wrapf(err, "opening %s", full)
		}
		defer f.Close()

		result.Add(full)
		return protodeps(f, includes, result)
	}
	return nil
}
''',''))
m('ok-p-osnotexist','',(P,'errors.Is(err, fs.ErrNotExist)','os.IsNotExist(err)'),(P,'	"io/fs"\n',''))
m('ok-p-split','',(P,'''		f, err := os.Open(full)
		if errors.Is(err, fs.ErrNotExist) {
			continue
		}
		if err != nil {
			return errors.Wrapf(err, "opening %s", full)
		}
		defer f.Close()

		result.Add(full)
		return protodeps(f, includes, result)
''','''		found, err := protodepsFile(full, includes, result)
		if found || err != nil {
			return err
		}
'''),(P,'''func protodepsDecoder(''','''func protodepsFile(full string, includes []string, result set.Of[string]) (bool, error) {
	f, err := os.Open(full)
	if errors.Is(err, fs.ErrNotExist) {
		return false, nil
	}
	if err != nil {
		return false, errors.Wrapf(err, "opening %s", full)
	}
	defer f.Close()

	result.Add(full)
	return true, protodeps(f, includes, result)
}

func protodepsDecoder('''))
m('ok-p-index','',(P,'for _, inc := range includes {\n		full := filepath.Join(inc, imp)','for i := 0; i < len(includes); i++ {\n		full := filepath.Join(includes[i], imp)'))
m('ok-p-close','',(P,'''		defer f.Close()

		result.Add(full)
		return protodeps(f, includes, result)
''','''		result.Add(full)
		err = protodeps(f, includes, result)
		f.Close()
		return err
'''))
