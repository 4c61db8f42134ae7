M=[]
def m(name, prop, *eds): M.append((name, prop, list(eds)))
G,T,N='compile.go','driver.go.tmpl','main.go'
m('22-unexported','C22',(G,'''		if !ast.IsExported(ident) {
			continue
		}
''','''		if ident == "_" {
			continue
		}
'''))
m('22-nonvar','C22',(G,'''		obj, ok := scope.Lookup(ident).(*types.Var)
		if !ok {
			continue
		}
''','''		obj := scope.Lookup(ident)
		if _, ok := obj.(*types.TypeName); ok {
			continue
		}
'''))
m('22-noimpl','C22',(G,'''		if err := checkImplementsTarget(obj.Type()); err != nil {
			continue
		}
''','''		if err := checkImplementsTarget(obj.Type()); err != nil && len(idents) > 1 {
			continue
		}
'''))
m('22-skiplast','C22',(G,'''	for _, ident := range idents {
		if !ast''','''	for _, ident := range idents[:len(idents)-1] {
		if !ast'''))
m('22-short','C22',(G,'''		if !ast.IsExported(ident) {
''','''		if !ast.IsExported(ident) || len(ident) < 2 {
'''))
m('22-break','C22',(G,'''		if err := checkImplementsTarget(obj.Type()); err != nil {
			continue
		}
''','''		if err := checkImplementsTarget(obj.Type()); err != nil {
			break
		}
'''))
m('22-lower','C22',(G,'Name: ident, Doc','Name: strings.ToLower(ident), Doc'))
m('22-onlytypes','C22',(G,'	vars := dpkg.Vars\n','	var vars []*doc.Value\n'))
m('22-notypes','C22',(G,'''	for _, typ := range dpkg.Types {
		// Variables declared with a type of this package are found here.
		vars = append(vars, typ.Vars...)
	}
''',''))
m('22-typeslast','C22',(G,'''		vars = append(vars, typ.Vars...)
''','''		vars = append(dpkg.Vars, typ.Vars...)
'''))
m('22-firstname','C22',(G,'''		for _, name := range v.Names {
			if tp''','''		for _, name := range v.Names[:1] {
			if tp'''))
m('22-firstonly','C22',(G,'''				tp.Doc = strconv.Quote(dstr)
''','''				tp.Doc = strconv.Quote(dstr)
				break
'''))
m('22-docskip','C22',(G,'''			if tp, ok := targets[name]; ok {
''','''			if tp, ok := targets[name]; ok && len(v.Names) == 1 {
'''))
m('22-synopsis','C22',(G,'strconv.Quote(dstr)','strconv.Quote(dpkg.Synopsis(dstr))'))
m('22-unquoted','C22',(G,'strconv.Quote(dstr)','`"` + strings.ReplaceAll(strconv.Itoa(len(dstr)), `x`, `y`) + dstr + `"`'))
m('22-backq','C22',(G,'strconv.Quote(dstr)','"`" + dstr + "`" + strconv.Itoa(1)[:0]'))
m('22-groupdoc','C22',(G,'parser.Parse(varDoc(v, name))','parser.Parse(v.Doc)'))
m('22-wrongspec','C22',(G,'			if ident.Name == name {\n','			if ident.IsExported() {\n'))
m('22-firstspec','C22',(G,'''		for _, ident := range spec.Names {
			if ident.Name == name {
				return spec.Doc.Text()
			}
		}
''','''		return spec.Doc.Text()
'''))
m('22-specname0','C22',(G,'''		for _, ident := range spec.Names {
			if ident.Name == name {
				return spec.Doc.Text()
			}
		}
''','''		if ident := spec.Names[0]; ident.Name == name {
			return spec.Doc.Text()
		}
'''))
m('22-spec0','C22',(G,'''	for _, spec := range v.Decl.Specs {
		spec, ok''','''	for _, spec := range v.Decl.Specs[:1] {
		spec, ok'''))
m('22-nocomments','C22',(G,'isPkgFile, parser.ParseComments)','isPkgFile, 0)'))
m('22-nofilter','C22',(G,'if filepath.Base(filename) == info.Name() {','if filepath.Base(filename) == info.Name() || strings.HasSuffix(info.Name(), "_test.go") {'))
m('22-filterfirst','C22',(G,'range pkg.GoFiles {','range pkg.GoFiles[:1] {'))
m('22-otherpkg','C22',(G,'doc.New(astpkg, pkgdir, 0)','doc.New(astpkgs[astpkg.Name+""], pkgdir, 0)'))
m('22-subdir','C22',(G,'subpkgdir := filepath.Join(tmpdir, "pkg", pkg.Name)','subpkgdir := filepath.Join(tmpdir, "pkg", filepath.Base(pkgdir))'))
m('22-impname','C22',(T,'"x/pkg/{{ .Subpkg }}"','"x/{{ .Subpkg }}"'))
m('22-copyskip','C22',(G,'''		if entry.IsDir() {
			continue
		}
		if strings''','''		if entry.IsDir() || strings.HasPrefix(entry.Name(), "z") {
			continue
		}
		if strings'''))
m('22-copystop','C22',(G,'''		if !strings.HasSuffix(entry.Name(), ".go") {
			continue
		}
''','''		if !strings.HasSuffix(entry.Name(), ".go") {
			break
		}
'''))
m('22-nontype','C22',(G,'''		if entry.IsDir() {
			continue
		}
		if strings''','''		if !entry.Type().IsRegular() {
			continue
		}
		if strings'''))
m('22-modname','C22',(G,'exec.CommandContext(ctx, "go", "mod", "init", "x")','exec.CommandContext(ctx, "go", "mod", "init", "driver")'))
m('22-replace','C22',(G,'AddReplace("github.com/bobg/fab", "", "./fab", "")','AddReplace("github.com/bobg/fab", "", "./src", "")'))
m('22-replaceonly','C22',(G,'AddReplace("github.com/bobg/fab", "", "./fab", "")','AddReplace("github.com/bobg/fab", "v0.1.0", "./fab", "")'))
m('22-nowrite','C22',(G,'''	if err = os.WriteFile(gomodPath, gomodData, 0644); err != nil {''','''	if err = os.WriteFile(gomodPath+".new", gomodData, 0644); err != nil {'''))
m('22-formatearly','C22',(G,'''	if err = mf.AddReplace("github.com/bobg/fab", "", "./fab", ""); err != nil {
		return errors.Wrapf(err, "adding replace directive in %s", gomodPath)
	}
	gomodData, err = mf.Format()
''','''	gomodData, err = mf.Format()
	if err := mf.AddReplace("github.com/bobg/fab", "", "./fab", ""); err != nil {
		return errors.Wrapf(err, "adding replace directive in %s", gomodPath)
	}
'''))
m('22-fabelsewhere','C22',(G,'populateFabDir(tmpdir)','populateFabDir(filepath.Join(tmpdir, "src"))'))
m('22-gofile','C22',(G,'filepath.Join(tmpdir, "driver.go")','filepath.Join(tmpdir, "driver_test.go")'))
m('22-mode','C22',(G,'const LoadMode = packages.NeedName | packages.NeedFiles |','const LoadMode = packages.NeedName |'))
m('22-mode2','C22',(G,'Mode:    packages.NeedName | packages.NeedFiles | packages.NeedTypes','Mode:    packages.NeedName | packages.NeedFiles'))
m('22-t-name','C22',(T,'RegisterTarget("{{ .Name }}"','RegisterTarget("{{ $.Subpkg }}.{{ .Name }}"'))
m('22-t-nodoc','C22',(T,'{{ .Doc }}, subpkg','"", subpkg'))
m('22-t-html','C22',(T,'{{ .Doc }}, subpkg','{{ .Doc | html }}, subpkg'))
m('22-t-blank','C22',(T,'{{ if .Targets }}subpkg{{ else }}_{{ end }} ','subpkg '))
m('22-t-noerr','C22',(T,'''	if err != nil {
		fmt.Printf("Error registering target {{ .Name }}: %s\\n", err)
		os.Exit(1)
	}
''','''	if err != nil {
		fmt.Printf("Error registering target {{ .Name }}: %s\\n", err)
	}
'''))
m('22-t-late','C22',(T,'''	con := fab.NewController(topdir)

	{{- range''','''	con := fab.NewController(topdir)
	if list && len(flag.Args()) > 0 {
		con.ListTargets(os.Stdout)
		return
	}

	{{- range'''))
m('22-t-first','C22',(T,'{{- range .Targets }}','{{- range $i, $t := .Targets }}{{ if ge $i 1 }}{{ break }}{{ end }}'))
m('22-noscope','C22',(G,'Targets: maps.Values(targets),','Targets: maps.Values(targets)[:len(targets)/2*2],'))
m('22-delete','C22',(G,'''	var (
		dpkg   =''','''	delete(targets, "Main")

	var (
		dpkg   ='''))
# refactorings
m('ok-22-helper','',(G,'''	for _, ident := range idents {
		if !ast.IsExported(ident) {
			continue
		}
		// Types and constants may implement Target but are not targets.
		obj, ok := scope.Lookup(ident).(*types.Var)
		if !ok {
			continue
		}
		if err := checkImplementsTarget(obj.Type()); err != nil {
			continue
		}
		targets[ident] = &targetPair{Name: ident, Doc: `""`}
	}
''','''	for i := 0; i < len(idents); i++ {
		if ident := idents[i]; isTargetVar(scope, ident) {
			targets[ident] = &targetPair{Name: ident, Doc: `""`}
		}
	}
'''),(G,'''func populateFabDir(''','''func isTargetVar(scope *types.Scope, ident string) bool {
	obj, ok := scope.Lookup(ident).(*types.Var)
	return ok && obj.Exported() && checkImplementsTarget(obj.Type()) == nil
}

func populateFabDir('''))
m('ok-22-docs','',(G,'''	vars := dpkg.Vars
	for _, typ := range dpkg.Types {
		// Variables declared with a type of this package are found here.
		vars = append(vars, typ.Vars...)
	}
	for _, v := range vars {
		for _, name := range v.Names {
			if tp, ok := targets[name]; ok {
				dstr := string(pr.Text(parser.Parse(varDoc(v, name))))
				dstr = strings.TrimRight(dstr, "\\r\\n")
				tp.Doc = strconv.Quote(dstr)
			}
		}
	}
''','''	addDocs := func(vars []*doc.Value) {
		for _, v := range vars {
			for _, name := range v.Names {
				tp, ok := targets[name]
				if !ok {
					continue
				}
				text := pr.Text(parser.Parse(varDoc(v, name)))
				tp.Doc = strconv.Quote(strings.TrimRight(string(text), "\\r\\n"))
			}
		}
	}
	addDocs(dpkg.Vars)
	for _, typ := range dpkg.Types {
		addDocs(typ.Vars)
	}
'''))
m('ok-22-copy','',(G,'''	for _, entry := range entries {
		if entry.IsDir() {
			continue
		}
		if strings.HasSuffix(entry.Name(), "_test.go") {
			continue
		}
		if !strings.HasSuffix(entry.Name(), ".go") {
			continue
		}
		if err = copyFile(filepath.Join(pkgdir, entry.Name()), subpkgdir); err != nil {
			return errors.Wrapf(err, "copying %s to tmp subdir", entry.Name())
		}
	}
''','''	for _, entry := range entries {
		name := entry.Name()
		if entry.IsDir() || filepath.Ext(name) != ".go" || strings.HasSuffix(name, "_test.go") {
			continue
		}
		if err = copyFile(filepath.Join(pkgdir, name), subpkgdir); err != nil {
			return errors.Wrapf(err, "copying %s to tmp subdir", name)
		}
	}
'''))
m('ok-22-mod','',(G,'''	gomodPath := filepath.Join(tmpdir, "go.mod")
	gomodData, err := os.ReadFile(gomodPath)
	if err != nil {
		return errors.Wrapf(err, "reading %s", gomodPath)
	}
	mf, err := modfile.Parse(gomodPath, gomodData, nil)
	if err != nil {
		return errors.Wrapf(err, "parsing %s", gomodPath)
	}
	if err = mf.AddReplace("github.com/bobg/fab", "", "./fab", ""); err != nil {
		return errors.Wrapf(err, "adding replace directive in %s", gomodPath)
	}
	gomodData, err = mf.Format()
	if err != nil {
		return errors.Wrapf(err, "formatting go.mod in %s", gomodPath)
	}
	if err = os.WriteFile(gomodPath, gomodData, 0644); err != nil {
		return errors.Wrapf(err, "rewriting %s", gomodPath)
	}
''','''	if err = addReplace(filepath.Join(tmpdir, "go.mod")); err != nil {
		return err
	}
'''),(G,'''func populateFabDir(''','''func addReplace(gomodPath string) error {
	gomodData, err := os.ReadFile(gomodPath)
	if err != nil {
		return errors.Wrapf(err, "reading %s", gomodPath)
	}
	mf, err := modfile.Parse(gomodPath, gomodData, nil)
	if err != nil {
		return errors.Wrapf(err, "parsing %s", gomodPath)
	}
	const fabmod = "github.com/bobg/fab"
	if err = mf.AddReplace(fabmod, "", "./fab", ""); err != nil {
		return errors.Wrapf(err, "adding replace directive in %s", gomodPath)
	}
	newData, err := mf.Format()
	if err != nil {
		return errors.Wrapf(err, "formatting go.mod in %s", gomodPath)
	}
	return errors.Wrapf(os.WriteFile(gomodPath, newData, 0644), "rewriting %s", gomodPath)
}

func populateFabDir('''))
m('ok-22-list','',(G,'''	data := struct {''','''	var pairs []*targetPair
	for _, tp := range targets {
		pairs = append(pairs, tp)
	}

	data := struct {'''),(G,'maps.Values(targets),','pairs,'))
m('ok-22-sort','',(G,'''	data := struct {''','''	names := maps.Keys(targets)
	sort.Strings(names)
	var pairs []*targetPair
	for _, name := range names {
		pairs = append(pairs, targets[name])
	}

	data := struct {'''),(G,'maps.Values(targets),','pairs,'),(G,'	"strconv"\n','	"sort"\n	"strconv"\n'))
m('ok-22-vardoc','',(G,'''		spec, ok := spec.(*ast.ValueSpec)
		if !ok || spec.Doc == nil {
			continue
		}
		for _, ident := range spec.Names {
			if ident.Name == name {
				return spec.Doc.Text()
			}
		}
''','''		vs, ok := spec.(*ast.ValueSpec)
		if !ok {
			continue
		}
		if vs.Doc != nil {
			for i := range vs.Names {
				if vs.Names[i].Name == name {
					return vs.Doc.Text()
				}
			}
		}
'''))
m('ok-22-docfor','',(G,'''				dstr := string(pr.Text(parser.Parse(varDoc(v, name))))
				dstr = strings.TrimRight(dstr, "\\r\\n")
				tp.Doc = strconv.Quote(dstr)
''','''				tp.Doc = strconv.Quote(docText(dpkg, v, name))
'''),(G,'''		parser = dpkg.Parser()
		pr     = dpkg.Printer()
''',''),(G,'''func populateFabDir(''','''func docText(dpkg *doc.Package, v *doc.Value, name string) string {
	text := dpkg.Printer().Text(dpkg.Parser().Parse(varDoc(v, name)))
	return strings.TrimRight(string(text), "\\r\\n")
}

func populateFabDir('''))
m('ok-22-buf','',(G,'''	driverOut, err := os.Create(filepath.Join(tmpdir, "driver.go"))
	if err != nil {
		return errors.Wrap(err, "creating driver.go in temp dir")
	}
	defer driverOut.Close()

''','''	driverOut := new(bytes.Buffer)
'''),(G,'''	if err = driverOut.Close(); err != nil {
		return errors.Wrap(err, "closing driver.go")
	}
''','''	if err = os.WriteFile(filepath.Join(tmpdir, "driver.go"), driverOut.Bytes(), 0644); err != nil {
		return errors.Wrap(err, "writing driver.go")
	}
'''),(G,'import (\n','import (\n	"bytes"\n'))
m('ok-22-tmpl','',(T,'''	_, err = con.RegisterTarget("{{ .Name }}", {{ .Doc }}, subpkg.{{ .Name }})
	if err != nil {
''','''	if _, err := con.RegisterTarget("{{ .Name }}", {{ .Doc }}, subpkg.{{ .Name }}); err != nil {
'''))
m('ok-22-tmplhelper','',(T,'''	_, err = con.RegisterTarget("{{ .Name }}", {{ .Doc }}, subpkg.{{ .Name }})
	if err != nil {
		fmt.Printf("Error registering target {{ .Name }}: %s\\n", err)
		os.Exit(1)
	}
''','''	register(con, "{{ .Name }}", {{ .Doc }}, subpkg.{{ .Name }})
'''),(T,'''func fatalf(''','''func register(con *fab.Controller, name, doc string, target fab.Target) {
	if _, err := con.RegisterTarget(name, doc, target); err != nil {
		fatalf("Error registering target %s: %s", name, err)
	}
}

func fatalf('''))
ISF='''	isPkgFile := func(info fs.FileInfo) bool {
		for _, filename := range pkg.GoFiles {
			if filepath.Base(filename) == info.Name() {
				return true
			}
		}
		return false
	}
'''
def isf(body, look='basenames[info.Name()]', v='bool'):
    return '''	basenames := make(map[string]%s)
	for _, filename := range pkg.GoFiles {
%s
	}
	isPkgFile := func(info fs.FileInfo) bool { return %s }
''' % (v, body, look)
m('ok-isfile','',(G,ISF,isf('		basenames[filepath.Base(filename)] = true')))
m('isfile-full','C22',(G,ISF,isf('		basenames[filename] = true')))
m('isfile-some','C22',(G,ISF,isf('		if strings.HasPrefix(filepath.Base(filename), "fab") {\n			continue\n		}\n		basenames[filepath.Base(filename)] = true')))
m('isfile-break','C22',(G,ISF,isf('		basenames[filepath.Base(filename)] = true\n		if len(basenames) > 9 {\n			break\n		}')))
m('isfile-not','C22',(G,ISF,isf('		basenames[filepath.Base(filename)] = true','!basenames[info.Name()]')))
