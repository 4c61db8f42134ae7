M=[]
def m(name, prop, *edits): M.append((name, prop, list(edits)))
A='argtarg.go'; D='deps.go'; Y='yaml.go'; C='controller.go'; G='golang/go.go'; P='proto/proto.go'
m('p-arglen','C27',(A,'''	if len(node.Content) == 0 {
		return nil, fmt.Errorf("no child nodes")
	}
''','''	if node.Content == nil && node.Value != "" {
		return nil, fmt.Errorf("no child nodes")
	}
'''))
m('p-argtail','C27',(A,'node.Content[1:]','node.Content[2:]'),)
m('p-depslen','C27',(D,'''		if len(node.Content) == 0 {
			return nil, fmt.Errorf("no child nodes")
		}
''','''		if len(node.Value) > 0 {
			return nil, fmt.Errorf("no child nodes")
		}
'''))
m('p-parity','C27',(Y,'len(m.Content)%2 != 0','len(m.Content)%2 != 0 && dir != ""'))
m('p-parity2','C27',(Y,'len(m.Content)%2 != 0','len(m.Content)%3 != 0'))
m('p-doclen','C27',(Y,'len(doc.Content) != 1','len(doc.Content) > 1'))
m('p-parse','C27',(C,'len(args) > 1 && strings','len(args) > 0 && strings'))
m('p-parse2','C27',(C,'	switch len(unknown) {\n	case 0:\n		return targets, nil\n	case 1:','	if len(targets) > 0 && len(unknown) == 0 {\n		return targets, nil\n	}\n	switch len(unknown) {\n	case 0, 1:'))
m('p-join','C27',(C,'make([]string, 1, 1+len(elts))','make([]string, 0, 1+len(elts))'))
m('p-join2','C27',(C,'for i := len(elts) - 1; i >= 0; i--','for i := len(elts); i >= 0; i--'))
m('p-join3','C27',(C,'filepath.Join(elts[i:]...)','filepath.Join(elts[i:i+2]...)'))
m('p-pkgs','C27',('main.go','''	if len(pkgs) == 0 {
		return "", errNoDriver
	}
	if len(pkgs) != 1 {''','''	if len(pkgs) > 1 {'''))
m('p-cpkgs','C27',('compile.go','	if len(ppkgs) != 1 {','	if len(ppkgs) > 1 {'))
m('p-gofiles','C27',('compile.go','''	if len(pkg.GoFiles) == 0 {
		return fmt.Errorf("no Go files in package")
	}
''','''	if len(pkg.CompiledGoFiles) == 0 && len(pkg.OtherFiles) > 0 {
		return fmt.Errorf("no Go files in package")
	}
'''))
m('p-astpkg','C27',('compile.go','''	astpkg, ok := astpkgs[pkg.Name]
	if !ok {
		return fmt.Errorf("package %s not found in %s", pkg.Name, pkgdir)
	}
''','''	astpkg := astpkgs[pkg.Name]
	if astpkg != nil && len(astpkg.Files) == 0 {
		return fmt.Errorf("package %s not found in %s", pkg.Name, pkgdir)
	}
	if astpkg.Name == "" {
		astpkg.Name = pkg.Name
	}
'''))
m('p-tp','C27',('compile.go','''			if tp, ok := targets[name]; ok {
				dstr''','''			if tp := targets[name]; tp != nil || ast.IsExported(name) {
				dstr'''))
m('p-module','C27',(G,'''		if pkg.Module == nil {
			continue
		}
		if err = gopkgAdd''','''		if err = gopkgAdd'''))
m('p-module2','C27',(G,'''	if pkg.Module == nil {
		return nil
	}
	if pkg.Module.Path''','''	if pkg.Module.Path'''))
m('p-conmap','C27',(C,'		reading:       make(map[string]int),\n',''))
m('p-conmap2','C27',(C,'		ran:           make(map[targetID]*outcome),\n',''))
m('p-conmap3','C27',(C,'		targetsByAddr: make(map[targetID]targetRegistryTuple),\n',''))
m('p-regmap','C27',('registry.go','return &registry[T]{items: make(map[string]T)}','return new(registry[T])'))
m('p-regmap2','C27',('files.go','	hashes := make(map[string]string)\n','	var hashes map[string]string\n	if len(items) > 0 && items[0] != "" {\n		hashes = make(map[string]string)\n	}\n'))
m('p-hashes0','C27',('files.go','	hashes := make(map[string]string)\n','	hashes := make(map[string]string)\n	if items[0] == "" {\n		items = items[1:]\n	}\n'))
m('p-addr','C27',('register.go','v.Kind() != reflect.Pointer','v.Kind() == reflect.Func'))
m('p-regex','C27',(P,'m[2], includes','m[3], includes'))
m('p-regex2','C27',(P,'	if len(m) == 0 {\n			continue\n		}\n','') ) if False else None
m('p-regex3','C27',(P,'		if len(m) == 0 {\n			continue\n		}\n','		if len(m) == 0 && sc.Text() == "" {\n			continue\n		}\n'))
m('p-kind','C27',('types.go','''		if r.Kind() != reflect.Slice {
			return fmt.Errorf("kinds Slice and %v do not match", r.Kind())
		}
''','''		if k := r.Kind(); k != reflect.Slice && k != reflect.String {
			return fmt.Errorf("kinds Slice and %v do not match", r.Kind())
		}
'''))
m('p-kind2','C27',('types.go','''		if t.NumFields() != r.NumField() {''','''		if t.NumFields() < r.NumField() {'''))
m('p-kind3','C27',('types.go','''	if nParamsWithReceiver != fn.NumIn() {''','''	if nParamsWithReceiver < fn.NumIn() {'''))
m('p-assert','C27',('types.go','''		f, ok := m.Obj().(*types.Func)
		if !ok {
			return fmt.Errorf("%s is a %T, not a func", name, m.Obj())
		}
''','''		f := m.Obj().(*types.Func)
'''))
m('p-mnil','C27',('types.go','''		if m == nil {
			return fmt.Errorf("%s not found in method set", name)
		}
''',''))
m('p-pkgnil','C27',('types.go','''		if pkg := named.Obj().Pkg(); pkg != nil {
			pkgpath = pkg.Path()
		}
''','''		pkgpath = named.Obj().Pkg().Path()
'''))
m('p-panic','C27',('files.go','''		return nil, errors.Wrap(err, "in JSON marshaling")''','''		panic(err)'''))
m('p-must','C27',(G,'return Binary(con.JoinPath(dir, b.Dir)','return MustBinary(con.JoinPath(dir, b.Dir)') ) if False else None
m('p-lookup','C27',(Y,'''		fn, ok := yamlTargetRegistry.lookup(tag)
		if !ok {
			return nil, fmt.Errorf("unknown YAML target type %s", tag)
		}
		return fn''','''		fn, _ := yamlTargetRegistry.lookup(tag)
		return fn'''))
m('p-lookup2','C27',(Y,'''		fn, ok := yamlStringListRegistry.lookup(tag)
		if !ok {
			return nil, UnknownStringListTagError{Tag: tag}
		}

		strs''','''		fn, ok := yamlStringListRegistry.lookup(tag)
		if !ok && tag == "" {
			return nil, UnknownStringListTagError{Tag: tag}
		}

		strs'''))
m('p-found','C27',(Y,'''		target, _ := con.RegistryTarget(dt.Name)
		if target == nil {
			return nil, fmt.Errorf("cannot resolve target %s", dt.Name)
		}
''','''		target, _ := con.RegistryTarget(dt.Name)
		if target == nil && target.Desc() == "" {
			return nil, fmt.Errorf("cannot resolve target %s", dt.Name)
		}
'''))
m('p-aliasdesc','C27',(Y,'''	default:''','''	default:''')) if False else None
m('p-dbnil','C27',('files.go','	if db == nil || GetDryRun(ctx) {','	if GetDryRun(ctx) {'))
m('p-dbnil2','C27',('files.go','	if db != nil && !GetForce(ctx) && !GetDryRun(ctx) {','	if !GetForce(ctx) && !GetDryRun(ctx) {'))
m('p-ctxassert','C27',('context.go','''	val, _ := ctx.Value(hashDBKey{}).(HashDB)''','''	val := ctx.Value(hashDBKey{}).(HashDB)''')) if False else None
m('p-errfile','C27',(P,'''	f, err := os.Open(filename)
	if err != nil {
		return nil, errors.Wrapf(err, "opening %s", filename)
	}
	defer f.Close()
''','''	f, err := os.Open(filename)
	defer f.Close()
	if f.Name() == "" || err != nil {
		return nil, errors.Wrapf(err, "opening %s", filename)
	}
'''))
m('p-info','C27',('files.go','''	if err != nil {
		return errors.Wrapf(err, "statting %s", item)
	}

	if info''','''	if err != nil && errors.Is(err, fs.ErrPermission) {
		return errors.Wrapf(err, "statting %s", item)
	}

	if info'''))
m('p-cmp','C27',('files.go','''	default:
		return nil
	}

	for _, parent''','''	}

	for _, parent'''))
m('p-mapkey','C27',('files.go','''	var subtargets []Target

''','''	var subtargets []Target
	seen := map[Target]bool{}
	for _, p := range parents {
		seen[p] = true
	}
	if len(seen) > 1000 {
		return fmt.Errorf("too deep")
	}

'''))
m('p-procstate','C27',('command.go','''	err := cmd.Run()''','''	err := cmd.Run()''')) if False else None
m('p-repeat','C27',('runner.go','strings.Repeat("  ", int(depth)) + prefix','strings.Repeat("  ", int(depth)+len(prefix)-2) + prefix'))
m('p-errs','C27',('runner.go','errs    = make([]error, len(targets))','errs    = make([]error, len(targets)-1)'))
m('p-bufidx','C27',('runner.go','	var n int\n\n','	var n int\n	if buf[0] == 0 {\n		buf = buf[1:]\n	}\n'))
m('p-first','C27',(Y,'''	return strings.TrimPrefix(tag, "!")''','''	if tag[0] == '!' {
		return tag[1:]
	}
	return tag'''))
m('p-first2','C27',(Y,'''	return strings.TrimPrefix(tag, "!")''','''	if tag != "" && tag[0] == '!' && tag[1] != '<' {
		return tag[1:]
	}
	return strings.TrimPrefix(tag, "!")'''))
# behaviour-preserving
m('ok-first','',(Y,'''	return strings.TrimPrefix(tag, "!")''','''	if tag != "" && tag[0] == '!' {
		return tag[1:]
	}
	return tag'''))
m('ok-hasprefix','',(Y,'''	return strings.TrimPrefix(tag, "!")''','''	if strings.HasPrefix(tag, "!") {
		return tag[1:]
	}
	return tag'''))
m('ok-first3','',(Y,'''	return strings.TrimPrefix(tag, "!")''','''	if len(tag) >= 1 && tag[0] == '!' {
		return tag[1:len(tag)]
	}
	return tag'''))
m('ok-parityloop','',(Y,'''	for i := 0; i < len(m.Content); i += 2 {
		nameNode := m.Content[i]''','''	for i := 0; i+1 < len(m.Content); i += 2 {
		nameNode := m.Content[i]'''))
m('ok-half','',(Y,'''	for i := 0; i < len(m.Content); i += 2 {
		nameNode := m.Content[i]''','''	for j := 0; j < len(m.Content)/2; j++ {
		i := 2 * j
		nameNode := m.Content[i]'''))
m('ok-and','',(Y,'len(m.Content)%2 != 0','len(m.Content)&1 == 1'))
m('ok-argrest','',(A,'''	target, err := con.YAMLTarget(node.Content[0], dir)''','''	first, rest := node.Content[0], node.Content[1:]
	target, err := con.YAMLTarget(first, dir)'''),(A,'con.YAMLStringListFromNodes(node.Content[1:], dir)','con.YAMLStringListFromNodes(rest, dir)'))
m('ok-arglen','',(A,'len(node.Content) == 0','len(node.Content) < 1'))
m('ok-joinlast','',(C,'''	for i := len(elts) - 1; i >= 0; i-- {
		if filepath.IsAbs(elts[i]) {
			return filepath.Join(elts[i:]...)
		}
	}
''','''	last := -1
	for i, elt := range elts {
		if filepath.IsAbs(elt) {
			last = i
		}
	}
	if last >= 0 {
		return filepath.Join(elts[last:]...)
	}
'''))
m('ok-joindown','',(C,'''	for i := len(elts) - 1; i >= 0; i-- {
		if filepath.IsAbs(elts[i]) {
			return filepath.Join(elts[i:]...)
		}
	}
''','''	for i := len(elts); i > 0; i-- {
		if filepath.IsAbs(elts[i-1]) {
			return filepath.Join(elts[i-1:]...)
		}
	}
'''))
m('ok-joincopy','',(C,'''	args := make([]string, 1, 1+len(elts))
	args[0] = con.topdir
	args = append(args, elts...)
''','''	args := make([]string, 1+len(elts))
	args[0] = con.topdir
	copy(args[1:], elts)
'''))
m('ok-parse','',(C,'len(args) > 1 && strings','len(args) >= 2 && strings'))
m('ok-parsetail','',(C,'	if len(args) > 1 && strings.HasPrefix(args[1], "-") {','	hasOpts := len(args) > 1 && strings.HasPrefix(args[1], "-")\n	if hasOpts {'))
m('ok-unknown','',(C,'''	switch len(unknown) {
	case 0:
		return targets, nil
	case 1:
		return nil, fmt.Errorf("unknown target %s", unknown[0])
	default:
		return nil, fmt.Errorf("unknown targets: %s", strings.Join(unknown, " "))
	}
''','''	if len(unknown) == 0 {
		return targets, nil
	}
	if len(unknown) > 1 {
		return nil, fmt.Errorf("unknown targets: %s", strings.Join(unknown, " "))
	}
	return nil, fmt.Errorf("unknown target %s", unknown[0])
'''))
m('ok-regex','',(P,'	if len(m) == 0 {\n			continue','	if m == nil {\n			continue'))
m('ok-regex3','',(P,'	if len(m) == 0 {\n			continue','	if len(m) < 3 {\n			continue'))
m('ok-kindswitch','',('types.go','''	if fn.Kind() != reflect.Func {
		return fmt.Errorf("kind is %v, not func", fn.Kind())
	}
''','''	switch k := fn.Kind(); k {
	case reflect.Func:
	default:
		return fmt.Errorf("kind is %v, not func", k)
	}
'''))
m('ok-pkgsfirst','',('main.go','	pkg := pkgs[0]\n','	var pkg *packages.Package\n	for _, p := range pkgs {\n		pkg = p\n	}\n'))
m('ok-reading','',(C,'		reading:       make(map[string]int),\n','		reading:       map[string]int{},\n'))
m('ok-conset','',(C,'''	return &Controller{
		topdir:        topdir,
		ran:           make(map[targetID]*outcome),
''','''	con := &Controller{
		topdir:        topdir,
'''),(C,'''		reading:       make(map[string]int),
	}
''','''		reading:       make(map[string]int),
	}
	con.ran = make(map[targetID]*outcome)
	return con
'''))
m('ok-cmpid','',('files.go','''		if parent == target {''','''		if target == parent {'''))
m('ok-errs','',('runner.go','''	for i, target := range targets {
		i, target := i, target // Go loop-var pitfall
''','''	for i := 0; i < len(targets); i++ {
		i, target := i, targets[i]
'''))
m('ok-errslen','',('runner.go','''	for i, target := range targets {
		i, target := i, target // Go loop-var pitfall
''','''	for i := range errs {
		i, target := i, targets[i]
'''))
M=[x for x in M if x]
