M=[]
def m(name, prop, *eds): M.append((name, prop, list(eds)))
Y='yaml.go'; C='command.go'; F='files.go'; D='deps.go'; A='argtarg.go'; CL='clean.go'; G='golang/go.go'; P='proto/proto.go'; T='ts/tsdecls.go'
# --- C12
m('12-filelist','C12',(Y,'''	strs, err := con.YAMLStringList(node, dir)
	if err != nil {
		return nil, err
	}
	return slices.Map(strs, func(s string) string { return con.JoinPath(dir, s) }), nil''','''	strs, err := con.YAMLStringList(node, dir)
	if err != nil {
		return nil, err
	}
	if dir == "" {
		return strs, nil
	}
	return slices.Map(strs, func(s string) string { return con.JoinPath(dir, s) }), nil'''))
m('12-nodes','C12',(Y,'''	strs, err := con.YAMLStringListFromNodes(nodes, dir)
	if err != nil {
		return nil, err
	}
	return slices.Map(strs, func(s string) string { return con.JoinPath(dir, s) }), nil''','''	strs, err := con.YAMLStringListFromNodes(nodes, dir)
	if err != nil {
		return nil, err
	}
	return slices.Map(strs, func(s string) string { return filepath.Join(dir, s) }), nil'''))
m('12-clean','C12',(CL,'files, err = con.YAMLFileListFromNodes(node.Content, dir)','files, err = con.YAMLStringListFromNodes(node.Content, dir)'))
m('12-clean2','C12',(CL,'files, err = con.YAMLFileList(&yclean.Files, dir)','files, err = con.YAMLFileList(&yclean.Files, "")'))
m('12-cmddir','C12',(C,'con.JoinPath(dir, c.Dir)','con.JoinPath(c.Dir)'))
m('12-stdin','C12',(C,'result.StdinFile = con.JoinPath(dir, c.Stdin)','result.StdinFile = c.Stdin'))
m('12-stderr','C12',(C,'outputFile(con, c.Stderr, dir, forceAppend)','outputFile(con, c.Stderr, "", forceAppend)'))
m('12-outfile','C12',(C,'	name = con.JoinPath(dir, name)\n','	if !forceAppend {\n		name = con.JoinPath(dir, name)\n	}\n'))
m('12-bin','C12',(G,'return Binary(con.JoinPath(dir, b.Dir), con.JoinPath(dir, out), flags...)','return Binary(con.JoinPath(dir, b.Dir), con.JoinPath(dir, b.Dir, out), flags...)'))
m('12-bin2','C12',(G,'return Binary(con.JoinPath(dir, b.Dir), con.JoinPath(dir, out), flags...)','return Binary(con.JoinPath(dir, b.Dir), out, flags...)'))
m('12-decls','C12',(T,'con.JoinPath(dir, d.Out)','con.JoinPath(dir, "out", d.Out)'))
m("12-decls2","C12",(T,"con.JoinPath(dir, d.Dir), d.Type","dir, d.Type"))
m('12-proto','C12',(P,'''	includes, err := con.YAMLFileList(&p.Includes, dir)''','''	includes, err := con.YAMLStringList(&p.Includes, dir)'''))
m('12-pdeps','C12',(P,'return slices.Mapx(deps, func(_ int, dep string) (string, error) { return filepath.Abs(dep) })','return deps, nil'))
m('12-pdeps2','C12',(P,'Deps(con.JoinPath(dir, pd.File), includes)','Deps(con.JoinPath(pd.File), includes)'))
m('12-glob','C12',(F,'	dir = con.JoinPath(dir)\n','	dir = con.JoinPath("")\n'))
m('12-glob2','C12',(F,'	if dir == "" {\n		dir = "."','	if !filepath.IsAbs(dir) {\n		dir = "."'))
m('12-glob3','C12',(F,'result = append(result, matches...)','for _, m := range matches {\n			result = append(result, filepath.Join(dir, m))\n		}'))
m('12-nested','C12',(D,'''		target, err := con.YAMLTarget(&d.Post, dir)''','''		target, err := con.YAMLTarget(&d.Post, "")'''))
m('12-files','C12',(F,'out, err := con.YAMLFileList(&yfiles.Out, dir)','out, err := con.YAMLStringList(&yfiles.Out, dir)'))
m('12-inplace','C12',(F,'''	out, err := con.YAMLFileList(&yfiles.Out, dir)
''','''	for i := range in {
		if len(in[i]) > 2 && in[i][:2] == "./" {
			in[i] = filepath.Base(in[i])
		}
	}

	out, err := con.YAMLFileList(&yfiles.Out, dir)
'''))
# --- C17
m('17-all','C17',('all.go','return All(targets...), nil\n}\n\nfunc init','return All(targets[:len(targets):len(targets)]...), nil\n}\n\nfunc init'),('all.go','''		target, err := con.YAMLTarget(n, dir)''','''		if idx > 0 && n.Value == node.Content[0].Value {
			n = node.Content[0]
		}
		target, err := con.YAMLTarget(n, dir)'''))
m('17-seq','C17',('seq.go','return Seq(targets...), nil\n}\n\nfunc init','return All(targets...), nil\n}\n\nfunc init'))
m('17-depsrest','C17',(D,'node.Content[1:], func','node.Content, func'))
m('17-depsmain','C17',(D,'con.YAMLTarget(node.Content[0], dir)','con.YAMLTarget(node.Content[len(node.Content)-1], dir)'))
m('17-pre','C17',(D,'`yaml:"Pre"`','`yaml:"pre"`'))
m('17-post','C17',(D,'''		depTargets, err := slices.Mapx(d.Pre, func(idx int, n yaml.Node) (Target, error) {
			target, err := con.YAMLTarget(&n, dir)''','''		depTargets, err := slices.Mapx(d.Pre, func(idx int, n yaml.Node) (Target, error) {
			target, err := con.YAMLTarget(&d.Pre[0], dir)'''))
m('17-args','C17',(A,'con.YAMLStringListFromNodes(node.Content[1:], dir)','con.YAMLStringListFromNodes(node.Content, dir)'))
m('17-args2','C17',(A,'con.YAMLStringListFromNodes(node.Content[1:], dir)','con.YAMLStringListFromNodes(node.Content[1:len(node.Content):len(node.Content)], dir)'),(A,'return ArgTarget(target, args...), nil\n}','if len(args) == 0 {\n		return target, nil\n	}\n	return ArgTarget(target, args...), nil\n}'))
m('17-auto','C17',(CL,'autoclean = yclean.Autoclean','autoclean = yclean.Autoclean && len(files) == 0'))
m('17-auto2','C17',(F,'return Files(target, in, out, Autoclean(yfiles.Autoclean)), nil','return Files(target, in, out), nil'))
m('17-auto3','C17',(P,'fab.Autoclean(p.Autoclean))','fab.Autoclean(p.Autoclean || len(outputs) > 0))'))
m('17-inout','C17',(F,'Files(target, in, out, Auto','Files(target, out, in, Auto'))
m('17-clear','C17',(CL,'`yaml:"Files"`','`yaml:"File"`'))
m('17-cmdargs','C17',(C,'		Args:  args,\n','		Args:  append(args, env...),\n'))
m('17-cmdenv','C17',(C,'env, err := con.YAMLStringList(&c.Env, dir)','env, err := con.YAMLStringList(&c.Args, dir)'))
m('17-stdout','C17',(C,'	case "$stderr":\n		result.Stdout = os.Stderr','	case "$stderr":\n		result.Stdout = os.Stdout'))
m('17-stderr','C17',(C,'result.StderrFn = maybeIndent(os.Stderr)','result.StderrFn = maybeIndent(os.Stdout)'))
m('17-verb','C17',(C,'result.StderrFn = maybeIndent(os.Stderr)','result.StderrFn = deferredIndent(os.Stderr)'))
m('17-verb2','C17',(C,'		if GetVerbose(ctx) {\n			return con.IndentingCopier(w','		if !GetVerbose(ctx) {\n			return con.IndentingCopier(w'))
m('17-disc','C17',(C,'	case "$discard":\n		result.Stderr = io.Discard\n','	case "$discard":\n		result.Stderr = nil\n'))
m('17-append','C17',(C,'env, idx > 0), nil','env, idx > 1), nil'))
m('17-append2','C17',(C,'env, idx > 0), nil','env, true), nil'))
m('17-append3','C17',(C,'	if forceAppend {\n		name = ">>"','	if forceAppend && strings.HasSuffix(name, ".log") {\n		name = ">>"'))
m('17-shell','C17',(C,'shell = c.Shell.Value','shell = strings.TrimSpace(c.Shell.Value)'))
m('17-shellseq','C17',(C,'return c.toTarget(con, str, dir, args, env, idx > 0), nil','if idx > 0 && str == strs[idx-1] {\n					str = strs[0]\n				}\n				return c.toTarget(con, str, dir, args, env, idx > 0), nil'))
m('17-flags','C17',(G,'con.JoinPath(dir, out), flags...)','con.JoinPath(dir, out))'),(G,'flags, err := con.YAML','_, err := con.YAML'))
m('17-rec','C17',(G,'gd.Recursive, gd.Tests)','gd.Tests, gd.Recursive)'))
m('17-rec2','C17',(G,'gd.Recursive, gd.Tests)','gd.Recursive, gd.Tests || gd.Recursive)'))
m('17-outdef','C17',(G,'defaultOutfile(con.JoinPath(dir, b.Dir))','defaultOutfile(filepath.Dir(con.JoinPath(dir, b.Dir)))'))
m('17-type','C17',(T,'d.Type, d.Prefix','d.Prefix, d.Type'))
m('17-opts','C17',(P,'includes, p.Opts, fab','includes, nil, fab'))
m('17-tag','C17',(P,'RegisterYAMLStringList("proto.Deps"','RegisterYAMLStringList("proto.Dep"'))
m('17-nodesval','C17',(Y,'result = append(result, node.Value)','result = append(result, strings.TrimSpace(node.Value))'))
m('17-nodesdrop','C17',(Y,'		result = append(result, strs...)','		if len(strs) > 0 {\n			result = strs\n		}'))
m('17-nodesempty','C17',(Y,'			result = append(result, node.Value)\n			continue','			if node.Value != "" {\n				result = append(result, node.Value)\n			}\n			continue'))
m('17-globdup','C17',(F,'result = append(result, matches...)','if len(matches) > 0 {\n			result = append(result, matches[0])\n		}'))
m('17-sort','C17',(C,'	if c.Cmd == "" {\n		strs','	sort.Strings(args)\n	if c.Cmd == "" {\n		strs'),(C,'import (\n','import (\n	"sort"\n'))
# --- C13
m('13-dup','C13',(Y,'	if len(doc.Content) != 1 {','	if len(doc.Content) == 0 {'))
m('13-kind','C13',(Y,'	if m.Kind != yaml.MappingNode {','	if m.Kind == yaml.ScalarNode {'))
m('13-name','C13',(Y,'if nameNode.Kind != yaml.ScalarNode {','if nameNode.Kind == yaml.SequenceNode {'))
m('13-dirkind','C13',(Y,'if decl.Kind != yaml.ScalarNode {','if decl.Kind == yaml.MappingNode {'))
m('13-dirval','C13',(Y,'if decl.Value != dir {','if decl.Value != "" && decl.Value != dir {'))
m('13-slash','C13',(Y,'if strings.Contains(name, "/") {','if strings.HasPrefix(name, "/") {'))
m('13-slash2','C13',(Y,'		if strings.Contains(name, "/") {\n			return fmt.Errorf("no slashes in target names")\n		}\n',''))
m('13-sawdir','C13',(Y,'	if dir != "" && !sawDirDecl {','	if dir != "" && !sawDirDecl && len(m.Content) > 2 {'))
m('13-sawdir2','C13',(Y,'	var sawDirDecl bool\n','	sawDirDecl := strings.HasPrefix(dir, "..")\n'))
m('13-regerr','C13',(Y,'		_, err = con.RegisterTarget(qname, doc, target)\n		if err != nil {','		_, err = con.RegisterTarget(qname, doc, target)\n		if err != nil && doc != "" {'))
m('13-terr','C13',(Y,'			return errors.Wrapf(err, "in YAML node for %s", name)\n','			var e BadYAMLNodeKindError\n			if errors.As(err, &e) {\n				continue\n			}\n			return errors.Wrapf(err, "in YAML node for %s", name)\n'))
m('13-tkind','C13',(Y,'	if node.Kind != yaml.ScalarNode {\n		return nil, fmt.Errorf("untyped YAML target node")','	if node.Kind == yaml.MappingNode {\n		return nil, fmt.Errorf("untyped YAML target node")'))
m('13-tunk','C13',(Y,'		if !ok {\n			return nil, fmt.Errorf("unknown YAML target type %s", tag)\n		}\n		return fn(con, node, dir)','		if ok {\n			return fn(con, node, dir)\n		}'))
m('13-tread','C13',(Y,'''			if err := con.ReadYAMLFile(tdir); err != nil {
				return''','''			if err := con.ReadYAMLFile(tdir); err != nil && !errors.Is(err, fs.ErrNotExist) {
				return'''),(Y,'			return nil, fmt.Errorf("cannot resolve target %s", qname)\n		}\n	}\n','		}\n	}\n'))
m('13-tnil','C13',(Y,'''			if found != nil {
				return found, nil
			}

			return nil, fmt''','''			if dir != "" {
				return found, nil
			}

			return nil, fmt'''))
m('13-skind','C13',(Y,'	if node.Kind != yaml.SequenceNode {\n		return nil, BadYAMLNodeKindError{Got: node.Kind, Want: yaml.SequenceNode}\n	}\n\n	return con.YAMLS','	if node.Kind == yaml.MappingNode {\n		return nil, BadYAMLNodeKindError{Got: node.Kind, Want: yaml.SequenceNode}\n	}\n\n	return con.YAMLS'))
m('13-sunk','C13',(Y,'''		fn, ok := yamlStringListRegistry.lookup(tag)
		if !ok {
			return nil, UnknownStringListTagError{Tag: tag}
		}

		strs''','''		fn, ok := yamlStringListRegistry.lookup(tag)
		if !ok {
			result = append(result, node.Value)
			continue
		}

		strs'''))
m('13-nkind','C13',(Y,'if tag == "" && node.Kind == yaml.ScalarNode {','if tag == "" && node.Kind != yaml.MappingNode {'))
m('13-nerr','C13',(Y,'		strs, err := fn(con, node, dir)\n		if err != nil {\n			return nil, err\n		}','		strs, err := fn(con, node, dir)\n		if err != nil {\n			break\n		}'))
m('13-all','C13',('all.go','	if node.Kind != yaml.SequenceNode {','	if node.Kind == yaml.ScalarNode {'))
m('13-decode','C13',(F,'	if err := node.Decode(&yfiles); err != nil {','	if err := node.Decode(&yfiles); err != nil && len(node.Content) > 0 {'))
m('13-shell','C13',(C,'		return nil, errors.Wrap(BadYAMLNodeKindError{Got: c.Shell.Kind, Want: yaml.ScalarNode}, "in Command.Shell node")','		shell = c.Shell.Value'))
m('13-mainerr','C13',('main.go','''	if err := con.ReadYAMLFile(""); err != nil && !errors.Is(err, fs.ErrNotExist) {''','''	if err := con.ReadYAMLFile(""); err != nil && !errors.Is(err, fs.ErrNotExist) && !m.List {'''))
m('13-notexist','C13',(Y,'''	if errors.Is(err, fs.ErrNotExist) {
		// Callers take this kind of error to mean that there is no YAML file in dir.
		err = errors.New(err.Error())
	}
''',''))
m('13-yml','C13',(Y,'''	f, err := os.Open(filename)
	if errors.Is(err, fs.ErrNotExist) {''','''	f, err := os.Open(filename)
	if err != nil {'''))
m('13-empty','C13',(Y,'	if err := dec.Decode(&doc); err != nil {\n','	if err := dec.Decode(&doc); err != nil {\n		if errors.Is(err, io.EOF) && dir == "" {\n			return nil\n		}\n'))
m('13-even','C13',(Y,'for i := 0; i < len(m.Content); i += 2 {','for i := 0; i < len(m.Content)-2; i += 2 {'))
# --- C14
m('14-nomark','C14',(Y,'			if reading {','			if reading && tdir == dir {'))
m('14-late','C14',(Y,'''	con.mu.Lock()
	con.reading[rel]++
	con.mu.Unlock()
	defer func() {
		con.mu.Lock()
		con.reading[rel]--
		con.mu.Unlock()
	}()

	err = con.ReadYAML(f, rel)
''','''	err = con.ReadYAML(f, rel)
	con.mu.Lock()
	con.reading[rel]++
	con.mu.Unlock()
	defer func() {
		con.mu.Lock()
		con.reading[rel]--
		con.mu.Unlock()
	}()
'''))
m('14-key','C14',(Y,'con.reading[rel]++','con.reading[dir]++'),(Y,'con.reading[rel]--','con.reading[dir]--'))
m('14-leak','C14',(Y,'''	defer func() {
		con.mu.Lock()
		con.reading[rel]--
		con.mu.Unlock()
	}()

	err = con.ReadYAML(f, rel)
''','''	err = con.ReadYAML(f, rel)
	if err == nil {
		con.mu.Lock()
		con.reading[rel]--
		con.mu.Unlock()
	}
'''))
m('14-early','C14',(Y,'	defer func() {\n		con.mu.Lock()\n		con.reading[rel]--\n		con.mu.Unlock()\n	}()\n','	con.mu.Lock()\n	con.reading[rel]--\n	con.mu.Unlock()\n'))
m('14-stale','C14',(Y,'reading := con.reading[tdir] > 0','reading := con.reading[dir] > 0'))
m('14-other','C14',(Y,'	target, _ := con.RegistryTarget(dt.Name)\n','	target, _ := con.RegistryTarget(dt.Name)\n'),(A,'	target, err := con.YAMLTarget(node.Content[0], dir)','	if dir != "" {\n		_ = con.ReadYAMLFile(dir)\n	}\n	target, err := con.YAMLTarget(node.Content[0], dir)'))
m('14-one','C14',(Y,'reading := con.reading[tdir] > 0','reading := con.reading[tdir] > 1'))
# --- C36
m('36-name','C36',(Y,'qname := filepath.Join(dir, name)','qname := filepath.Join(filepath.Base(dir), name)'))
m('36-doc','C36',(Y,'doc = nameNode.LineComment','doc = nameNode.FootComment'))
m('36-doc2','C36',(Y,'doc = strings.TrimLeft(doc, "# ")','doc = strings.TrimPrefix(doc, "#!")'))
m('36-doc3','C36',(Y,'doc  = nameNode.HeadComment','doc  = m.HeadComment'))
m('36-ref','C36',(Y,'qname = con.JoinPath(dir, qname)','qname = con.JoinPath(qname)'))
m('36-noslash','C36',(Y,'if strings.Contains(qname, "/") {','if dir != "" {'))
m('36-noslash2','C36',(Y,'	// TODO: try to resolve now?\n','	if dir != "" {\n		qname = dir + "/" + node.Value\n	}\n'))
m('36-defer','C36',(Y,'return &deferredResolutionTarget{Name: qname}, nil\n			}','return &deferredResolutionTarget{Name: node.Value}, nil\n			}'))
m('36-late','C36',(Y,'			if err := con.ReadYAMLFile(tdir); err != nil {','			if con.reading[dir] > 0 {\n				return &deferredResolutionTarget{Name: qname}, nil\n			}\n			if err := con.ReadYAMLFile(tdir); err != nil {'))
m('36-base','C36',(Y,'			found, _ = con.RegistryTarget(qname)','			found, _ = con.RegistryTarget(filepath.Base(qname))'))
m('36-dir','C36',(Y,'con.ReadYAMLFile(tdir)','con.ReadYAMLFile(filepath.Dir(node.Value))'))
m('36-pair','C36',(Y,'_, err = con.RegisterTarget(qname, doc, target)','if dt, ok := target.(*deferredResolutionTarget); !ok || dt.Name != qname {\n			_, err = con.RegisterTarget(qname, doc, target)\n		}'))
m('36-resolve','C36',(Y,'target, _ := con.RegistryTarget(dt.Name)','target, _ := con.RegistryTarget(filepath.Clean(dt.Name))'))
m('36-step','C36',(Y,'i += 2 {','i += 2 + 2*(i%4/2) {'))
# --- refactorings
m('ok-range','',(Y,'''	return slices.Map(strs, func(s string) string { return con.JoinPath(dir, s) }), nil
}

// YAMLFileListFromNodes''','''	var result []string
	for _, s := range strs {
		result = append(result, con.JoinPath(dir, s))
	}
	return result, nil
}

// YAMLFileListFromNodes'''))
m('ok-make','',(Y,'''	return slices.Map(strs, func(s string) string { return con.JoinPath(dir, s) }), nil
}

func normalizeTag''','''	result := make([]string, len(strs))
	for i, s := range strs {
		result[i] = con.JoinPath(dir, s)
	}
	return result, nil
}

func normalizeTag'''))
m('ok-inplace','',(Y,'''	return slices.Map(strs, func(s string) string { return con.JoinPath(dir, s) }), nil
}

func normalizeTag''','''	result := make([]string, 0, len(strs))
	for i := 0; i < len(strs); i++ {
		result = append(result, con.JoinPath(dir, strs[i]))
	}
	return result, nil
}

func normalizeTag'''))
m('ok-norm','',(Y,'''	if strings.HasPrefix(tag, "!!") {
		return ""
	}
	return strings.TrimPrefix(tag, "!")''','''	switch {
	case strings.HasPrefix(tag, "!!"):
		return ""
	case strings.HasPrefix(tag, "!"):
		return tag[1:]
	}
	return tag'''))
m('ok-openswitch','',(C,'''	switch c.Stdin {
	case "$stdin":
		result.Stdin = os.Stdin

	case "":
		// do nothing

	default:
		result.StdinFile = con.JoinPath(dir, c.Stdin)
	}
''','''	if c.Stdin == "$stdin" {
		result.Stdin = os.Stdin
	} else if c.Stdin != "" {
		result.StdinFile = con.JoinPath(dir, c.Stdin)
	}
'''))
m('ok-helper','',(C,'''	switch c.Stdout {
	case "$stdout":
		result.Stdout = os.Stdout

	case "$stderr":
		result.Stdout = os.Stderr // who am I to judge

	case "$discard":
		result.Stdout = io.Discard

	case "$indent":
		result.StdoutFn = deferredIndent(os.Stdout)

	case "$verbose":
		result.StdoutFn = maybeIndent(os.Stdout)

	case "":
		// do nothing

	default:
		result.StdoutFile = outputFile(con, c.Stdout, dir, forceAppend)
	}
''','''	result.Stdout, result.StdoutFn, result.StdoutFile = dest(con, c.Stdout, dir, os.Stdout, forceAppend)
'''),(C,'''// Resolves the name of an output file''','''func dest(con *Controller, name, dir string, w io.Writer, forceAppend bool) (io.Writer, func(context.Context, *Controller) io.Writer, string) {
	switch name {
	case "":
		return nil, nil, ""
	case "$stdout":
		return os.Stdout, nil, ""
	case "$stderr":
		return os.Stderr, nil, ""
	case "$discard":
		return io.Discard, nil, ""
	case "$indent":
		return nil, deferredIndent(w), ""
	case "$verbose":
		return nil, maybeIndent(w), ""
	}
	return nil, nil, outputFile(con, name, dir, forceAppend)
}

// Resolves the name of an output file'''))
m('ok-cut','',(C,'''	if strings.HasPrefix(name, ">>") {
		name = strings.TrimLeft(name, "> ")
		forceAppend = true
	}
	name = con.JoinPath(dir, name)
	if forceAppend {
		name = ">>" + name
	}
	return name''','''	prefix := ""
	if strings.HasPrefix(name, ">>") || forceAppend {
		prefix = ">>"
	}
	if strings.HasPrefix(name, ">>") {
		name = strings.TrimLeft(name, "> ")
	}
	return prefix + con.JoinPath(dir, name)'''))
m('ok-all','',('all.go','''	targets, err := slices.Mapx(node.Content, func(idx int, n *yaml.Node) (Target, error) {
		target, err := con.YAMLTarget(n, dir)
		return target, errors.Wrapf(err, "child %d", idx)
	})
	if err != nil {
		return nil, errors.Wrap(err, "YAML error decoding All")
	}
''','''	var targets []Target
	for idx, n := range node.Content {
		target, err := con.YAMLTarget(n, dir)
		if err != nil {
			return nil, errors.Wrapf(err, "YAML error decoding All: child %d", idx)
		}
		targets = append(targets, target)
	}
'''),('all.go','	"github.com/bobg/go-generics/v2/slices"\n',''))
m('ok-deps','',(D,'''		depTargets, err := slices.Mapx(d.Pre, func(idx int, n yaml.Node) (Target, error) {
			target, err := con.YAMLTarget(&n, dir)
			return target, errors.Wrapf(err, "deptarget %d", idx)
		})
		if err != nil {
			return nil, errors.Wrap(err, "YAML error in a Deps Pre target")
		}
''','''		depTargets := make([]Target, 0, len(d.Pre))
		for i := range d.Pre {
			dep, err := con.YAMLTarget(&d.Pre[i], dir)
			if err != nil {
				return nil, errors.Wrapf(err, "YAML error in a Deps Pre target %d", i)
			}
			depTargets = append(depTargets, dep)
		}
'''))
m('ok-clean','',(CL,'''	return &Clean{Files: files, Autoclean: autoclean}, nil
}

func init''','''	c := new(Clean)
	c.Files = files
	c.Autoclean = autoclean
	return c, nil
}

func init'''))
m('ok-entry','',(Y,'''		targetNode := m.Content[i+1]
		target, err := con.YAMLTarget(targetNode, dir)
		if err != nil {
			return errors.Wrapf(err, "in YAML node for %s", name)
		}

		// The following was previously inside a "if target is not a deferredResolutionTarget" block,
		// but I think that was wrong.
		// Or maybe I'm wrong now...

		qname := filepath.Join(dir, name)

		_, err = con.RegisterTarget(qname, doc, target)
		if err != nil {
			return errors.Wrapf(err, "registering target %s", qname)
		}
''','''		if err := con.readEntry(name, doc, dir, m.Content[i+1]); err != nil {
			return err
		}
'''),(Y,'// ReadYAMLFile calls','''func (con *Controller) readEntry(name, doc, dir string, node *yaml.Node) error {
	target, err := con.YAMLTarget(node, dir)
	if err != nil {
		return errors.Wrapf(err, "in YAML node for %s", name)
	}
	qname := filepath.Join(dir, name)
	_, err = con.RegisterTarget(qname, doc, target)
	return errors.Wrapf(err, "registering target %s", qname)
}

// ReadYAMLFile calls'''))
m('ok-while','',(Y,'for i := 0; i < len(m.Content); i += 2 {\n		nameNode := m.Content[i]','for k := 0; k < len(m.Content)/2; k++ {\n		i := 2 * k\n		nameNode := m.Content[i]'))
m('ok-mark','',(Y,'''	con.mu.Lock()
	con.reading[rel]++
	con.mu.Unlock()
	defer func() {
		con.mu.Lock()
		con.reading[rel]--
		con.mu.Unlock()
	}()
''','''	con.mark(rel, 1)
	defer con.mark(rel, -1)
'''),(Y,'// ReadYAMLFile calls','''func (con *Controller) mark(dir string, n int) {
	con.mu.Lock()
	defer con.mu.Unlock()
	con.reading[dir] += n
}

// ReadYAMLFile calls'''))
m('ok-ref','',(Y,'''	qname := node.Value
	if strings.Contains(qname, "/") {
''','''	qname := node.Value
	if !strings.Contains(qname, "/") {
		return &deferredResolutionTarget{Name: qname}, nil
	}
	{
'''))
m('ok-refhelper','',(Y,'''			con.mu.Lock()
			reading := con.reading[tdir] > 0
			con.mu.Unlock()
			if reading {''','''			if con.isReading(tdir) {'''),(Y,'// ReadYAMLFile calls','''func (con *Controller) isReading(dir string) bool {
	con.mu.Lock()
	defer con.mu.Unlock()
	n := con.reading[dir]
	return n != 0
}

// ReadYAMLFile calls'''))
m('ok-doc','',(Y,'''			doc  = nameNode.HeadComment
		)
		if doc == "" {
			doc = nameNode.LineComment
		}
		doc = strings.TrimLeft(doc, "# ")
''','''			doc  = docOf(nameNode)
		)
'''),(Y,'// ReadYAMLFile calls','''func docOf(node *yaml.Node) string {
	if node.HeadComment != "" {
		return strings.TrimLeft(node.HeadComment, "# ")
	}
	return strings.TrimLeft(node.LineComment, "# ")
}

// ReadYAMLFile calls'''))
m('ok-globjoin','',(F,'''	dir = con.JoinPath(dir)
	if dir == "" {
		dir = "."
	}
	fsys := os.DirFS(dir)
''','''	fsys := os.DirFS(globDir(con, dir))
'''),(F,'func globDecoder','''func globDir(con *Controller, dir string) string {
	if abs := con.JoinPath(dir); abs != "" {
		return abs
	}
	return "."
}

func globDecoder'''))
m('ok-pdeps','',(P,'''	return slices.Mapx(deps, func(_ int, dep string) (string, error) { return filepath.Abs(dep) })''','''	var result []string
	for _, dep := range deps {
		abs, err := filepath.Abs(dep)
		if err != nil {
			return nil, err
		}
		result = append(result, abs)
	}
	return result, nil'''))
m('ok-binout','',(G,'''	out := b.Out
	if out == "" {
		var err error
		if out, err = defaultOutfile(con.JoinPath(dir, b.Dir)); err != nil {
			return nil, err
		}
	}
''',''),(G,'''	return Binary(con.JoinPath(dir, b.Dir), con.JoinPath(dir, out), flags...)''','''	binDir := con.JoinPath(dir, b.Dir)
	if b.Out == "" {
		out, err := defaultOutfile(binDir)
		if err != nil {
			return nil, err
		}
		return Binary(binDir, con.JoinPath(dir, out), flags...)
	}
	return Binary(binDir, con.JoinPath(dir, b.Out), flags...)'''))
m('17-outdot','C17',(G,'''		var err error
		if out, err = defaultOutfile(con.JoinPath(dir, b.Dir)); err != nil {
			return nil, err
		}
''','''		out = filepath.Base(b.Dir)
'''))
m('ok-openyaml','',(Y,'''	filename := filepath.Join(dir, "fab.yaml")
	f, err := os.Open(filename)
	if errors.Is(err, fs.ErrNotExist) {
		filename = filepath.Join(dir, "fab.yml")
		f, err = os.Open(filename)
	}
	return f, err''','''	f, err := os.Open(filepath.Join(dir, "fab.yaml"))
	if err == nil || !errors.Is(err, fs.ErrNotExist) {
		return f, err
	}
	return os.Open(filepath.Join(dir, "fab.yml"))'''))
m('ok-globnest','',(F,'result = append(result, matches...)','for _, m := range matches {\n\t\t\tresult = append(result, m)\n\t\t}'))
m('12-globskip','C17',(F,'result = append(result, matches...)','for _, m := range matches {\n\t\t\tif m != "fab.yaml" {\n\t\t\t\tresult = append(result, m)\n\t\t\t}\n\t\t}'))
m('ok-globif','',(F,'result = append(result, matches...)','if len(matches) == 0 {\n\t\t\tcontinue\n\t\t}\n\t\tresult = append(result, matches...)'))
