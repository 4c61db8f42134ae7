M=[]
def m(name, prop, *edits): M.append((name, prop, list(edits)))
G='golang/go.go'
P='proto/proto.go'
T='ts/tsdecls.go'
m('b-rel','C35',(G,'''	absOutfile, err := filepath.Abs(outfile)''','''	absOutfile, err := filepath.Rel(dir, outfile)'''))
m('b-out','C35',(G,'absOutfile, err :=','_, err :='),(G,'"-o", absOutfile','"-o", outfile'))
m('b-outbase','C35',(G,'"-o", absOutfile','"-o", filepath.Base(absOutfile)'))
m('b-noC','C35',(G,'"build", "-C", dir, "-o"','"build", "-o"'))
m('b-flags-lost','C35',(G,'absOutfile}, flags...)','absOutfile})'),(G,'	args = append(args, ".")','	_ = flags\n	args = append(args, ".")'))
m('b-flags1','C35',(G,'absOutfile}, flags...)','absOutfile}, flags[:min(1, len(flags))]...)')) if False else None
m('b-flags-after','C35',(G,'absOutfile}, flags...)\n	args = append(args, ".")','absOutfile}, ".")\n	args = append(args, flags...)'))
m('b-nodot','C35',(G,'	args = append(args, ".")\n',''))
m('b-dots','C35',(G,'	args = append(args, ".")\n','	args = append(args, "./...")\n'))
m('b-autoclean','C35',(G,'fab.Autoclean(true)','fab.Autoclean(len(flags) == 0)'))
m('b-noautoclean','C35',(G,', fab.Autoclean(true))',')'))
m('b-deps-dir','C35',(G,'Deps(dir, false, false)','Deps(filepath.Dir(outfile), false, false)'))
m('b-deps-rec','',(G,'Deps(dir, false, false)','Deps(dir, true, false)'))
m('b-deps-err','C35',(G,'''	if err != nil {
		return nil, errors.Wrapf(err, "computing dependencies")
	}
''',''))
m('b-deps-none','C35',(G,'fab.Files(c, deps,','fab.Files(c, nil,'),(G,'	deps, err := Deps','	_, err = Deps'))
m('b-outabs-base','C35',(G,'[]string{outfile}, fab.Auto','[]string{filepath.Base(outfile)}, fab.Auto'))
m('b-default','C35',(G,'	return filepath.Base(abs), nil','	return filepath.Base(filepath.Dir(abs)), nil'))
m('b-default-dot','C35',(G,'''		var err error
		if outfile, err = defaultOutfile(dir); err != nil {
			return nil, err
		}
''','''		outfile = filepath.Base(dir)
'''))
m('b-nodefault','C35',(G,'''	if outfile == "" {
		var err error
		if outfile, err = defaultOutfile(dir); err != nil {
			return nil, err
		}
	}
''',''))
m('b-shell','C35',(G,'''		Cmd:  "go",
''','''		Cmd:  "go",
		StdoutFile: outfile + ".log",
'''))
m('b-install','C35',(G,'"build", "-C"','"install", "-C"'))
m('b-must','C35',(G,'''	if err != nil {
		panic(err)
	}
	return target''','''	if target == nil {
		panic(err)
	}
	return target'''))
m('b-mustflags','C35',(G,'target, err := Binary(dir, outfile, flags...)','target, err := Binary(dir, outfile)'))
# ts
m('t-out','C35',(T,'[]string{outfile}, opts','[]string{dir + "/" + outfile}, opts'))
m('t-opts','C35',(T,'[]string{outfile}, opts...)','[]string{outfile})'))
m('t-deps','C35',(T,'golang.Deps(dir, false, false)','golang.Deps(".", false, false)'))
m('t-swap','C35',(T,'''		Typename: typename,
		Prefix:   prefix,''','''		Typename: prefix,
		Prefix:   typename,'''))
m('t-write-swap','C35',(T,'tsdecls.Write(f, t.Dir, t.Typename, t.Prefix)','tsdecls.Write(f, t.Dir, t.Prefix, t.Typename)'))
m('t-file','C35',(T,'os.Create(t.Outfile)','os.Create(t.Outfile + ".tmp")'))
m('t-append','C35',(T,'os.Create(t.Outfile)','os.OpenFile(t.Outfile, os.O_WRONLY|os.O_CREATE, 0644)'))
m('t-close','C35',(T,'	return f.Close()\n','	return nil\n'))
m('t-exists','C35',(T,'''	f, err := os.Create''','''	if _, err := os.Stat(t.Outfile); err == nil {
		return nil
	}
	f, err := os.Create'''))
m('t-werr','C35',(T,'''		return errors.Wrapf(err, "generating %s", t.Outfile)
''','''		err = errors.Wrapf(err, "generating %s", t.Outfile)
'''))
# proto
m('p-inc','C35',(P,'return "-I" + inc','return "-I=" + inc'))
m('p-noopts','C35',(P,'	args = append(args, otherOpts...)\n','	if len(otherOpts) > 1 {\n		args = append(args, otherOpts...)\n	}\n'))
m('p-noinputs','C35',(P,'	args = append(args, inputs...)\n','	args = append(args, inputs[0])\n'))
m('p-alldeps','C35',(P,'	args = append(args, inputs...)\n','	args = append(args, alldepsSlice...)\n'))
m('p-inc1','C35',(P,'slices.Map(includes, func','slices.Map(includes[:1], func'))
m('p-deps-err','C35',(P,'''		if err != nil {
			return nil, errors.Wrapf(err, "computing dependencies for %s", inp)
		}
''','''		if err != nil {
			continue
		}
'''))
m('p-deps-first','C35',(P,'''		alldeps.Add(d...)
''','''		alldeps.Add(d...)
		break
'''))
m('p-deps-noadd','C35',(P,'''		alldeps.Add(d...)
''','''		if len(d) > 1 {
			alldeps.Add(d[1:]...)
		}
'''))
m('p-deps-inc','C35',(P,'Deps(inp, includes)','Deps(inp, includes[:1])'))
m('p-deps-nil','C35',(P,'Deps(inp, includes)','Deps(inp, nil)'))
m('p-onlyinputs','C35',(P,'alldepsSlice, outputs, filesOpts...','inputs, outputs, filesOpts...'))
m('p-out','C35',(P,'alldepsSlice, outputs, filesOpts...','alldepsSlice, outputs[:1], filesOpts...'))
m('p-fopts','C35',(P,'alldepsSlice, outputs, filesOpts...','alldepsSlice, outputs'))
m('p-prog','C35',(P,'Cmd: "protoc"','Cmd: "buf"'))
m('p-shortinc','C35',(P,'func(inc string) string { return "-I" + inc }','func(inc string) string { return "-I" + filepath.Dir(inc) }'))
m('p-deps-skip','C35',(P,'''		d, err := Deps(inp, includes)''','''		if alldeps.Len() > len(inputs) {
			continue
		}
		d, err := Deps(inp, includes)'''))
# quiet
m('ok-b-args','',(G,'''	args := append([]string{"build", "-C", dir, "-o", absOutfile}, flags...)
	args = append(args, ".")
''','''	args := []string{"build", "-C", dir}
	args = append(args, flags...)
	args = append(args, "-o", absOutfile, ".")
'''))
m('ok-b-dir','',(G,'"build", "-C", dir, "-o"','"build", "-o"'),(G,'''		Args: args,
''','''		Args: args,
		Dir:  dir,
'''))
m('ok-b-absall','',(G,'[]string{outfile}, fab.Auto','[]string{absOutfile}, fab.Auto'))
m('ok-b-new','',(G,'''	c := &fab.Command{
		Cmd:  "go",
		Args: args,
	}
	return fab.Files(c,''','''	var c fab.Command
	c.Cmd = "go"
	c.Args = args
	return fab.Files(&c,'''))
m('ok-b-order','',(G,'''	deps, err := Deps(dir, false, false)
	if err != nil {
		return nil, errors.Wrapf(err, "computing dependencies")
	}
''',''),(G,'''	// A path relative to dir would''','''	deps, err := Deps(dir, false, false)
	if err != nil {
		return nil, errors.Wrapf(err, "computing dependencies")
	}

	// A path relative to dir would'''))
m('ok-t-inline','',(T,'''	subtarget := &declsType{
		Dir:      dir,
		Typename: typename,
		Prefix:   prefix,
		Outfile:  outfile,
	}

	return fab.Files(subtarget, gopkg,''','''	t := new(declsType)
	t.Dir, t.Typename, t.Prefix, t.Outfile = dir, typename, prefix, outfile
	return fab.Files(t, gopkg,'''))
m('ok-t-close','',(T,'''	return f.Close()
''','''	if err = f.Close(); err != nil {
		return errors.Wrapf(err, "closing %s", t.Outfile)
	}
	return nil
'''))
m('ok-p-loop','',(P,'''	args := slices.Map(includes, func(inc string) string { return "-I" + inc })
''','''	var args []string
	for _, inc := range includes {
		args = append(args, "-I"+inc)
	}
'''))
m('ok-p-order','',(P,'''	args := slices.Map(includes, func(inc string) string { return "-I" + inc })
	args = append(args, otherOpts...)
''','''	args := append([]string{}, otherOpts...)
	for _, inc := range includes {
		args = append(args, "-I"+inc)
	}
'''))
m('ok-p-list','',(P,'''	alldepsSlice := alldeps.Slice()
	sort.Strings(alldepsSlice)
''',''),(P,'''	alldeps := set.New[string](inputs...)
''','''	var alldepsSlice []string
'''),(P,'''		alldeps.Add(d...)
''','''		alldepsSlice = append(alldepsSlice, d...)
'''))
m('ok-p-noinit','',(P,'set.New[string](inputs...)','set.New[string]()'))
m('ok-p-index','',(P,'''	for _, inp := range inputs {
		d,''','''	for i := range inputs {
		inp := inputs[i]
		d,'''))
m('ok-p-addloop','',(P,'''		alldeps.Add(d...)
''','''		for _, dep := range d {
			alldeps.Add(dep)
		}
'''))
m('ok-p-protopath','',(P,'return "-I" + inc','return "--proto_path=" + inc'))
m('ok-p-helper','',(P,'''	args := slices.Map(includes, func(inc string) string { return "-I" + inc })
	args = append(args, otherOpts...)
	args = append(args, inputs...)
	return fab.Files(&fab.Command{Cmd: "protoc", Args: args},''','''	return fab.Files(&fab.Command{Cmd: "protoc", Args: protocArgs(inputs, includes, otherOpts)},'''),(P,'''func protoDecoder(''','''func protocArgs(inputs, includes, otherOpts []string) []string {
	args := make([]string, 0, len(includes)+len(otherOpts)+len(inputs))
	for _, inc := range includes {
		args = append(args, "-I"+inc)
	}
	args = append(args, otherOpts...)
	return append(args, inputs...)
}

func protoDecoder('''),(P,'"github.com/bobg/go-generics/v2/slices"','"github.com/bobg/go-generics/v2/slices"'))
