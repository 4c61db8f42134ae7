M=[]
def m(name, prop, *eds): M.append((name, prop, list(eds)))
A,S,D,G,F,FI,C,Y='all.go','seq.go','deps.go','argtarg.go','f.go','files.go','clean.go','yaml.go'
m('04-all-first','C04',(A,'return con.Run(ctx, a.Targets...)','if len(a.Targets) == 1 {\n\t\treturn con.Run(ctx, a.Targets[0])\n\t}\n\treturn con.Run(ctx, a.Targets[1:]...)'))
m('04-all-seq','C04',(A,'	return con.Run(ctx, a.Targets...)','''	for _, t := range a.Targets {
		if err := con.Run(ctx, t); err != nil {
			return err
		}
	}
	return nil'''))
m('04-seq-go-on','C04',(S,'			return err\n','			if len(s.Targets) > 2 {\n\t\t\t\tcontinue\n\t\t\t}\n			return err\n'))
m('04-seq-rev','C04',(S,'for _, t := range s.Targets {','for i := len(s.Targets) - 1; i >= 0; i-- {\n\t\tt := s.Targets[i]'))
m('04-seq-all','C04',(S,'''	for _, t := range s.Targets {
		if err := con.Run(ctx, t); err != nil {
			return err
		}
	}
	return nil''','return con.Run(ctx, s.Targets...)'))
m('04-seq-skipnil','C04',(S,'		if err := con','		if t.Desc() == "All" {\n\t\t\tcontinue\n\t\t}\n		if err := con'))
m('04-deps-order','C04',(D,'return Seq(All(depTargets...), target)','return Seq(target, All(depTargets...))'))
m('04-deps-one','C04',(D,'return Seq(All(depTargets...), target)','if len(depTargets) == 1 {\n\t\treturn All(depTargets[0], target)\n\t}\n\treturn Seq(All(depTargets...), target)'))
m('04-arg-empty','C04',(G,'	ctx = WithArgs(ctx, a.Args...)','	if len(a.Args) > 0 {\n\t\tctx = WithArgs(ctx, a.Args...)\n\t}'))
m('04-arg-append','C04',(G,'WithArgs(ctx, a.Args...)','WithArgs(ctx, append(GetArgs(ctx), a.Args...)...)'))
m('04-arg-bg','C04',(G,'WithArgs(ctx, a.Args...)','WithArgs(context.Background(), a.Args...)'))
m('04-ref-nil','C04',(Y,'	target, err := dt.resolve(con)\n	if err != nil {\n		return err\n	}\n','	target, err := dt.resolve(con)\n	if err != nil {\n		return nil\n	}\n'))
m('04-ref-base','C04',(Y,'target, _ := con.RegistryTarget(dt.Name)\n','target, _ := con.RegistryTarget(filepath.Base(dt.Name))\n'))
m('04-f-swallow','C04',(F,'return f.f(ctx, con)','err := f.f(ctx, con)\n\tif ctx.Err() != nil {\n\t\treturn nil\n\t}\n\treturn err'))
m('04-all-dry','C04',(A,'return con.Run(ctx, a','if GetForce(ctx) {\n\t\tctx = WithForce(ctx, false)\n\t}\n\treturn con.Run(ctx, a'))
m('09-cmd','C09',('command.go','if GetDryRun(ctx) {','if GetDryRun(ctx) && GetVerbose(ctx) {'))
m('09-clean','C09',(C,'if GetDryRun(ctx) {','if GetDryRun(ctx) && !c.Autoclean {'))
m('09-files-has','C09',(FI,'if db != nil && !GetForce(ctx) && !GetDryRun(ctx) {','if db != nil && !GetForce(ctx) {'))
m('09-files-add','C09',(FI,'	if db == nil || GetDryRun(ctx) {','	if db == nil || GetDryRun(ctx) && GetForce(ctx) {'))
m('09-files-nosub','C09',(FI,'	if err := con.Run(ctx, ft.Target); err != nil {','	if GetDryRun(ctx) && db == nil {\n\t\treturn nil\n\t}\n	if err := con.Run(ctx, ft.Target); err != nil {'))
m('09-seq-wet','C09',(S,'		if err := con.Run(ctx, t)','		ctx := ctx\n		if _, ok := t.(*all); ok {\n\t\t\tctx = WithDryRun(ctx, false)\n\t\t}\n		if err := con.Run(ctx, t)'))
m('09-cmd-mkdir','C09',('command.go','	if GetDryRun(ctx) {','	if c.Dir != "" {\n\t\tif err := os.MkdirAll(c.Dir, 0755); err != nil {\n\t\t\treturn err\n\t\t}\n\t}\n	if GetDryRun(ctx) {'))
m('20-alias','C20',(C,'append([]string(nil), c.Files...) // a copy, since it gets sorted below','c.Files'))
m('20-stop','C20',(C,'			continue\n','			return nil\n'))
m('20-ignore','C20',(C,'		if err != nil {\n			return errors.Wrapf(err, "removing %s", f)','		if err != nil && !c.Autoclean {\n			return errors.Wrapf(err, "removing %s", f)'))
m('20-opt','C20',(C,'	if c.Autoclean {\n','	if c.Autoclean || len(files) == 0 {\n'))
m('20-dup','C20',(C,'	sort.Strings(files)\n','	sort.Strings(files)\n	if len(files) > 1 {\n\t\tfiles = files[1:]\n\t}\n'))
m('20-all','C20',(C,'os.Remove(f)','os.RemoveAll(f)'))
m('20-only','C20',(C,'files = append(files, autocleanFiles...)','files = autocleanFiles'))
m('20-reg-in','C20',(FI,'range f.Out {\n			autoclean','range f.In {\n			autoclean'))
m('20-reg-neg','C20',(FI,'		if !autoclean {\n			return\n		}\n','		if !autoclean && len(f.Out) > 1 {\n			return\n		}\n'))
m('20-reg-one','C20',(FI,'			autocleanRegistry.Add(file)\n','			if file != "" {\n				autocleanRegistry.Add(file)\n			}\n'))
m('20-opt-before','C20',(FI,'		Out:    out,\n	}\n\n	for _, opt := range opts {\n		opt(result)\n	}\n','	}\n\n	for _, opt := range opts {\n		opt(result)\n	}\n	result.Out = out\n'))
m('20-reg-files','C20',(FI,'		filesRegistry.add(o, result)\n','		filesRegistry.add(o, result)\n		if len(in) == 0 {\n\t\t\tautocleanMu.Lock()\n\t\t\tautocleanRegistry.Add(o)\n\t\t\tautocleanMu.Unlock()\n\t\t}\n'))
# refactorings
m('r-seq-index','',(S,'''	for _, t := range s.Targets {
		if err := con.Run(ctx, t); err != nil {
			return err
		}
	}
	return nil''','''	for i := 0; i < len(s.Targets); i++ {
		err := s.one(ctx, con, i)
		if err != nil {
			return err
		}
	}
	return nil'''),(S,'func (*seq) Desc','''func (s *seq) one(ctx context.Context, con *Controller, i int) error {
	return con.Run(ctx, s.Targets[i])
}

func (*seq) Desc'''))
m('r-seq-err','',(S,'''		if err := con.Run(ctx, t); err != nil {
			return err
		}
	}
	return nil''','''		err = con.Run(ctx, t)
		if err != nil {
			break
		}
	}
	return err'''),(S,'	for _, t := range','	var err error\n	for _, t := range'))
m('r-all-copy','',(A,'	return con.Run(ctx, a.Targets...)','''	targets := make([]Target, 0, len(a.Targets))
	for _, t := range a.Targets {
		targets = append(targets, t)
	}
	if err := con.Run(ctx, targets...); err != nil {
		return err
	}
	return nil'''))
m('r-deps-var','',(D,'return Seq(All(depTargets...), target)','pre := All(depTargets...)\n\tparts := []Target{pre, target}\n\treturn Seq(parts...)'))
m('r-arg-inl','',(G,'	ctx = WithArgs(ctx, a.Args...)\n	return con.Run(ctx, a.Target)','	args := a.Args\n	return con.Run(WithArgs(ctx, args...), a.Target)'))
m('r-clean-loops','',(C,'''	for _, f := range files {
		err := os.Remove(f)
		if errors.Is(err, fs.ErrNotExist) {
			continue
		}
		if err != nil {
			return errors.Wrapf(err, "removing %s", f)
		}
	}
	return nil
}
''','''	for i := range files {
		if err := removeOne(files[i]); err != nil {
			return err
		}
	}
	return nil
}

func removeOne(f string) error {
	if err := os.Remove(f); err != nil && !errors.Is(err, fs.ErrNotExist) {
		return errors.Wrapf(err, "removing %s", f)
	}
	return nil
}
'''))
m('r-clean-list','',(C,'''	files := append([]string(nil), c.Files...) // a copy, since it gets sorted below
	if c.Autoclean {
		autocleanMu.Lock()
		autocleanFiles := autocleanRegistry.Slice()
		files = append(files, autocleanFiles...)
		autocleanMu.Unlock()
	}
	sort.Strings(files)
''','''	files := c.list()
'''),(C,'''// Desc implements''','''func (c *Clean) list() []string {
	files := make([]string, len(c.Files))
	copy(files, c.Files)
	if c.Autoclean {
		autocleanMu.Lock()
		defer autocleanMu.Unlock()
		for f := range autocleanRegistry {
			files = append(files, f)
		}
	}
	sort.Strings(files)
	return files
}

// Desc implements'''))
m('r-auto','',(FI,'''		if !autoclean {
			return
		}
		autocleanMu.Lock()
		for _, file := range f.Out {
			autocleanRegistry.Add(file)
		}
		autocleanMu.Unlock()
''','''		if autoclean {
			autocleanMu.Lock()
			defer autocleanMu.Unlock()
			autocleanRegistry.Add(f.Out...)
		}
'''))
