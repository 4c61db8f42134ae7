M=[]
def m(name, *edits): M.append((name, '', list(edits)))
# seq / all
m('r-seq-idx',('seq.go','''	for _, t := range s.Targets {
		if err := con.Run(ctx, t); err != nil {
			return err
		}
	}
	return nil
''','''	for i := 0; i < len(s.Targets); i++ {
		err := con.Run(ctx, s.Targets[i])
		if err != nil {
			return err
		}
	}
	return nil
'''))
m('r-seq-rec',('seq.go','''	for _, t := range s.Targets {
		if err := con.Run(ctx, t); err != nil {
			return err
		}
	}
	return nil
''','''	return runInOrder(ctx, con, s.Targets)
'''),('seq.go','''func (*seq) Desc()''','''func runInOrder(ctx context.Context, con *Controller, targets []Target) error {
	for _, t := range targets {
		if err := con.Run(ctx, t); err != nil {
			return err
		}
	}
	return nil
}

func (*seq) Desc()'''))
m('r-seqdec',('seq.go','''	targets, err := slices.Mapx(node.Content, func(idx int, n *yaml.Node) (Target, error) {
		target, err := con.YAMLTarget(n, dir)
		if err != nil {
			return nil, errors.Wrapf(err, "child %d", idx)
		}
		return target, nil
	})
	if err != nil {
		return nil, errors.Wrap(err, "YAML error in Seq node")
	}
	return Seq(targets...), nil
''','''	var targets []Target
	for idx, n := range node.Content {
		target, err := con.YAMLTarget(n, dir)
		if err != nil {
			err = errors.Wrapf(err, "child %d", idx)
			return nil, errors.Wrap(err, "YAML error in Seq node")
		}
		targets = append(targets, target)
	}
	return Seq(targets...), nil
'''),('seq.go','	"github.com/bobg/go-generics/v2/slices"\n',''))
m('r-alldec',('all.go','''	targets, err := slices.Mapx(node.Content, func(idx int, n *yaml.Node) (Target, error) {
		target, err := con.YAMLTarget(n, dir)
		return target, errors.Wrapf(err, "child %d", idx)
	})
	if err != nil {
		return nil, errors.Wrap(err, "YAML error decoding All")
	}
''','''	targets := make([]Target, len(node.Content))
	for idx, n := range node.Content {
		target, err := con.YAMLTarget(n, dir)
		if err != nil {
			return nil, errors.Wrap(errors.Wrapf(err, "child %d", idx), "YAML error decoding All")
		}
		targets[idx] = target
	}
'''),('all.go','	"github.com/bobg/go-generics/v2/slices"\n',''))
m('r-alldec2',('all.go','''	targets, err := slices.Mapx(node.Content, func(idx int, n *yaml.Node) (Target, error) {
		target, err := con.YAMLTarget(n, dir)
		return target, errors.Wrapf(err, "child %d", idx)
	})
	if err != nil {
		return nil, errors.Wrap(err, "YAML error decoding All")
	}
''','''	targets, err := con.yamlTargets(node.Content, dir)
	if err != nil {
		return nil, errors.Wrap(err, "YAML error decoding All")
	}
'''),('all.go','''func init() {''','''// yamlTargets parses each of the given nodes as a target.
func (con *Controller) yamlTargets(nodes []*yaml.Node, dir string) ([]Target, error) {
	return slices.Mapx(nodes, func(idx int, n *yaml.Node) (Target, error) {
		target, err := con.YAMLTarget(n, dir)
		return target, errors.Wrapf(err, "child %d", idx)
	})
}

func init() {'''))
m('r-shared-dec',('all.go','''	targets, err := slices.Mapx(node.Content, func(idx int, n *yaml.Node) (Target, error) {
		target, err := con.YAMLTarget(n, dir)
		return target, errors.Wrapf(err, "child %d", idx)
	})
	if err != nil {
		return nil, errors.Wrap(err, "YAML error decoding All")
	}
''','''	targets, err := con.yamlTargets(node.Content, dir)
	if err != nil {
		return nil, errors.Wrap(err, "YAML error decoding All")
	}
'''),('all.go','''func init() {''','''// yamlTargets parses each of the given nodes as a target.
func (con *Controller) yamlTargets(nodes []*yaml.Node, dir string) ([]Target, error) {
	return slices.Mapx(nodes, func(idx int, n *yaml.Node) (Target, error) {
		target, err := con.YAMLTarget(n, dir)
		return target, errors.Wrapf(err, "child %d", idx)
	})
}

func init() {'''),('seq.go','''	targets, err := slices.Mapx(node.Content, func(idx int, n *yaml.Node) (Target, error) {
		target, err := con.YAMLTarget(n, dir)
		if err != nil {
			return nil, errors.Wrapf(err, "child %d", idx)
		}
		return target, nil
	})
''','''	targets, err := con.yamlTargets(node.Content, dir)
'''),('seq.go','	"github.com/bobg/go-generics/v2/slices"\n',''),('deps.go','''		depTargets, err := slices.Mapx(node.Content[1:], func(idx int, n *yaml.Node) (Target, error) {
			target, err := con.YAMLTarget(n, dir)
			return target, errors.Wrapf(err, "deptarget %d", idx)
		})
''','''		depTargets, err := con.yamlTargets(node.Content[1:], dir)
'''))
# clean
m('r-clean-split',('clean.go','''	files := append([]string(nil), c.Files...) // a copy, since it gets sorted below
	if c.Autoclean {
		autocleanMu.Lock()
		autocleanFiles := autocleanRegistry.Slice()
		files = append(files, autocleanFiles...)
		autocleanMu.Unlock()
	}
	sort.Strings(files)
''','''	files := c.files()
'''),('clean.go','''func (*Clean) Desc()''','''func (c *Clean) files() []string {
	var files []string
	files = append(files, c.Files...)
	if c.Autoclean {
		autocleanMu.Lock()
		defer autocleanMu.Unlock()
		files = append(files, autocleanRegistry.Slice()...)
	}
	sort.Strings(files)
	return files
}

func (*Clean) Desc()'''))
m('r-clean-err',('clean.go','''		err := os.Remove(f)
		if errors.Is(err, fs.ErrNotExist) {
			continue
		}
		if err != nil {
			return errors.Wrapf(err, "removing %s", f)
		}
''','''		if err := os.Remove(f); err != nil && !errors.Is(err, fs.ErrNotExist) {
			return errors.Wrapf(err, "removing %s", f)
		}
'''))
m('r-clean-osnot',('clean.go','''		err := os.Remove(f)
		if errors.Is(err, fs.ErrNotExist) {
			continue
		}
		if err != nil {
			return errors.Wrapf(err, "removing %s", f)
		}
''','''		switch err := os.Remove(f); {
		case err == nil, errors.Is(err, fs.ErrNotExist):
			// ok
		default:
			return errors.Wrapf(err, "removing %s", f)
		}
'''))
m('r-clean-dry',('clean.go','''	if GetDryRun(ctx) {
		if GetVerbose(ctx) {
			con.Indentf("  would remove %v", files)
		}
		return nil
	}
	if GetVerbose(ctx) {
		con.Indentf("  removing %v", files)
	}
''','''	dryrun, verbose := GetDryRun(ctx), GetVerbose(ctx)
	if verbose {
		msg := "removing"
		if dryrun {
			msg = "would remove"
		}
		con.Indentf("  %s %v", msg, files)
	}
	if dryrun {
		return nil
	}
'''))
m('r-clean-dec',('clean.go','''	var (
		files     []string
		autoclean bool
		err       error
	)

	switch node.Kind {
	case yaml.MappingNode:
		var yclean struct {
			Files     yaml.Node `yaml:"Files"`
			Autoclean bool      `yaml:"Autoclean"`
		}
		if err = node.Decode(&yclean); err != nil {
			return nil, errors.Wrap(err, "YAML error in Clean node")
		}
		files, err = con.YAMLFileList(&yclean.Files, dir)
		if err != nil {
			return nil, errors.Wrap(err, "YAML error in Clean.Files node")
		}
		autoclean = yclean.Autoclean

	case yaml.SequenceNode:
		files, err = con.YAMLFileListFromNodes(node.Content, dir)
		if err != nil {
			return nil, errors.Wrap(err, "YAML error in Clean node children")
		}

	default:
		return nil, BadYAMLNodeKindError{Got: node.Kind, Want: yaml.MappingNode | yaml.SequenceNode}
	}

	return &Clean{Files: files, Autoclean: autoclean}, nil
''','''	if node.Kind == yaml.SequenceNode {
		files, err := con.YAMLFileListFromNodes(node.Content, dir)
		if err != nil {
			return nil, errors.Wrap(err, "YAML error in Clean node children")
		}
		return &Clean{Files: files}, nil
	}
	if node.Kind != yaml.MappingNode {
		return nil, BadYAMLNodeKindError{Got: node.Kind, Want: yaml.MappingNode | yaml.SequenceNode}
	}

	var yclean struct {
		Files     yaml.Node `yaml:"Files"`
		Autoclean bool      `yaml:"Autoclean"`
	}
	if err := node.Decode(&yclean); err != nil {
		return nil, errors.Wrap(err, "YAML error in Clean node")
	}
	result := &Clean{Autoclean: yclean.Autoclean}
	var err error
	if result.Files, err = con.YAMLFileList(&yclean.Files, dir); err != nil {
		return nil, errors.Wrap(err, "YAML error in Clean.Files node")
	}
	return result, nil
'''))
# files
m('r-files-uptodate',('files.go','''	if db != nil && !GetForce(ctx) && !GetDryRun(ctx) {
		h, err := ft.computeHash(con)
		if err != nil {
			return errors.Wrap(err, "computing hash before running subtarget")
		}
		has, err := db.Has(ctx, h)
		if err != nil {
			return errors.Wrap(err, "checking hash db")
		}
		if has {
			if GetVerbose(ctx) {
				con.Indentf("%s is up to date", con.Describe(ft))
			}
			return nil
		}
	}
''','''	uptodate, err := ft.upToDate(ctx, con, db)
	if err != nil {
		return err
	}
	if uptodate {
		if GetVerbose(ctx) {
			con.Indentf("%s is up to date", con.Describe(ft))
		}
		return nil
	}
'''),('files.go','''func (*files) Desc()''','''func (ft *files) upToDate(ctx context.Context, con *Controller, db HashDB) (bool, error) {
	if db == nil || GetForce(ctx) || GetDryRun(ctx) {
		return false, nil
	}
	h, err := ft.computeHash(con)
	if err != nil {
		return false, errors.Wrap(err, "computing hash before running subtarget")
	}
	has, err := db.Has(ctx, h)
	return has, errors.Wrap(err, "checking hash db")
}

func (*files) Desc()'''))
m('r-files-record',('files.go','''	if db == nil || GetDryRun(ctx) {
		return nil
	}

	h, err := ft.computeHash(con)
	if err != nil {
		return errors.Wrap(err, "computing hash after running subtarget")
	}
	err = db.Add(ctx, h)
	return errors.Wrap(err, "adding hash to db")
''','''	if db != nil && !GetDryRun(ctx) {
		h, err := ft.computeHash(con)
		if err != nil {
			return errors.Wrap(err, "computing hash after running subtarget")
		}
		if err := db.Add(ctx, h); err != nil {
			return errors.Wrap(err, "adding hash to db")
		}
	}
	return nil
'''))
m('r-files-hashpairs',('files.go','''	keys := maps.Keys(hashes)
	sort.Strings(keys)

	result := make([]string, 0, 2*len(keys))
	for _, key := range keys {
		result = append(result, key, hashes[key])
	}

	return result, nil
''','''	keys := make([]string, 0, len(hashes))
	for key := range hashes {
		keys = append(keys, key)
	}
	sort.Strings(keys)

	var result []string
	for _, key := range keys {
		result = append(result, key)
		result = append(result, hashes[key])
	}

	return result, nil
'''),('files.go','	"github.com/bobg/go-generics/v2/maps"\n',''))
m('r-files-item',('files.go','''	if info.IsDir() {
		entries, err := os.ReadDir(item)
		if err != nil {
			return errors.Wrapf(err, "reading directory %s", item)
		}
		subitems := slices.Map(entries, func(s os.DirEntry) string { return filepath.Join(item, s.Name()) })
		return fileHashesHelper(subitems, hashes)
	}

	h, err := hashFile(item)
	if err != nil {
		return errors.Wrapf(err, "hashing file %s", item)
	}
	hashes[item] = h

	return nil
''','''	if !info.IsDir() {
		h, err := hashFile(item)
		if err != nil {
			return errors.Wrapf(err, "hashing file %s", item)
		}
		hashes[item] = h
		return nil
	}

	entries, err := os.ReadDir(item)
	if err != nil {
		return errors.Wrapf(err, "reading directory %s", item)
	}
	for _, entry := range entries {
		if err := fileHashesItemHelper(filepath.Join(item, entry.Name()), hashes); err != nil {
			return err
		}
	}
	return nil
'''),('files.go','	"github.com/bobg/go-generics/v2/slices"\n',''))
m('r-files-prereq',('files.go','''	var prereqs []Target

	for _, in := range ft.In {
		// A target that updates one of its own inputs must not wait for itself.
		if target := findInFilesRegistry(in); target != nil && target != ft {
			prereqs = append(prereqs, target)
		}
	}

	if len(prereqs) == 0 {
		return nil
	}
	return con.Run(ctx, prereqs...)
''','''	prereqs := make([]Target, 0, len(ft.In))

	for _, in := range ft.In {
		target := findInFilesRegistry(in)
		if target == nil || target == Target(ft) {
			continue
		}
		prereqs = append(prereqs, target)
	}

	return con.Run(ctx, prereqs...)
'''))
m('r-files-find',('files.go','''	for {
		if target, ok := filesRegistry.lookup(name); ok {
			return target
		}

		dir := filepath.Dir(name)
		switch dir {
		case "", ".", "/", name:
			return nil
		}
		name = dir
	}
''','''	target, ok := filesRegistry.lookup(name)
	for !ok {
		dir := filepath.Dir(name)
		if dir == "" || dir == "." || dir == "/" || dir == name {
			return nil
		}
		name = dir
		target, ok = filesRegistry.lookup(name)
	}
	return target
'''))
m('r-files-findrec',('files.go','''	for {
		if target, ok := filesRegistry.lookup(name); ok {
			return target
		}

		dir := filepath.Dir(name)
		switch dir {
		case "", ".", "/", name:
			return nil
		}
		name = dir
	}
''','''	if target, ok := filesRegistry.lookup(name); ok {
		return target
	}
	switch dir := filepath.Dir(name); dir {
	case "", ".", "/", name:
		return nil
	default:
		return findInFilesRegistry(dir)
	}
'''))
m('r-files-hashfile',('files.go','''	f, err := os.Open(path)
	if err != nil {
		return "", errors.Wrapf(err, "opening %s", path)
	}
	defer f.Close()
	hasher := sha256.New224()
	_, err = io.Copy(hasher, f)
	if err != nil {
		return "", errors.Wrapf(err, "hashing %s", path)
	}
	h := hasher.Sum(nil)
	return hex.EncodeToString(h), nil
''','''	data, err := os.ReadFile(path)
	if err != nil {
		return "", errors.Wrapf(err, "reading %s", path)
	}
	h := sha256.Sum224(data)
	return hex.EncodeToString(h[:]), nil
'''),('files.go','	"io"\n',''))
m('r-files-autoclean',('files.go','''		autocleanMu.Lock()
		for _, file := range f.Out {
			autocleanRegistry.Add(file)
		}
		autocleanMu.Unlock()
''','''		autocleanMu.Lock()
		defer autocleanMu.Unlock()
		autocleanRegistry.Add(f.Out...)
'''))
m('r-files-autoclean2',('files.go','''	return func(f *files) {
		if !autoclean {
			return
		}
		autocleanMu.Lock()
''','''	if !autoclean {
		return func(*files) {}
	}
	return func(f *files) {
		autocleanMu.Lock()
'''))
m('r-files-new',('files.go','''	for _, opt := range opts {
		opt(result)
	}

	for _, o := range out {
		filesRegistry.add(o, result)
	}
''','''	for _, o := range out {
		filesRegistry.add(o, result)
	}

	for _, opt := range opts {
		opt(result)
	}
'''))
m('r-files-marshal',('files.go','''	inHashes, err := fileHashes(ft.In)
	if err != nil {
		return nil, errors.Wrapf(err, "computing input hash(es) for %s", con.Describe(ft))
	}
	outHashes, err := fileHashes(ft.Out)
	if err != nil {
		return nil, errors.Wrapf(err, "computing output hash(es) for %s", con.Describe(ft))
	}
	// References by name must be resolved before encoding,
	// so that the hash is the same before and after running the subtarget,
	// and so that it reflects the definitions of the targets referred to.
	if err := resolveReferences(con, ft.Target, nil); err != nil {
		return nil, errors.Wrapf(err, "resolving subtarget of %s", con.Describe(ft))
	}
''','''	if err := resolveReferences(con, ft.Target, nil); err != nil {
		return nil, errors.Wrapf(err, "resolving subtarget of %s", con.Describe(ft))
	}
	outHashes, err := fileHashes(ft.Out)
	if err != nil {
		return nil, errors.Wrapf(err, "computing output hash(es) for %s", con.Describe(ft))
	}
	inHashes, err := fileHashes(ft.In)
	if err != nil {
		return nil, errors.Wrapf(err, "computing input hash(es) for %s", con.Describe(ft))
	}
'''))
m('r-files-resolve',('files.go','''	for _, subtarget := range subtargets {
		if err := resolveReferences(con, subtarget, parents); err != nil {
			return err
		}
	}

	return nil
}

func (ft *files) runPre''','''	var err error
	for i := 0; i < len(subtargets) && err == nil; i++ {
		err = resolveReferences(con, subtargets[i], parents)
	}
	return err
}

func (ft *files) runPre'''))
m('r-files-decoder',('files.go','''	in, err := con.YAMLFileList(&yfiles.In, dir)
	if err != nil {
		return nil, errors.Wrap(err, "YAML error in Files.In node")
	}

	out, err := con.YAMLFileList(&yfiles.Out, dir)
	if err != nil {
		return nil, errors.Wrap(err, "YAML error in Files.Out node")
	}
''','''	list := func(n *yaml.Node, name string) ([]string, error) {
		strs, err := con.YAMLFileList(n, dir)
		return strs, errors.Wrapf(err, "YAML error in Files.%s node", name)
	}
	in, err := list(&yfiles.In, "In")
	if err != nil {
		return nil, err
	}
	out, err := list(&yfiles.Out, "Out")
	if err != nil {
		return nil, err
	}
'''))
# runner
m('r-run-func',('runner.go','''		wg.Add(1)
		go func() {
			defer wg.Done()

			con.mu.Lock()
			o, ok := con.ran[addr]
			if !ok {
				o = &outcome{g: newGate(false), target: target}
				con.ran[addr] = o
			}
			con.mu.Unlock()

			if ok {
				// This target was launched in a different goroutine.
				// Wait for it to produce a result.
				o.g.wait()
				errs[i] = o.err
			} else {
				// This target was not previously launched,
				// so run it and then open its "outcome gate."
				if verbose {
					con.Indentf("Running %s", con.Describe(target))
				}
				err := target.Run(ctx, con)
				if err != nil {
					err = errors.Wrapf(err, "running %s", con.Describe(target))
				}
				errs[i] = err
				o.err = err
				o.g.set(true)
			}
		}()
''','''		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[i] = con.runOne(ctx, addr, target, verbose)
		}()
'''),('runner.go','''// Indentf formats''','''func (con *Controller) runOne(ctx context.Context, addr targetID, target Target, verbose bool) error {
	o, mine := con.claim(addr, target)
	if !mine {
		o.g.wait()
		return o.err
	}
	if verbose {
		con.Indentf("Running %s", con.Describe(target))
	}
	if err := target.Run(ctx, con); err != nil {
		o.err = errors.Wrapf(err, "running %s", con.Describe(target))
	}
	o.g.set(true)
	return o.err
}

func (con *Controller) claim(addr targetID, target Target) (*outcome, bool) {
	con.mu.Lock()
	defer con.mu.Unlock()
	if o, ok := con.ran[addr]; ok {
		return o, false
	}
	o := &outcome{g: newGate(false), target: target}
	con.ran[addr] = o
	return o, true
}

// Indentf formats'''))
m('r-run-resolve',('runner.go','''		if d, ok := target.(*deferredResolutionTarget); ok {
			// Short-circuit here to avoid some confusing extra output in verbose mode.
			// This must precede the call to targetAddr below:
			// the identity that counts is that of the resolved target.
			var err error
			target, err = d.resolve(con)
			if err != nil {
				errs[i] = err
				continue
			}
		}

		addr, err := targetAddr(target)
		if err != nil {
			errs[i] = err
			continue
		}
''','''		target, addr, err := con.identify(target)
		if err != nil {
			errs[i] = err
			continue
		}
'''),('runner.go','''// Indentf formats''','''func (con *Controller) identify(target Target) (Target, targetID, error) {
	if d, ok := target.(*deferredResolutionTarget); ok {
		resolved, err := d.resolve(con)
		if err != nil {
			return nil, targetID{}, err
		}
		target = resolved
	}
	addr, err := targetAddr(target)
	return target, addr, err
}

// Indentf formats'''))
m('r-run-depth',('runner.go','''	con.incDepth()
	defer con.decDepth()
''','''	con.incDepth()
	defer func() { con.decDepth() }()
'''))
m('r-run-mutex-defer',('runner.go','''	con.mu.Lock()
	con.depth++
	con.mu.Unlock()
''','''	con.mu.Lock()
	defer con.mu.Unlock()
	con.depth++
'''))
m('r-run-max',('runner.go','''	con.depth--
	if con.depth < 0 {
		con.depth = 0
	}
''','''	if con.depth > 0 {
		con.depth--
	}
'''))
m('r-run-depthhelper',('runner.go','''	con.mu.Lock()
	depth := con.depth
	con.mu.Unlock()

	if depth''','''	depth := con.getDepth()
	if depth'''),('runner.go','''	con.mu.Lock()
	depth := con.depth
	con.mu.Unlock()

	return &ind''','''	depth := con.getDepth()
	return &ind'''),('runner.go','''// Indentf formats''','''func (con *Controller) getDepth() int {
	con.mu.Lock()
	defer con.mu.Unlock()
	return con.depth
}

// Indentf formats'''))
m('r-gate-if',('gate.go','''	wasOpen := g.open
	g.open = open
	if open && !wasOpen {
		g.c.Broadcast()
	}
	g.c.L.Unlock()
''','''	defer g.c.L.Unlock()
	if open {
		g.c.Broadcast()
	}
	g.open = open
'''))
m('r-gate-mu',('gate.go','''	c    *sync.Cond
	open bool
''','''	mu   sync.Mutex
	c    *sync.Cond
	open bool
'''),('gate.go','''	return &gate{
		c:    sync.NewCond(new(sync.Mutex)),
		open: open,
	}
''','''	g := &gate{open: open}
	g.c = sync.NewCond(&g.mu)
	return g
'''),('gate.go','''func (g *gate) set(open bool) {
	g.c.L.Lock()''','''func (g *gate) set(open bool) {
	g.mu.Lock()'''),('gate.go','''		g.c.Broadcast()
	}
	g.c.L.Unlock()''','''		g.c.Broadcast()
	}
	g.mu.Unlock()'''))
# registry
m('r-registry-defer',('registry.go','''	r.mu.Lock()
	val, ok := r.items[name]
	r.mu.Unlock()
	return val, ok
''','''	r.mu.Lock()
	defer r.mu.Unlock()
	val, ok := r.items[name]
	return val, ok
'''))
m('r-registry-rw',('registry.go','''	mu    sync.Mutex
''','''	mu    sync.RWMutex
'''),('registry.go','''	r.mu.Lock()
	val, ok := r.items[name]
	r.mu.Unlock()
''','''	r.mu.RLock()
	val, ok := r.items[name]
	r.mu.RUnlock()
'''))
m('r-describe',('register.go','''	addr, err := targetAddr(target)
	if err == nil { // sic
		con.mu.Lock()
		tuple, ok := con.targetsByAddr[addr]
		con.mu.Unlock()
		if ok {
			return tuple.name
		}
	}

	return "unnamed " + target.Desc()
''','''	if name, ok := con.registeredName(target); ok {
		return name
	}
	return fmt.Sprintf("unnamed %s", target.Desc())
'''),('register.go','''// Describe describes''','''func (con *Controller) registeredName(target Target) (string, bool) {
	addr, err := targetAddr(target)
	if err != nil {
		return "", false
	}
	con.mu.Lock()
	defer con.mu.Unlock()
	tuple, ok := con.targetsByAddr[addr]
	return tuple.name, ok
}

// Describe describes'''))
m('r-names',('register.go','''	con.mu.Lock()
	keys := maps.Keys(con.targetsByName)
	con.mu.Unlock()
	sort.Strings(keys)
	return keys
''','''	con.mu.Lock()
	defer con.mu.Unlock()
	var names []string
	for name := range con.targetsByName {
		names = append(names, name)
	}
	sort.Strings(names)
	return names
'''),('register.go','''
	"github.com/bobg/go-generics/v2/maps"
''',''))
m('r-regtarget',('register.go','''	addr, err := targetAddr(target)
	if err != nil {
		return nil, err
	}

	tuple := targetRegistryTuple{target: target, name: name, doc: doc}

	con.mu.Lock()
	con.targetsByName[name] = tuple
	con.targetsByAddr[addr] = tuple
	con.mu.Unlock()
''','''	addr, err := targetAddr(target)
	if err != nil {
		return nil, err
	}

	con.mu.Lock()
	defer con.mu.Unlock()

	con.targetsByAddr[addr] = targetRegistryTuple{target: target, name: name, doc: doc}
	con.targetsByName[name] = con.targetsByAddr[addr]
'''))
# command
C='command.go'
m('r-cmd-argv',(C,'''	var (
		cmdname = c.Cmd
		args    = c.Args
	)
	if cmdname == "" {
		if cmdname = os.Getenv("SHELL"); cmdname == "" {
			cmdname = "/bin/sh"
		}
		args = []string{"-c", c.Shell}
	}

	cmd :=''','''	cmdname, args := c.argv()
	cmd :='''),(C,'''// Desc implements Target.Desc.
func (*Command)''','''func (c *Command) argv() (string, []string) {
	if c.Cmd != "" {
		return c.Cmd, c.Args
	}
	shell := os.Getenv("SHELL")
	if shell == "" {
		shell = "/bin/sh"
	}
	return shell, []string{"-c", c.Shell}
}

// Desc implements Target.Desc.
func (*Command)'''))
m('r-cmd-open',(C,'''		if stdoutAppend {
			f, openErr := os.OpenFile(stdoutFile, os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0644)
			if openErr != nil {
				return errors.Wrapf(openErr, "opening %s for appending", stdoutFile)
			}
			defer func() {
				closeErr := f.Close()
				if err == nil {
					err = errors.Wrapf(closeErr, "closing stdout file %s", stdoutFile)
				}
			}()
			cmd.Stdout = f
		} else {
			f, openErr := os.Create(stdoutFile)
			if openErr != nil {
				return errors.Wrapf(openErr, "opening %s for writing", stdoutFile)
			}
			defer func() {
				closeErr := f.Close()
				if err == nil {
					err = errors.Wrapf(closeErr, "closing stdout file %s", stdoutFile)
				}
			}()
			cmd.Stdout = f
		}
''','''		f, openErr := openOutput(stdoutFile, stdoutAppend)
		if openErr != nil {
			return openErr
		}
		defer func() {
			closeErr := f.Close()
			if err == nil {
				err = errors.Wrapf(closeErr, "closing stdout file %s", stdoutFile)
			}
		}()
		cmd.Stdout = f
'''),(C,'''		case stderrAppend:
			f, openErr := os.OpenFile(stderrFile, os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0644)
			if openErr != nil {
				return errors.Wrapf(openErr, "opening %s for appending", stderrFile)
			}
			defer func() {
				closeErr := f.Close()
				if err == nil {
					err = errors.Wrapf(closeErr, "closing stderr file %s", stderrFile)
				}
			}()
			cmd.Stderr = f

		default:
			f, openErr := os.Create(stderrFile)
			if openErr != nil {
				return errors.Wrapf(openErr, "opening %s for writing", stderrFile)
			}
''','''		default:
			f, openErr := openOutput(stderrFile, stderrAppend)
			if openErr != nil {
				return openErr
			}
'''),(C,'''// Desc implements Target.Desc.
func (*Command)''','''func openOutput(name string, add bool) (*os.File, error) {
	flags, what := os.O_RDWR|os.O_CREATE|os.O_TRUNC, "writing"
	if add {
		flags, what = os.O_WRONLY|os.O_APPEND|os.O_CREATE, "appending"
	}
	f, err := os.OpenFile(name, flags, 0666)
	return f, errors.Wrapf(err, "opening %s for %s", name, what)
}

// Desc implements Target.Desc.
func (*Command)'''))
m('r-cmd-closer',(C,'''			if closer, ok := w.(io.Closer); ok {
				defer func() {
					closeErr := closer.Close()
					if err == nil {
						err = errors.Wrap(closeErr, "closing stdout")
					}
				}()
			}
''','''			defer closeIfCloser(w, "stdout", &err)
'''),(C,'''			if closer, ok := w.(io.Closer); ok {
				defer func() {
					closeErr := closer.Close()
					if err == nil {
						err = errors.Wrap(closeErr, "closing stderr")
					}
				}()
			}
''','''			defer closeIfCloser(w, "stderr", &err)
'''),(C,'''// Desc implements Target.Desc.
func (*Command)''','''func closeIfCloser(w io.Writer, what string, err *error) {
	closer, ok := w.(io.Closer)
	if !ok {
		return
	}
	if closeErr := closer.Close(); *err == nil {
		*err = errors.Wrapf(closeErr, "closing %s", what)
	}
}

// Desc implements Target.Desc.
func (*Command)'''))
m('r-cmd-default',(C,'''	if GetVerbose(ctx) {
		if cmd.Stdout == nil {
			cmd.Stdout = con.IndentingCopier(os.Stdout, "    ")
		}
		if cmd.Stderr == nil {
			cmd.Stderr = con.IndentingCopier(os.Stderr, "    ")
		}
		con.Indentf("  Running command %s", cmd)
	} else {
		if cmd.Stdout == nil {
			cmd.Stdout = &buf
		}
		if cmd.Stderr == nil {
			cmd.Stderr = &buf
		}
	}
''','''	verbose := GetVerbose(ctx)
	if cmd.Stdout == nil {
		if verbose {
			cmd.Stdout = con.IndentingCopier(os.Stdout, "    ")
		} else {
			cmd.Stdout = &buf
		}
	}
	if cmd.Stderr == nil {
		if verbose {
			cmd.Stderr = con.IndentingCopier(os.Stderr, "    ")
		} else {
			cmd.Stderr = &buf
		}
	}
	if verbose {
		con.Indentf("  Running command %s", cmd)
	}
'''))
m('r-cmd-run',(C,'''	err = cmd.Run()
	if err != nil && buf.Len() > 0 {
		err = CommandErr{
			Err:    err,
			Output: buf.Bytes(),
		}
	}
	return err
''','''	if err = cmd.Run(); err == nil {
		return nil
	}
	if output := buf.Bytes(); len(output) > 0 {
		return CommandErr{Err: err, Output: output}
	}
	return err
'''))
m('r-cmd-startwait',(C,'''	err = cmd.Run()
	if err != nil && buf''','''	if err = cmd.Start(); err == nil {
		err = cmd.Wait()
	}
	if err != nil && buf'''))
m('r-cmd-stdin',(C,'''	cmd.Stdin = c.Stdin
	if c.StdinFile != "" {
		f, err := os.Open(c.StdinFile)
		if err != nil {
			return errors.Wrapf(err, "opening %s", c.StdinFile)
		}
		defer f.Close()
		cmd.Stdin = f
	}
''','''	if c.StdinFile == "" {
		cmd.Stdin = c.Stdin
	} else {
		in, err := os.Open(c.StdinFile)
		if err != nil {
			return errors.Wrapf(err, "opening %s", c.StdinFile)
		}
		defer in.Close()
		cmd.Stdin = in
	}
'''))
m('r-cmd-append',(C,'''	var (
		stdoutFile   = c.StdoutFile
		stderrFile   = c.StderrFile
		stdoutAppend = strings.HasPrefix(stdoutFile, ">>")
		stderrAppend = strings.HasPrefix(stderrFile, ">>")
	)

	if stdoutAppend {
		stdoutFile = strings.TrimLeft(stdoutFile, "> ")
	}
	if stderrAppend {
		stderrFile = strings.TrimLeft(stderrFile, "> ")
	}
''','''	stdoutFile, stdoutAppend := parseAppend(c.StdoutFile)
	stderrFile, stderrAppend := parseAppend(c.StderrFile)
'''),(C,'''// Desc implements Target.Desc.
func (*Command)''','''func parseAppend(name string) (string, bool) {
	if !strings.HasPrefix(name, ">>") {
		return name, false
	}
	return strings.TrimLeft(name, "> "), true
}

// Desc implements Target.Desc.
func (*Command)'''))
