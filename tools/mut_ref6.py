# A sixth set of refactorings that keep the behaviour: larger reorganisations of whole functions.
M = []
def m(name, *edits): M.append((name, '', list(edits)))
R, CO, K, N, FI, Y, CL, T, RG, CX = 'runner.go','command.go','compile.go','main.go','files.go','yaml.go','clean.go','types.go','register.go','context.go'
CT, DH, SQ, DP, GO, PR, DB, TS, TP, GA, CM, DT, RY, AT, AL = 'controller.go','dirhash.go','seq.go','deps.go','golang/go.go','proto/proto.go','sqlite/db.go','ts/tsdecls.go','top.go','gate.go','cmd/fab/main.go','driver.go.tmpl','registry.go','argtarg.go','all.go'

LOOP = '''	for i, target := range targets {
		i, target := i, target // Go loop-var pitfall

		if d, ok := target.(*deferredResolutionTarget); ok {
			// Short-circuit here to avoid some confusing extra output in verbose mode.
			// This must precede the call to targetAddr below:
			// the identity that counts is that of the resolved target.
			var err error
			target, err = d.resolve(con)
			if err != nil {
				errs[i] = err
				continue
			}
		}

		addr, err := targetAddr(target)
		if err != nil {
			errs[i] = err
			continue
		}

		wg.Add(1)
		go func() {
			defer wg.Done()

			con.mu.Lock()
			o, ok := con.ran[addr]
			if !ok {
				o = &outcome{g: newGate(false), target: target}
				con.ran[addr] = o
			}
			con.mu.Unlock()

			if ok {
				// This target was launched in a different goroutine.
				// Wait for it to produce a result.
				o.g.wait()
				errs[i] = o.err
			} else {
				// This target was not previously launched,
				// so run it and then open its "outcome gate."
				if verbose {
					con.Indentf("Running %s", con.Describe(target))
				}
				err := target.Run(ctx, con)
				if err != nil {
					err = errors.Wrapf(err, "running %s", con.Describe(target))
				}
				errs[i] = err
				o.err = err
				o.g.set(true)
			}
		}()
	}
'''
# the whole body of a goroutine returns an error
m('runner-runone', (R, LOOP, '''	for i, target := range targets {
		wg.Add(1)
		go func(i int, target Target) {
			defer wg.Done()
			errs[i] = con.runOne(ctx, target, verbose)
		}(i, target)
	}
'''), (R, '''// Indentf formats and''', '''func (con *Controller) runOne(ctx context.Context, target Target, verbose bool) error {
	if d, ok := target.(*deferredResolutionTarget); ok {
		resolved, err := d.resolve(con)
		if err != nil {
			return err
		}
		target = resolved
	}
	addr, err := targetAddr(target)
	if err != nil {
		return err
	}
	o, first := con.claim(addr, target)
	if !first {
		o.g.wait()
		return o.err
	}
	defer o.g.set(true)
	if verbose {
		con.Indentf("Running %s", con.Describe(target))
	}
	if err := target.Run(ctx, con); err != nil {
		o.err = errors.Wrapf(err, "running %s", con.Describe(target))
	}
	return o.err
}

func (con *Controller) claim(addr targetID, target Target) (*outcome, bool) {
	con.mu.Lock()
	defer con.mu.Unlock()
	if o, ok := con.ran[addr]; ok {
		return o, false
	}
	o := &outcome{g: newGate(false), target: target}
	con.ran[addr] = o
	return o, true
}

// Indentf formats and'''))
# two passes
m('runner-two-pass', (R, LOOP, '''	type job struct {
		idx    int
		target Target
		addr   targetID
	}
	var jobs []job
	for i, target := range targets {
		if d, ok := target.(*deferredResolutionTarget); ok {
			if target, errs[i] = d.resolve(con); errs[i] != nil {
				continue
			}
		}
		addr, err := targetAddr(target)
		if err != nil {
			errs[i] = err
			continue
		}
		jobs = append(jobs, job{idx: i, target: target, addr: addr})
	}

	wg.Add(len(jobs))
	for _, j := range jobs {
		j := j
		go func() {
			defer wg.Done()
			con.mu.Lock()
			o, ok := con.ran[j.addr]
			if !ok {
				o = &outcome{g: newGate(false), target: j.target}
				con.ran[j.addr] = o
			}
			con.mu.Unlock()
			if ok {
				o.g.wait()
			} else {
				if verbose {
					con.Indentf("Running %s", con.Describe(j.target))
				}
				if o.err = j.target.Run(ctx, con); o.err != nil {
					o.err = errors.Wrapf(o.err, "running %s", con.Describe(j.target))
				}
				o.g.set(true)
			}
			errs[j.idx] = o.err
		}()
	}
'''))
# no separate slice of errors: a mutex
m('runner-mutex-errs', (R, LOOP, '''	var errmu sync.Mutex
	fail := func(i int, err error) {
		errmu.Lock()
		defer errmu.Unlock()
		errs[i] = err
	}
''' + LOOP.replace('errs[i] = err\n', 'fail(i, err)\n').replace('errs[i] = o.err', 'fail(i, o.err)')))
m('runner-chan-result', (R, '''		wg      sync.WaitGroup
''', '''		results = make(chan outcome1)
		started int
'''), (R, LOOP, LOOP.replace('''		wg.Add(1)
''', '''		started++
''').replace('''			defer wg.Done()

''', '''''').replace('errs[i] = o.err\n', 'results <- outcome1{i, o.err}\n').replace('''				errs[i] = err
				o.err = err
				o.g.set(true)
''', '''				o.err = err
				o.g.set(true)
				results <- outcome1{i, err}
''')), (R, '''	wg.Wait()
''', '''	for ; started > 0; started-- {
		res := <-results
		errs[res.idx] = res.err
	}
'''), (R, '''	"strings"
	"sync"
''', '''	"strings"
'''), (R, '''type outcome struct {''', '''type outcome1 struct {
	idx int
	err error
}

type outcome struct {'''))
m('gate-chan', (GA, '''type gate struct {
	c    *sync.Cond
	open bool
}
''', '''type gate struct {
	mu   sync.Mutex
	open chan struct{} // closed when the gate is open
}
'''), (GA, '''	return &gate{
		c:    sync.NewCond(new(sync.Mutex)),
		open: open,
	}
''', '''	g := &gate{open: make(chan struct{})}
	if open {
		close(g.open)
	}
	return g
'''), (GA, '''	g.c.L.Lock()
	wasOpen := g.open
	g.open = open
	if open && !wasOpen {
		g.c.Broadcast()
	}
	g.c.L.Unlock()
''', '''	g.mu.Lock()
	defer g.mu.Unlock()
	select {
	case <-g.open:
		if !open {
			g.open = make(chan struct{})
		}
	default:
		if open {
			close(g.open)
		}
	}
'''), (GA, '''	g.c.L.Lock()
	for !g.open {
		g.c.Wait()
	}
	g.c.L.Unlock()
''', '''	g.mu.Lock()
	open := g.open
	g.mu.Unlock()
	<-open
'''))
m('gate-helper', (GA, '''	g.c.L.Lock()
	wasOpen := g.open
	g.open = open
	if open && !wasOpen {
		g.c.Broadcast()
	}
	g.c.L.Unlock()
''', '''	g.locked(func() {
		g.open = open
		if open {
			g.c.Broadcast()
		}
	})
'''), (GA, '''	g.c.L.Lock()
	for !g.open {
		g.c.Wait()
	}
	g.c.L.Unlock()
''', '''	g.locked(func() {
		for !g.open {
			g.c.Wait()
		}
	})
'''), (GA, '''func (g *gate) wait() {''', '''func (g *gate) locked(f func()) {
	g.c.L.Lock()
	defer g.c.L.Unlock()
	f()
}

func (g *gate) wait() {'''))
# depth through an enter method that gives back the leave function
m('depth-enter', (R, '''	con.incDepth()
	defer con.decDepth()
''', '''	defer con.enter()()
'''), (R, '''// Run runs the given targets, skipping''', '''func (con *Controller) enter() func() {
	con.incDepth()
	return con.decDepth
}

// Run runs the given targets, skipping'''))
# the copier
WRITE = '''	var n int

	for _, b := range buf {
		switch b {
		case '\\n':
			if err := c.newline(); err != nil {
				return n, err
			}

		case '\\r':
			if c.sawcr {
				if err := c.newline(); err != nil {
					return n, err
				}
			}
			c.sawcr = true

		default:
			if c.sawcr {
				if err := c.newline(); err != nil {
					return n, err
				}
			}
			if c.bol {
				_, err := c.w.WriteString(c.indent)
				if err != nil {
					return n, err
				}
			}
			c.bol = false
			if err := c.w.WriteByte(b); err != nil {
				return n, err
			}
		}
		n++
	}

	err := c.w.Flush()
	return n, err
}
'''
m('copier-writebyte', (R, WRITE, '''	for n, b := range buf {
		if err := c.writeByte(b); err != nil {
			return n, err
		}
	}
	return len(buf), c.w.Flush()
}

func (c *indentingCopier) writeByte(b byte) error {
	if c.sawcr && b != '\\n' {
		if err := c.newline(); err != nil {
			return err
		}
	}
	switch b {
	case '\\n':
		return c.newline()
	case '\\r':
		c.sawcr = true
		return nil
	}
	if c.bol {
		if _, err := c.w.WriteString(c.indent); err != nil {
			return err
		}
		c.bol = false
	}
	return c.w.WriteByte(b)
}
'''))
# files
RUN = '''	db := GetHashDB(ctx)

	if db != nil && !GetForce(ctx) && !GetDryRun(ctx) {
		h, err := ft.computeHash(con)
		if err != nil {
			return errors.Wrap(err, "computing hash before running subtarget")
		}
		has, err := db.Has(ctx, h)
		if err != nil {
			return errors.Wrap(err, "checking hash db")
		}
		if has {
			if GetVerbose(ctx) {
				con.Indentf("%s is up to date", con.Describe(ft))
			}
			return nil
		}
	}

	if err := con.Run(ctx, ft.Target); err != nil {
		return errors.Wrap(err, "running subtarget")
	}

	if db == nil || GetDryRun(ctx) {
		return nil
	}

	h, err := ft.computeHash(con)
	if err != nil {
		return errors.Wrap(err, "computing hash after running subtarget")
	}
	err = db.Add(ctx, h)
	return errors.Wrap(err, "adding hash to db")
}
'''
m('files-nodb', (FI, RUN, '''	db := GetHashDB(ctx)
	if GetDryRun(ctx) {
		db = nil
	}
	if db == nil {
		return ft.runTarget(ctx, con)
	}

	if !GetForce(ctx) {
		switch has, err := ft.known(ctx, con, db); {
		case err != nil:
			return err
		case has && GetVerbose(ctx):
			con.Indentf("%s is up to date", con.Describe(ft))
			return nil
		case has:
			return nil
		}
	}

	if err := ft.runTarget(ctx, con); err != nil {
		return err
	}

	h, err := ft.computeHash(con)
	if err != nil {
		return errors.Wrap(err, "computing hash after running subtarget")
	}
	return errors.Wrap(db.Add(ctx, h), "adding hash to db")
}

func (ft *files) runTarget(ctx context.Context, con *Controller) error {
	return errors.Wrap(con.Run(ctx, ft.Target), "running subtarget")
}

func (ft *files) known(ctx context.Context, con *Controller, db HashDB) (bool, error) {
	h, err := ft.computeHash(con)
	if err != nil {
		return false, errors.Wrap(err, "computing hash before running subtarget")
	}
	has, err := db.Has(ctx, h)
	return has, errors.Wrap(err, "checking hash db")
}
'''))
m('files-flags', (FI, RUN, '''	var (
		db     = GetHashDB(ctx)
		update = db != nil && !GetDryRun(ctx)
		check  = update && !GetForce(ctx)
	)

	if check {
		h, err := ft.computeHash(con)
		if err != nil {
			return errors.Wrap(err, "computing hash before running subtarget")
		}
		if has, err := db.Has(ctx, h); err != nil {
			return errors.Wrap(err, "checking hash db")
		} else if has {
			if GetVerbose(ctx) {
				con.Indentf("%s is up to date", con.Describe(ft))
			}
			return nil
		}
	}

	err := con.Run(ctx, ft.Target)
	if err == nil && update {
		return ft.record(ctx, con, db)
	}
	return errors.Wrap(err, "running subtarget")
}

func (ft *files) record(ctx context.Context, con *Controller, db HashDB) error {
	h, err := ft.computeHash(con)
	if err == nil {
		return errors.Wrap(db.Add(ctx, h), "adding hash to db")
	}
	return errors.Wrap(err, "computing hash after running subtarget")
}
'''))
m('files-subtargets-method', (FI, '''	var subtargets []Target

	switch t := target.(type) {
	case *deferredResolutionTarget:
		resolved, err := t.resolve(con)
		if err != nil {
			return err
		}
		subtargets = []Target{resolved}
	case *all:
		subtargets = t.Targets
	case *seq:
		subtargets = t.Targets
	case *argTarget:
		subtargets = []Target{t.Target}
	case *files:
		subtargets = []Target{t.Target}
	default:
		return nil
	}
''', '''	subtargets, err := subtargetsOf(con, target)
	if err != nil {
		return err
	}
	if len(subtargets) == 0 {
		return nil
	}
'''), (FI, '''func (ft *files) runPrereqs''', '''func subtargetsOf(con *Controller, target Target) ([]Target, error) {
	switch t := target.(type) {
	case *deferredResolutionTarget:
		resolved, err := t.resolve(con)
		if err != nil {
			return nil, err
		}
		return []Target{resolved}, nil
	case *all:
		return t.Targets, nil
	case *seq:
		return t.Targets, nil
	case *argTarget:
		return []Target{t.Target}, nil
	case *files:
		return []Target{t.Target}, nil
	}
	return nil, nil
}

func (ft *files) runPrereqs'''))
m('files-hash-collector', (FI, '''	hashes := make(map[string]string)

	if err := fileHashesHelper(items, hashes); err != nil {
		return nil, err
	}

	keys := maps.Keys(hashes)
	sort.Strings(keys)

	result := make([]string, 0, 2*len(keys))
	for _, key := range keys {
		result = append(result, key, hashes[key])
	}

	return result, nil
}
''', '''	hashes := make(map[string]string)

	if err := fileHashesHelper(items, hashes); err != nil {
		return nil, err
	}

	names := make([]string, 0, len(hashes))
	for name := range hashes {
		names = append(names, name)
	}
	sort.Strings(names)

	result := make([]string, 2*len(names))
	for i, name := range names {
		result[2*i] = name
		result[2*i+1] = hashes[name]
	}

	return result, nil
}
'''), (FI, '''	"github.com/bobg/go-generics/v2/maps"
''', ''))
m('files-hash-queue', (FI, '''	for _, item := range items {
		if err := fileHashesItemHelper(item, hashes); err != nil {
			return err
		}
	}

	return nil
}

func fileHashesItemHelper(item string, hashes map[string]string) error {
	if _, ok := hashes[item]; ok {
		// Already computed.
		// (There can be duplicates or overlaps in the input.)
		return nil
	}

	info, err := os.Stat(item)
	if errors.Is(err, fs.ErrNotExist) {
		hashes[item] = ""
		return nil
	}
	if err != nil {
		return errors.Wrapf(err, "statting %s", item)
	}

	if info.IsDir() {
		entries, err := os.ReadDir(item)
		if err != nil {
			return errors.Wrapf(err, "reading directory %s", item)
		}
		subitems := slices.Map(entries, func(s os.DirEntry) string { return filepath.Join(item, s.Name()) })
		return fileHashesHelper(subitems, hashes)
	}

	h, err := hashFile(item)
	if err != nil {
		return errors.Wrapf(err, "hashing file %s", item)
	}
	hashes[item] = h

	return nil
}
''', '''	for _, item := range items {
		if _, ok := hashes[item]; ok {
			continue
		}

		info, err := os.Stat(item)
		switch {
		case errors.Is(err, fs.ErrNotExist):
			hashes[item] = ""

		case err != nil:
			return errors.Wrapf(err, "statting %s", item)

		case info.IsDir():
			entries, err := os.ReadDir(item)
			if err != nil {
				return errors.Wrapf(err, "reading directory %s", item)
			}
			var subitems []string
			for _, entry := range entries {
				subitems = append(subitems, filepath.Join(item, entry.Name()))
			}
			if err := fileHashesHelper(subitems, hashes); err != nil {
				return err
			}

		default:
			if hashes[item], err = hashFile(item); err != nil {
				return errors.Wrapf(err, "hashing file %s", item)
			}
		}
	}

	return nil
}
'''), (FI, '''	"github.com/bobg/go-generics/v2/slices"
''', ''))
m('files-prereq-func', (FI, '''	var prereqs []Target

	for _, in := range ft.In {
		// A target that updates one of its own inputs must not wait for itself.
		if target := findInFilesRegistry(in); target != nil && target != ft {
			prereqs = append(prereqs, target)
		}
	}

	if len(prereqs) == 0 {
		return nil
	}
	return con.Run(ctx, prereqs...)
}
''', '''	return con.Run(ctx, ft.prereqs()...)
}

// prereqs gives the targets that produce the inputs.
func (ft *files) prereqs() (result []Target) {
	for _, in := range ft.In {
		target := findInFilesRegistry(in)
		if target == nil || target == ft {
			continue
		}
		result = append(result, target)
	}
	return result
}
'''))
m('files-marshal-type', (FI, '''	tt := reflect.TypeOf(ft.Target)
	s := struct {
		Target     Target   `json:"target"`
		TargetType string   `json:"target_type"`
		In         []string `json:"in,omitempty"`  // [filename, hash, filename, hash, ...]
		Out        []string `json:"out,omitempty"` // [filename, hash, filename, hash, ...]
	}{
		Target:     ft.Target,
		TargetType: tt.String(),
		In:         inHashes,
		Out:        outHashes,
	}
	j, err := json.Marshal(s)
	if err != nil {
		return nil, errors.Wrap(err, "in JSON marshaling")
	}

	sum := sha256.Sum224(j)
	return sum[:], nil
}
''', '''	rule := filesRule{Target: ft.Target, TargetType: reflect.TypeOf(ft.Target).String()}
	rule.In, rule.Out = inHashes, outHashes
	return rule.hash()
}

type filesRule struct {
	Target     Target   `json:"target"`
	TargetType string   `json:"target_type"`
	In         []string `json:"in,omitempty"`  // [filename, hash, filename, hash, ...]
	Out        []string `json:"out,omitempty"` // [filename, hash, filename, hash, ...]
}

func (r *filesRule) hash() ([]byte, error) {
	j, err := json.Marshal(r)
	if err != nil {
		return nil, errors.Wrap(err, "in JSON marshaling")
	}
	hasher := sha256.New224()
	hasher.Write(j)
	return hasher.Sum(nil), nil
}
'''))
# clean
m('clean-helper', (CL, '''	files := append([]string(nil), c.Files...) // a copy, since it gets sorted below
	if c.Autoclean {
		autocleanMu.Lock()
		autocleanFiles := autocleanRegistry.Slice()
		files = append(files, autocleanFiles...)
		autocleanMu.Unlock()
	}
	sort.Strings(files)

	if len(files) == 0 {
		return nil
	}
''', '''	files := c.files()
	if len(files) == 0 {
		return nil
	}
'''), (CL, '''	for _, f := range files {
		err := os.Remove(f)
		if errors.Is(err, fs.ErrNotExist) {
			continue
		}
		if err != nil {
			return errors.Wrapf(err, "removing %s", f)
		}
	}
	return nil
}
''', '''	for len(files) > 0 {
		if err := os.Remove(files[0]); err != nil && !errors.Is(err, fs.ErrNotExist) {
			return errors.Wrapf(err, "removing %s", files[0])
		}
		files = files[1:]
	}
	return nil
}

func (c *Clean) files() []string {
	result := make([]string, len(c.Files))
	copy(result, c.Files)
	if c.Autoclean {
		result = append(result, autocleanFiles()...)
	}
	sort.Strings(result)
	return result
}

func autocleanFiles() []string {
	autocleanMu.Lock()
	defer autocleanMu.Unlock()
	return autocleanRegistry.Slice()
}
'''))
# command
m('cmd-streams', (CO, '''	if cmd.Stdout == nil && c.StdoutFn != nil {
		if w := c.StdoutFn(ctx, con); w != nil {
			if closer, ok := w.(io.Closer); ok {
				defer func() {
					closeErr := closer.Close()
					if err == nil {
						err = errors.Wrap(closeErr, "closing stdout")
					}
				}()
			}
			cmd.Stdout = w
		}
	}
	if cmd.Stderr == nil && c.StderrFn != nil {
		if w := c.StderrFn(ctx, con); w != nil {
			if closer, ok := w.(io.Closer); ok {
				defer func() {
					closeErr := closer.Close()
					if err == nil {
						err = errors.Wrap(closeErr, "closing stderr")
					}
				}()
			}
			cmd.Stderr = w
		}
	}
''', '''	for _, s := range []struct {
		w    *io.Writer
		fn   func(context.Context, *Controller) io.Writer
		name string
	}{{&cmd.Stdout, c.StdoutFn, "stdout"}, {&cmd.Stderr, c.StderrFn, "stderr"}} {
		if *s.w != nil || s.fn == nil {
			continue
		}
		w := s.fn(ctx, con)
		if w == nil {
			continue
		}
		*s.w = w
		closer, ok := w.(io.Closer)
		if !ok {
			continue
		}
		name := s.name
		defer func() {
			closeErr := closer.Close()
			if err == nil {
				err = errors.Wrapf(closeErr, "closing %s", name)
			}
		}()
	}
'''))
m('cmd-openout', (CO, '''		if stdoutAppend {
			f, openErr := os.OpenFile(stdoutFile, os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0644)
			if openErr != nil {
				return errors.Wrapf(openErr, "opening %s for appending", stdoutFile)
			}
			defer func() {
				closeErr := f.Close()
				if err == nil {
					err = errors.Wrapf(closeErr, "closing stdout file %s", stdoutFile)
				}
			}()
			cmd.Stdout = f
		} else {
			f, openErr := os.Create(stdoutFile)
			if openErr != nil {
				return errors.Wrapf(openErr, "opening %s for writing", stdoutFile)
			}
			defer func() {
				closeErr := f.Close()
				if err == nil {
					err = errors.Wrapf(closeErr, "closing stdout file %s", stdoutFile)
				}
			}()
			cmd.Stdout = f
		}
''', '''		f, openErr := openOutput(stdoutFile, stdoutAppend)
		if openErr != nil {
			return openErr
		}
		defer closeOutput(f, "stdout", &err)
		cmd.Stdout = f
'''), (CO, '''		switch {
		case stdoutFile == stderrFile:
			cmd.Stderr = cmd.Stdout

		case stderrAppend:
			f, openErr := os.OpenFile(stderrFile, os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0644)
			if openErr != nil {
				return errors.Wrapf(openErr, "opening %s for appending", stderrFile)
			}
			defer func() {
				closeErr := f.Close()
				if err == nil {
					err = errors.Wrapf(closeErr, "closing stderr file %s", stderrFile)
				}
			}()
			cmd.Stderr = f

		default:
			f, openErr := os.Create(stderrFile)
			if openErr != nil {
				return errors.Wrapf(openErr, "opening %s for writing", stderrFile)
			}
			defer func() {
				closeErr := f.Close()
				if err == nil {
					err = errors.Wrapf(closeErr, "closing stderr file %s", stderrFile)
				}
			}()
			cmd.Stderr = f
		}
''', '''		if stderrFile == stdoutFile {
			cmd.Stderr = cmd.Stdout
		} else {
			f, openErr := openOutput(stderrFile, stderrAppend)
			if openErr != nil {
				return openErr
			}
			defer closeOutput(f, "stderr", &err)
			cmd.Stderr = f
		}
'''), (CO, '''// Desc implements Target.Desc.
func (*Command)''', '''func openOutput(name string, appending bool) (*os.File, error) {
	flags, mode := os.O_RDWR|os.O_CREATE|os.O_TRUNC, "writing"
	if appending {
		flags, mode = os.O_WRONLY|os.O_APPEND|os.O_CREATE, "appending"
	}
	f, err := os.OpenFile(name, flags, 0666)
	if err != nil {
		return nil, errors.Wrapf(err, "opening %s for %s", name, mode)
	}
	return f, nil
}

func closeOutput(f *os.File, stream string, err *error) {
	if closeErr := f.Close(); *err == nil && closeErr != nil {
		*err = errors.Wrapf(closeErr, "closing %s file %s", stream, f.Name())
	}
}

// Desc implements Target.Desc.
func (*Command)'''))
m('cmd-parsename', (CO, '''	var (
		stdoutFile   = c.StdoutFile
		stderrFile   = c.StderrFile
		stdoutAppend = strings.HasPrefix(stdoutFile, ">>")
		stderrAppend = strings.HasPrefix(stderrFile, ">>")
	)

	if stdoutAppend {
		stdoutFile = strings.TrimLeft(stdoutFile, "> ")
	}
	if stderrAppend {
		stderrFile = strings.TrimLeft(stderrFile, "> ")
	}
''', '''	stdoutFile, stdoutAppend := splitAppend(c.StdoutFile)
	stderrFile, stderrAppend := splitAppend(c.StderrFile)
'''), (CO, '''	if strings.HasPrefix(name, ">>") {
		name = strings.TrimLeft(name, "> ")
		forceAppend = true
	}
	name = con.JoinPath(dir, name)
	if forceAppend {
		name = ">>" + name
	}
	return name
}
''', '''	name, appending := splitAppend(name)
	name = con.JoinPath(dir, name)
	if appending || forceAppend {
		return ">>" + name
	}
	return name
}

// splitAppend parses the >> prefix of the name of an output file.
func splitAppend(name string) (string, bool) {
	if !strings.HasPrefix(name, ">>") {
		return name, false
	}
	return strings.TrimLeft(name, "> "), true
}
'''))
m('cmd-dec-output', (CO, '''	switch c.Stdout {
	case "$stdout":
		result.Stdout = os.Stdout

	case "$stderr":
		result.Stdout = os.Stderr // who am I to judge

	case "$discard":
		result.Stdout = io.Discard

	case "$indent":
		result.StdoutFn = deferredIndent(os.Stdout)

	case "$verbose":
		result.StdoutFn = maybeIndent(os.Stdout)

	case "":
		// do nothing

	default:
		result.StdoutFile = outputFile(con, c.Stdout, dir, forceAppend)
	}

	switch c.Stderr {
	case "$stdout":
		result.Stderr = os.Stdout

	case "$stderr":
		result.Stderr = os.Stderr

	case "$discard":
		result.Stderr = io.Discard

	case "$indent":
		result.StderrFn = deferredIndent(os.Stderr)

	case "$verbose":
		result.StderrFn = maybeIndent(os.Stderr)

	case "":
		// do nothing

	default:
		result.StderrFile = outputFile(con, c.Stderr, dir, forceAppend)
	}

	return result
}
''', '''	var file bool
	if result.Stdout, result.StdoutFn, file = parseOutput(c.Stdout, os.Stdout); file {
		result.StdoutFile = outputFile(con, c.Stdout, dir, forceAppend)
	}
	if result.Stderr, result.StderrFn, file = parseOutput(c.Stderr, os.Stderr); file {
		result.StderrFile = outputFile(con, c.Stderr, dir, forceAppend)
	}
	return result
}

// parseOutput interprets an output setting. The last result is true if it is the name of a file.
func parseOutput(s string, std io.Writer) (io.Writer, func(context.Context, *Controller) io.Writer, bool) {
	switch s {
	case "":
		return nil, nil, false
	case "$stdout":
		return os.Stdout, nil, false
	case "$stderr":
		return os.Stderr, nil, false
	case "$discard":
		return io.Discard, nil, false
	case "$indent":
		return nil, deferredIndent(std), false
	case "$verbose":
		return nil, maybeIndent(std), false
	default:
		return nil, nil, true
	}
}
'''))
# controller
m('con-join-last', (CT, '''	for i := len(elts) - 1; i >= 0; i-- {
		if filepath.IsAbs(elts[i]) {
			return filepath.Join(elts[i:]...)
		}
	}
	args := make([]string, 1, 1+len(elts))
	args[0] = con.topdir
	args = append(args, elts...)
	return filepath.Join(args...)
}
''', '''	path := con.topdir
	for _, elt := range elts {
		if filepath.IsAbs(elt) {
			path = elt
		} else {
			path = filepath.Join(path, elt)
		}
	}
	return filepath.Clean(path)
}
'''), )
m('con-parse-names', (CT, '''	var (
		targets []Target
		unknown []string
	)

	if len(args) > 1 && strings.HasPrefix(args[1], "-") {
		// Just one target, and remaining args are arguments for that target.
		if target, _ := con.RegistryTarget(args[0]); target != nil {
			targets = append(targets, ArgTarget(target, args[1:]...))
		} else {
			unknown = append(unknown, args[0])
		}
	} else {
		for _, arg := range args {
			if target, _ := con.RegistryTarget(arg); target != nil {
				targets = append(targets, target)
			} else {
				unknown = append(unknown, arg)
			}
		}
	}

	switch len(unknown) {
	case 0:
		return targets, nil
	case 1:
		return nil, fmt.Errorf("unknown target %s", unknown[0])
	default:
		return nil, fmt.Errorf("unknown targets: %s", strings.Join(unknown, " "))
	}
}
''', '''	names := args
	hasArgs := len(args) > 1 && strings.HasPrefix(args[1], "-")
	if hasArgs {
		names = args[:1]
	}
	targets, err := con.lookupAll(names)
	if err != nil {
		return nil, err
	}
	if hasArgs {
		return []Target{ArgTarget(targets[0], args[1:]...)}, nil
	}
	return targets, nil
}

func (con *Controller) lookupAll(names []string) ([]Target, error) {
	var (
		targets []Target
		unknown []string
	)
	for _, name := range names {
		target, _ := con.RegistryTarget(name)
		if target == nil {
			unknown = append(unknown, name)
			continue
		}
		targets = append(targets, target)
	}
	if len(unknown) == 1 {
		return nil, fmt.Errorf("unknown target %s", unknown[0])
	}
	if len(unknown) > 1 {
		return nil, fmt.Errorf("unknown targets: %s", strings.Join(unknown, " "))
	}
	return targets, nil
}
'''))
m('con-registry-type', (RG, '''	con.mu.Lock()
	con.targetsByName[name] = tuple
	con.targetsByAddr[addr] = tuple
	con.mu.Unlock()

	return target, nil
''', '''	con.put(addr, tuple)
	return target, nil
'''), (RG, '''type targetID struct''', '''func (con *Controller) put(addr targetID, tuple targetRegistryTuple) {
	con.mu.Lock()
	defer con.mu.Unlock()
	con.targetsByAddr[addr] = tuple
	con.targetsByName[tuple.name] = tuple
}

type targetID struct'''))
# yaml
m('yaml-root', (Y, '''	if err := dec.Decode(&doc); err != nil {
		return errors.Wrap(err, "decoding YAML")
	}

	if doc.Kind != yaml.DocumentNode {
		return errors.Wrap(BadYAMLNodeKindError{Got: doc.Kind, Want: yaml.DocumentNode}, "at top level")
	}
	if len(doc.Content) != 1 {
		return fmt.Errorf("got %d children of top-level node, want 1", len(doc.Content))
	}

	m := doc.Content[0]
	if m.Kind != yaml.MappingNode {
		return errors.Wrap(BadYAMLNodeKindError{Got: m.Kind, Want: yaml.MappingNode}, "at document second level")
	}

	if len(m.Content)%2 != 0 {
		return fmt.Errorf("got %d children for second-level node, want an even number", len(m.Content))
	}
''', '''	if err := dec.Decode(&doc); err != nil {
		return errors.Wrap(err, "decoding YAML")
	}

	m, err := rootMapping(&doc)
	if err != nil {
		return err
	}
'''), (Y, '''// ReadYAMLFile calls''', '''func rootMapping(doc *yaml.Node) (*yaml.Node, error) {
	if err := checkKind(doc, yaml.DocumentNode); err != nil {
		return nil, errors.Wrap(err, "at top level")
	}
	if n := len(doc.Content); n != 1 {
		return nil, fmt.Errorf("got %d children of top-level node, want 1", n)
	}
	root := doc.Content[0]
	if err := checkKind(root, yaml.MappingNode); err != nil {
		return nil, errors.Wrap(err, "at document second level")
	}
	if n := len(root.Content); n%2 != 0 {
		return nil, fmt.Errorf("got %d children for second-level node, want an even number", n)
	}
	return root, nil
}

func checkKind(node *yaml.Node, want yaml.Kind) error {
	if node.Kind == want {
		return nil
	}
	return BadYAMLNodeKindError{Got: node.Kind, Want: want}
}

// ReadYAMLFile calls'''))
m('yaml-entry-methods', (Y, '''		var (
			name = nameNode.Value
			doc  = nameNode.HeadComment
		)
		if doc == "" {
			doc = nameNode.LineComment
		}
		doc = strings.TrimLeft(doc, "# ")

		if name == "_dir" {
			decl := m.Content[i+1]
			if decl.Kind != yaml.ScalarNode {
				return fmt.Errorf("_dir declaration value has kind %v, want %v", decl.Kind, yaml.ScalarNode)
			}
			if decl.Value != dir {
				return fmt.Errorf("_dir declaration %s does not match actual directory %s", decl.Value, dir)
			}
			sawDirDecl = true
			continue
		}

		if strings.Contains(name, "/") {
			return fmt.Errorf("no slashes in target names")
		}

		targetNode := m.Content[i+1]
		target, err := con.YAMLTarget(targetNode, dir)
		if err != nil {
			return errors.Wrapf(err, "in YAML node for %s", name)
		}

		// The following was previously inside a "if target is not a deferredResolutionTarget" block,
		// but I think that was wrong.
		// Or maybe I'm wrong now...

		qname := filepath.Join(dir, name)

		_, err = con.RegisterTarget(qname, doc, target)
		if err != nil {
			return errors.Wrapf(err, "registering target %s", qname)
		}
	}
''', '''		value := m.Content[i+1]
		if nameNode.Value == "_dir" {
			if err := checkDirDecl(value, dir); err != nil {
				return err
			}
			sawDirDecl = true
		} else if err := con.readEntry(nameNode, value, dir); err != nil {
			return err
		}
	}
'''), (Y, '''// ReadYAMLFile calls''', '''func checkDirDecl(decl *yaml.Node, dir string) error {
	switch {
	case decl.Kind != yaml.ScalarNode:
		return fmt.Errorf("_dir declaration value has kind %v, want %v", decl.Kind, yaml.ScalarNode)
	case decl.Value != dir:
		return fmt.Errorf("_dir declaration %s does not match actual directory %s", decl.Value, dir)
	}
	return nil
}

func (con *Controller) readEntry(key, value *yaml.Node, dir string) error {
	name := key.Value
	if strings.ContainsRune(name, '/') {
		return fmt.Errorf("no slashes in target names")
	}
	target, err := con.YAMLTarget(value, dir)
	if err != nil {
		return errors.Wrapf(err, "in YAML node for %s", name)
	}
	doc := key.HeadComment
	if doc == "" {
		doc = key.LineComment
	}
	qname := filepath.Join(dir, name)
	if _, err = con.RegisterTarget(qname, strings.TrimLeft(doc, "# "), target); err != nil {
		return errors.Wrapf(err, "registering target %s", qname)
	}
	return nil
}

// ReadYAMLFile calls'''))
m('yaml-reading-closure', (Y, '''	con.mu.Lock()
	con.reading[rel]++
	con.mu.Unlock()
	defer func() {
		con.mu.Lock()
		con.reading[rel]--
		con.mu.Unlock()
	}()
''', '''	addReading := func(n int) {
		con.mu.Lock()
		defer con.mu.Unlock()
		con.reading[rel] += n
	}
	addReading(1)
	defer addReading(-1)
'''))
m('yaml-fabnames', (Y, '''	filename := filepath.Join(dir, "fab.yaml")
	f, err := os.Open(filename)
	if errors.Is(err, fs.ErrNotExist) {
		filename = filepath.Join(dir, "fab.yml")
		f, err = os.Open(filename)
	}
	return f, err
}
''', '''	f, err := os.Open(filepath.Join(dir, "fab.yaml"))
	if err == nil || !errors.Is(err, fs.ErrNotExist) {
		return f, err
	}
	return os.Open(filepath.Join(dir, "fab.yml"))
}
'''))
# main
m('main-driver-state', (N, '''	if m.Force {
		compile = true
		if m.Verbose {
			fmt.Println("Forcing recompilation of driver")
		}
	} else {
		_, err = os.Stat(driver)
		if errors.Is(err, fs.ErrNotExist) {
			compile = true
			if m.Verbose {
				fmt.Println("Compiling driver")
			}
		} else if err != nil {
			return "", errors.Wrapf(err, "statting %s", driver)
		}
	}
''', '''	switch {
	case m.Force:
		compile = true
		m.say("Forcing recompilation of driver")

	default:
		exists, err := fileExists(driver)
		if err != nil {
			return "", err
		}
		if !exists {
			compile = true
			m.say("Compiling driver")
		}
	}
'''), (N, '''		if newhash == string(oldhash) {
			if m.Verbose {
				fmt.Println("Using existing driver")
			}
		} else {
			compile = true
			if m.Verbose {
				fmt.Println("Recompiling driver")
			}
		}
''', '''		compile = newhash != string(oldhash)
		if compile {
			m.say("Recompiling driver")
		} else {
			m.say("Using existing driver")
		}
'''), (N, '''func (m *Main) checkVersion(''', '''func (m *Main) say(msg string) {
	if m.Verbose {
		fmt.Println(msg)
	}
}

func fileExists(name string) (bool, error) {
	switch _, err := os.Stat(name); {
	case err == nil:
		return true, nil
	case errors.Is(err, fs.ErrNotExist):
		return false, nil
	default:
		return false, errors.Wrapf(err, "statting %s", name)
	}
}

func (m *Main) checkVersion('''))
m('main-hash-early', (N, '''	dh := newDirHasher()
	for _, filename := range pkg.GoFiles { // TODO: is this the right set of files?
		if err = addFileToHash(dh, filename); err != nil {
			return "", errors.Wrapf(err, "hashing file %s", filename)
		}
	}
	newhash, err := dh.hash()
	if err != nil {
		return "", errors.Wrapf(err, "computing hash of directory %s", pkgdir)
	}

''', ''), (N, '''	driverdir := filepath.Join(m.Fabdir, pkg.PkgPath)
''', '''	newhash, err := hashPackage(pkg)
	if err != nil {
		return "", errors.Wrapf(err, "computing hash of directory %s", pkgdir)
	}

	driverdir := filepath.Join(m.Fabdir, pkg.PkgPath)
'''), (N, '''func (m *Main) checkVersion(''', '''func hashPackage(pkg *packages.Package) (string, error) {
	dh := newDirHasher()
	for _, filename := range pkg.GoFiles { // TODO: is this the right set of files?
		if err := addFileToHash(dh, filename); err != nil {
			return "", errors.Wrapf(err, "hashing file %s", filename)
		}
	}
	return dh.hash()
}

func (m *Main) checkVersion('''))
m('main-build-method', (N, '''	// Remove the old hash before replacing the driver and write the new one last.
	// Otherwise, after an interruption, the hash could vouch for the wrong driver.
	if err = os.Remove(hashfile); err != nil && !errors.Is(err, fs.ErrNotExist) {
		return "", errors.Wrapf(err, "removing %s", hashfile)
	}
	if err = CompilePackage(ctx, pkg, driver); err != nil {
		return "", errors.Wrapf(err, "compiling driver %s", driver)
	}
	if buildInfo == nil && !skipVersionCheck {
		// The version check was not reached.
		buildInfo, _ = debug.ReadBuildInfo()
	}
	if buildInfo != nil {
		v, openErr := os.OpenFile(versionfile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
		if openErr != nil {
			return "", errors.Wrapf(openErr, "opening %s for writing", versionfile)
		}
		defer func() {
			closeErr := v.Close()
			if err == nil {
				err = errors.Wrapf(closeErr, "closing %s", versionfile)
			}
		}()
		enc := json.NewEncoder(v)
		enc.SetIndent("", "  ")
		if err = enc.Encode(buildInfo); err != nil {
			return "", errors.Wrap(err, "encoding build info")
		}
	}
	if err = os.WriteFile(hashfile, []byte(newhash), 0644); err != nil {
		return "", errors.Wrapf(err, "writing %s", hashfile)
	}

	return driver, nil
}
''', '''	if err = removeIfExists(hashfile); err != nil {
		return "", err
	}
	if err = CompilePackage(ctx, pkg, driver); err != nil {
		return "", errors.Wrapf(err, "compiling driver %s", driver)
	}
	if buildInfo == nil && !skipVersionCheck {
		// The version check was not reached.
		buildInfo, _ = debug.ReadBuildInfo()
	}
	if buildInfo != nil {
		if err = writeVersion(versionfile, buildInfo); err != nil {
			return "", err
		}
	}
	err = os.WriteFile(hashfile, []byte(newhash), 0644)
	if err != nil {
		return "", errors.Wrapf(err, "writing %s", hashfile)
	}
	return driver, nil
}

func removeIfExists(name string) error {
	err := os.Remove(name)
	if errors.Is(err, fs.ErrNotExist) {
		return nil
	}
	return errors.Wrapf(err, "removing %s", name)
}

func writeVersion(filename string, info *debug.BuildInfo) (err error) {
	f, err := os.Create(filename)
	if err != nil {
		return errors.Wrapf(err, "opening %s for writing", filename)
	}
	defer func() {
		if closeErr := f.Close(); err == nil {
			err = errors.Wrapf(closeErr, "closing %s", filename)
		}
	}()
	enc := json.NewEncoder(f)
	enc.SetIndent("", "  ")
	return errors.Wrap(enc.Encode(info), "encoding build info")
}
'''))
m('main-args-table', (N, '''	if m.Verbose {
		args = append(args, "-v")
	}
	if m.List {
		args = append(args, "-list")
	}
	if m.Force {
		args = append(args, "-f")
	}
	if m.DryRun {
		args = append(args, "-n")
	}
	args = append(args, "--") // Do not let the driver parse m.Args as its own flags.
	args = append(args, m.Args...)
''', '''	for _, opt := range []struct {
		on   bool
		flag string
	}{
		{m.Verbose, "-v"}, {m.List, "-list"}, {m.Force, "-f"}, {m.DryRun, "-n"},
	} {
		if opt.on {
			args = append(args, opt.flag)
		}
	}
	args = append(append(args, "--"), m.Args...)
'''))
m('main-options', (N, '''	ctx = WithVerbose(ctx, m.Verbose)
	ctx = WithForce(ctx, m.Force)
	ctx = WithDryRun(ctx, m.DryRun)
''', '''	ctx = m.options(ctx)
'''), (N, '''var bolRegex''', '''func (m *Main) options(ctx context.Context) context.Context {
	return WithDryRun(WithForce(WithVerbose(ctx, m.Verbose), m.Force), m.DryRun)
}

var bolRegex'''))
# compile
m('compile-go-helper', (K, '''	cmd := exec.CommandContext(ctx, "go", "mod", "init", "x")
	cmd.Dir = tmpdir
	output, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("error in go mod init fab: %w; output follows\\n%s", err, string(output))
	}
''', '''	if err = runGo(ctx, tmpdir, "mod", "init", "x"); err != nil {
		return err
	}
'''), (K, '''	gomodPath := filepath.Join(tmpdir, "go.mod")
	gomodData, err := os.ReadFile(gomodPath)
	if err != nil {
		return errors.Wrapf(err, "reading %s", gomodPath)
	}
	mf, err := modfile.Parse(gomodPath, gomodData, nil)
	if err != nil {
		return errors.Wrapf(err, "parsing %s", gomodPath)
	}
	if err = mf.AddReplace("github.com/bobg/fab", "", "./fab", ""); err != nil {
		return errors.Wrapf(err, "adding replace directive in %s", gomodPath)
	}
	gomodData, err = mf.Format()
	if err != nil {
		return errors.Wrapf(err, "formatting go.mod in %s", gomodPath)
	}
	if err = os.WriteFile(gomodPath, gomodData, 0644); err != nil {
		return errors.Wrapf(err, "rewriting %s", gomodPath)
	}

	cmd = exec.CommandContext(ctx, "go", "mod", "tidy")
	cmd.Dir = tmpdir
	output, err = cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("error in go mod tidy: %w; output follows\\n%s", err, string(output))
	}

	cmd = exec.CommandContext(ctx, "go", "build")
	cmd.Dir = tmpdir
	output, err = cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("error in go build: %w; output follows\\n%s", err, string(output))
	}
''', '''	if err = replaceFab(filepath.Join(tmpdir, "go.mod")); err != nil {
		return err
	}
	for _, args := range [][]string{{"mod", "tidy"}, {"build"}} {
		if err = runGo(ctx, tmpdir, args...); err != nil {
			return err
		}
	}
'''), (K, '''// Returns the doc comment''', '''func runGo(ctx context.Context, dir string, args ...string) error {
	cmd := exec.CommandContext(ctx, "go", args...)
	cmd.Dir = dir
	if output, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("error in go %s: %w; output follows\\n%s", strings.Join(args, " "), err, output)
	}
	return nil
}

func replaceFab(gomod string) error {
	data, err := os.ReadFile(gomod)
	if err != nil {
		return errors.Wrapf(err, "reading %s", gomod)
	}
	mf, err := modfile.Parse(gomod, data, nil)
	if err != nil {
		return errors.Wrapf(err, "parsing %s", gomod)
	}
	if err = mf.AddReplace("github.com/bobg/fab", "", "./fab", ""); err != nil {
		return errors.Wrapf(err, "adding replace directive in %s", gomod)
	}
	if data, err = mf.Format(); err != nil {
		return errors.Wrapf(err, "formatting go.mod in %s", gomod)
	}
	return errors.Wrapf(os.WriteFile(gomod, data, 0644), "rewriting %s", gomod)
}

// Returns the doc comment'''))
m('compile-driver-writer', (K, '''	driverOut, err := os.Create(filepath.Join(tmpdir, "driver.go"))
	if err != nil {
		return errors.Wrap(err, "creating driver.go in temp dir")
	}
	defer driverOut.Close()

	tmpl := template.New("")
	_, err = tmpl.Parse(driverStr)
	if err != nil {
		return errors.Wrap(err, "parsing driver template")
	}
	if err = tmpl.Execute(driverOut, data); err != nil {
		return errors.Wrap(err, "rendering driver.go template")
	}
	if err = driverOut.Close(); err != nil {
		return errors.Wrap(err, "closing driver.go")
	}
''', '''	if err = writeDriver(filepath.Join(tmpdir, "driver.go"), data); err != nil {
		return err
	}
'''), (K, '''// Returns the doc comment''', '''func writeDriver(filename string, data any) error {
	tmpl, err := template.New("").Parse(driverStr)
	if err != nil {
		return errors.Wrap(err, "parsing driver template")
	}
	f, err := os.Create(filename)
	if err != nil {
		return errors.Wrap(err, "creating driver.go in temp dir")
	}
	if err = tmpl.Execute(f, data); err != nil {
		f.Close()
		return errors.Wrap(err, "rendering driver.go template")
	}
	return errors.Wrap(f.Close(), "closing driver.go")
}

// Returns the doc comment'''))
m('compile-copy-go', (K, '''	entries, err := os.ReadDir(pkgdir)
	if err != nil {
		return errors.Wrapf(err, "reading entries from %s", pkgdir)
	}

	for _, entry := range entries {
		if entry.IsDir() {
			continue
		}
		if strings.HasSuffix(entry.Name(), "_test.go") {
			continue
		}
		if !strings.HasSuffix(entry.Name(), ".go") {
			continue
		}
		if err = copyFile(filepath.Join(pkgdir, entry.Name()), subpkgdir); err != nil {
			return errors.Wrapf(err, "copying %s to tmp subdir", entry.Name())
		}
	}
''', '''	if err = copyGoFiles(pkgdir, subpkgdir); err != nil {
		return err
	}
'''), (K, '''// Returns the doc comment''', '''func copyGoFiles(from, to string) error {
	entries, err := os.ReadDir(from)
	if err != nil {
		return errors.Wrapf(err, "reading entries from %s", from)
	}
	for _, entry := range entries {
		name := entry.Name()
		if isSource := strings.HasSuffix(name, ".go") && !strings.HasSuffix(name, "_test.go"); entry.IsDir() || !isSource {
			continue
		}
		if err := copyFile(filepath.Join(from, name), to); err != nil {
			return errors.Wrapf(err, "copying %s to tmp subdir", name)
		}
	}
	return nil
}

// Returns the doc comment'''))
# sqlite
m('db-has-methods', (DB, '''	if db.updateOnAccess {
		const q = `UPDATE hashes SET unix_secs = $1 WHERE hash = $2`
		now := db.clk.Now()
		res, err := db.db.ExecContext(ctx, q, now.Unix(), h)
		if err != nil {
			return false, errors.Wrap(err, "updating database")
		}
		aff, err := res.RowsAffected()
		return aff > 0, errors.Wrap(err, "counting affected rows")
	}

	const q = `SELECT COUNT(*) FROM hashes WHERE hash = $1`
	var count int
	err := db.db.QueryRowContext(ctx, q, h).Scan(&count)
	if err != nil {
		return false, errors.Wrap(err, "querying database")
	}
	return count > 0, nil
}
''', '''	count := db.count
	if db.updateOnAccess {
		count = db.touch
	}
	n, err := count(ctx, h)
	if err != nil {
		return false, err
	}
	return n != 0, nil
}

func (db *DB) touch(ctx context.Context, h []byte) (int64, error) {
	res, err := db.db.ExecContext(ctx, `UPDATE hashes SET unix_secs = $1 WHERE hash = $2`, db.clk.Now().Unix(), h)
	if err != nil {
		return 0, errors.Wrap(err, "updating database")
	}
	n, err := res.RowsAffected()
	return n, errors.Wrap(err, "counting affected rows")
}

func (db *DB) count(ctx context.Context, h []byte) (n int64, err error) {
	row := db.db.QueryRowContext(ctx, `SELECT COUNT(*) FROM hashes WHERE hash = $1`, h)
	err = row.Scan(&n)
	return n, errors.Wrap(err, "querying database")
}
'''))
m('db-add-exec', (DB, '''	now := db.clk.Now()
	_, err := db.db.ExecContext(ctx, q, h, now.Unix())
	if err != nil {
		return errors.Wrap(err, "adding hash to database")
	}
	if db.keep > 0 {
		const q2 = `DELETE FROM hashes WHERE unix_secs < $1`
		when := now.Add(-db.keep).Unix()
		_, err = db.db.ExecContext(ctx, q2, when)
		if err != nil {
			return errors.Wrap(err, "evicting expired database entries")
		}
	}
	return nil
}
''', '''	now := db.clk.Now()
	if err := db.exec(ctx, q, h, now.Unix()); err != nil {
		return errors.Wrap(err, "adding hash to database")
	}
	if db.keep <= 0 {
		return nil
	}
	const q2 = `DELETE FROM hashes WHERE unix_secs < $1`
	err := db.exec(ctx, q2, now.Add(-db.keep).Unix())
	return errors.Wrap(err, "evicting expired database entries")
}

func (db *DB) exec(ctx context.Context, query string, args ...any) error {
	_, err := db.db.ExecContext(ctx, query, args...)
	return err
}
'''))
# golang
m('go-deps-walk', (GO, '''	files := set.New[string]()
	for _, pkg := range pkgs {
		if pkg.Module == nil {
			continue
		}
		if err = gopkgAdd(pkg, pkg.Module.Path, files); err != nil {
			return nil, errors.Wrapf(err, "adding files from %s", pkg.PkgPath)
		}
	}

	slice := files.Slice()
	sort.Strings(slice)
	return slice, nil
}

func gopkgAdd(pkg *packages.Package, modpath string, files set.Of[string]) error {
	if pkg.Module == nil {
		return nil
	}
	if pkg.Module.Path != modpath {
		return nil
	}
	files.Add(pkg.GoFiles...)
	files.Add(pkg.CompiledGoFiles...)
	files.Add(pkg.OtherFiles...)
	files.Add(pkg.EmbedFiles...)
	for _, pattern := range pkg.EmbedPatterns {
		matches, err := filepath.Glob(pattern)
		if err != nil {
			return errors.Wrapf(err, "in pattern %s", pattern)
		}
		files.Add(matches...)
	}
''', '''	files := set.New[string]()
	for _, pkg := range pkgs {
		if pkg.Module != nil {
			if err = gopkgAdd(pkg, pkg.Module.Path, files); err != nil {
				return nil, errors.Wrapf(err, "adding files from %s", pkg.PkgPath)
			}
		}
	}
	return sorted(files), nil
}

func sorted(s set.Of[string]) []string {
	result := s.Slice()
	sort.Strings(result)
	return result
}

func gopkgAdd(pkg *packages.Package, modpath string, files set.Of[string]) error {
	if pkg.Module == nil || pkg.Module.Path != modpath {
		return nil
	}
	for _, list := range [][]string{pkg.GoFiles, pkg.CompiledGoFiles, pkg.OtherFiles, pkg.EmbedFiles} {
		files.Add(list...)
	}
	for _, pattern := range pkg.EmbedPatterns {
		matches, err := filepath.Glob(pattern)
		if err != nil {
			return errors.Wrapf(err, "in pattern %s", pattern)
		}
		for _, match := range matches {
			files.Add(match)
		}
	}
'''))
m('all-map', (AL, '''	targets, err := slices.Mapx(node.Content, func(idx int, n *yaml.Node) (Target, error) {
		target, err := con.YAMLTarget(n, dir)
		return target, errors.Wrapf(err, "child %d", idx)
	})
	if err != nil {
		return nil, errors.Wrap(err, "YAML error decoding All")
	}
	return All(targets...), nil
''', '''	targets, err := con.yamlTargets(node.Content, dir)
	if err != nil {
		return nil, errors.Wrap(err, "YAML error decoding All")
	}
	return All(targets...), nil
'''), (AL, '''func init() {''', '''func (con *Controller) yamlTargets(nodes []*yaml.Node, dir string) ([]Target, error) {
	return slices.Mapx(nodes, func(idx int, n *yaml.Node) (Target, error) {
		target, err := con.YAMLTarget(n, dir)
		if err != nil {
			return nil, errors.Wrapf(err, "child %d", idx)
		}
		return target, nil
	})
}

func init() {'''), (SQ, '''	targets, err := slices.Mapx(node.Content, func(idx int, n *yaml.Node) (Target, error) {
		target, err := con.YAMLTarget(n, dir)
		if err != nil {
			return nil, errors.Wrapf(err, "child %d", idx)
		}
		return target, nil
	})
''', '''	targets, err := con.yamlTargets(node.Content, dir)
'''), (SQ, '''	"github.com/bobg/go-generics/v2/slices"
''', ''), (DP, '''		depTargets, err := slices.Mapx(node.Content[1:], func(idx int, n *yaml.Node) (Target, error) {
			target, err := con.YAMLTarget(n, dir)
			return target, errors.Wrapf(err, "deptarget %d", idx)
		})
''', '''		depTargets, err := con.yamlTargets(node.Content[1:], dir)
'''))
m('deps-pre-nodes', (DP, '''			Pre  []yaml.Node `yaml:"Pre"`''', '''			Pre  []*yaml.Node `yaml:"Pre"`'''), (DP, '''		depTargets, err := slices.Mapx(d.Pre, func(idx int, n yaml.Node) (Target, error) {
			target, err := con.YAMLTarget(&n, dir)
			return target, errors.Wrapf(err, "deptarget %d", idx)
		})
		if err != nil {
			return nil, errors.Wrap(err, "YAML error in a Deps Pre target")
		}
''', '''		var depTargets []Target
		for i := range d.Pre {
			pre, err := con.YAMLTarget(d.Pre[i], dir)
			if err != nil {
				return nil, errors.Wrapf(err, "YAML error in Deps Pre target %d", i)
			}
			depTargets = append(depTargets, pre)
		}
'''))
m('argtarget-first', (AT, '''	target, err := con.YAMLTarget(node.Content[0], dir)
	if err != nil {
		return nil, errors.Wrap(err, "YAML error in target child of AllTarget node")
	}

	args, err := con.YAMLStringListFromNodes(node.Content[1:], dir)
	if err != nil {
		return nil, errors.Wrap(err, "YAML error in ArgTarget args")
	}
''', '''	first, rest := node.Content[0], node.Content[1:]

	args, err := con.YAMLStringListFromNodes(rest, dir)
	if err != nil {
		return nil, errors.Wrap(err, "YAML error in ArgTarget args")
	}

	target, err := con.YAMLTarget(first, dir)
	if err != nil {
		return nil, errors.Wrap(err, "YAML error in target child of AllTarget node")
	}
'''))
