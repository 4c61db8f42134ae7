# A fifth set of refactorings that keep the behaviour.
M = []
def m(name, *edits): M.append((name, '', list(edits)))
R, CO, K, N, FI, Y, CL, T, RG, CX = 'runner.go','command.go','compile.go','main.go','files.go','yaml.go','clean.go','types.go','register.go','context.go'
CT, DH, SQ, DP, GO, PR, DB, TS, TP, GA, CM, DT, RY, AT, AL = 'controller.go','dirhash.go','seq.go','deps.go','golang/go.go','proto/proto.go','sqlite/db.go','ts/tsdecls.go','top.go','gate.go','cmd/fab/main.go','driver.go.tmpl','registry.go','argtarg.go','all.go'

# runner
m('run-single', (R, '''	for i, target := range targets {
		i, target := i, target // Go loop-var pitfall

		if d, ok''', '''	for i := 0; i < len(targets); i++ {
		i := i
		target := targets[i]

		if d, ok'''))
m('run-addr-helper', (R, '''		if d, ok := target.(*deferredResolutionTarget); ok {
			// Short-circuit here to avoid some confusing extra output in verbose mode.
			// This must precede the call to targetAddr below:
			// the identity that counts is that of the resolved target.
			var err error
			target, err = d.resolve(con)
			if err != nil {
				errs[i] = err
				continue
			}
		}

		addr, err := targetAddr(target)
		if err != nil {
			errs[i] = err
			continue
		}
''', '''		target, addr, err := con.identify(target)
		if err != nil {
			errs[i] = err
			continue
		}
'''), (R, '''// Indentf formats''', '''func (con *Controller) identify(target Target) (Target, targetID, error) {
	if d, ok := target.(*deferredResolutionTarget); ok {
		resolved, err := d.resolve(con)
		if err != nil {
			return nil, targetID{}, err
		}
		target = resolved
	}
	addr, err := targetAddr(target)
	return target, addr, err
}

// Indentf formats'''))
m('run-claim', (R, '''			con.mu.Lock()
			o, ok := con.ran[addr]
			if !ok {
				o = &outcome{g: newGate(false), target: target}
				con.ran[addr] = o
			}
			con.mu.Unlock()

			if ok {''', '''			o, ok := con.claim(addr, target)
			if ok {'''), (R, '''// Indentf formats''', '''func (con *Controller) claim(addr targetID, target Target) (*outcome, bool) {
	con.mu.Lock()
	defer con.mu.Unlock()

	if o, ok := con.ran[addr]; ok {
		return o, true
	}
	o := &outcome{
		g:      newGate(false),
		target: target,
	}
	con.ran[addr] = o
	return o, false
}

// Indentf formats'''))
m('run-finish', (R, '''				errs[i] = err
				o.err = err
				o.g.set(true)
			}
''', '''				o.finish(err)
				errs[i] = err
			}
'''), (R, '''// Indentf formats''', '''func (o *outcome) finish(err error) {
	o.err = err
	o.g.set(true)
}

// Indentf formats'''))
m('run-return-early', (R, '''				errs[i] = o.err
			} else {
''', '''				errs[i] = o.err
				return
			}
			{
'''))
m('run-wrap-nil', (R, '''				err := target.Run(ctx, con)
				if err != nil {
					err = errors.Wrapf(err, "running %s", con.Describe(target))
				}
				errs[i] = err
''', '''				var err error
				if runErr := target.Run(ctx, con); runErr != nil {
					err = errors.Wrapf(runErr, "running %s", con.Describe(target))
				}
				errs[i] = err
'''))
m('copier-index', (R, '''	for _, b := range buf {
		switch b {''', '''	for i := 0; i < len(buf); i++ {
		b := buf[i]
		switch b {'''))
m('copier-flushfirst', (R, '''	err := c.w.Flush()
	return n, err
''', '''	if err := c.w.Flush(); err != nil {
		return n, err
	}
	return n, nil
'''))
m('copier-if', (R, '''			if c.bol {
				_, err := c.w.WriteString(c.indent)
				if err != nil {
					return n, err
				}
			}
			c.bol = false
''', '''			if c.bol {
				if _, err := c.w.WriteString(c.indent); err != nil {
					return n, err
				}
				c.bol = false
			}
'''))
m('copier-char', (R, '''		default:
			if c.sawcr {
				if err := c.newline(); err != nil {
					return n, err
				}
			}
			if c.bol {
				_, err := c.w.WriteString(c.indent)
				if err != nil {
					return n, err
				}
			}
			c.bol = false
			if err := c.w.WriteByte(b); err != nil {
				return n, err
			}
		}
''', '''		default:
			if err := c.char(b); err != nil {
				return n, err
			}
		}
'''), (R, '''func (c *indentingCopier) newline() error {''', '''func (c *indentingCopier) char(b byte) error {
	if c.sawcr {
		if err := c.newline(); err != nil {
			return err
		}
	}
	if c.bol {
		if _, err := c.w.WriteString(c.indent); err != nil {
			return err
		}
	}
	c.bol = false
	return c.w.WriteByte(b)
}

func (c *indentingCopier) newline() error {'''))
# gate
m('gate-defer', (GA, '''	g.c.L.Lock()
	for !g.open {
		g.c.Wait()
	}
	g.c.L.Unlock()
''', '''	g.c.L.Lock()
	defer g.c.L.Unlock()
	for !g.open {
		g.c.Wait()
	}
'''), (GA, '''	g.c.L.Lock()
	wasOpen := g.open
	g.open = open
	if open && !wasOpen {
		g.c.Broadcast()
	}
	g.c.L.Unlock()
''', '''	g.c.L.Lock()
	defer g.c.L.Unlock()
	g.open = open
	if g.open {
		g.c.Broadcast()
	}
'''))
# registry
m('reg-generic-helper', (RY, '''	r.mu.Lock()
	r.items[name] = val
	r.mu.Unlock()
''', '''	r.locked(func() { r.items[name] = val })
'''), (RY, '''func (r *registry[T]) lookup''', '''func (r *registry[T]) locked(f func()) {
	r.mu.Lock()
	defer r.mu.Unlock()
	f()
}

func (r *registry[T]) lookup'''))
m('reg-tuple-method', (RG, '''	tuple := targetRegistryTuple{target: target, name: name, doc: doc}

	con.mu.Lock()
	con.targetsByName[name] = tuple
	con.targetsByAddr[addr] = tuple
	con.mu.Unlock()

	return target, nil
''', '''	con.register(addr, targetRegistryTuple{target: target, name: name, doc: doc})
	return target, nil
'''), (RG, '''// The identity of a target.''', '''func (con *Controller) register(addr targetID, tuple targetRegistryTuple) {
	con.mu.Lock()
	defer con.mu.Unlock()
	con.targetsByName[tuple.name] = tuple
	con.targetsByAddr[addr] = tuple
}

// The identity of a target.'''))
m('describe-early', (RG, '''	addr, err := targetAddr(target)
	if err == nil { // sic
		con.mu.Lock()
		tuple, ok := con.targetsByAddr[addr]
		con.mu.Unlock()
		if ok {
			return tuple.name
		}
	}

	return "unnamed " + target.Desc()
''', '''	if name, ok := con.nameOf(target); ok {
		return name
	}
	return fmt.Sprintf("unnamed %s", target.Desc())
'''), (RG, '''// Describe describes a target.''', '''func (con *Controller) nameOf(target Target) (string, bool) {
	addr, err := targetAddr(target)
	if err != nil {
		return "", false
	}
	con.mu.Lock()
	defer con.mu.Unlock()
	tuple, ok := con.targetsByAddr[addr]
	return tuple.name, ok
}

// Describe describes a target.'''))
m('names-loop', (RG, '''	con.mu.Lock()
	keys := maps.Keys(con.targetsByName)
	con.mu.Unlock()
	sort.Strings(keys)
	return keys
''', '''	var names []string
	con.mu.Lock()
	for name := range con.targetsByName {
		names = append(names, name)
	}
	con.mu.Unlock()
	sort.Strings(names)
	return names
'''), (RG, '''
	"github.com/bobg/go-generics/v2/maps"
''', ''))
m('addr-type', (RG, '''	return targetID{typ: v.Type(), addr: uintptr(v.UnsafePointer())}, nil
''', '''	var id targetID
	id.typ = reflect.TypeOf(target)
	id.addr = v.Pointer()
	return id, nil
'''))
# controller
m('parse-lookup', (CT, '''		for _, arg := range args {
			if target, _ := con.RegistryTarget(arg); target != nil {
				targets = append(targets, target)
			} else {
				unknown = append(unknown, arg)
			}
		}
''', '''		for i := range args {
			target, _ := con.RegistryTarget(args[i])
			if target == nil {
				unknown = append(unknown, args[i])
				continue
			}
			targets = append(targets, target)
		}
'''))
m('parse-isflag', (CT, '''	if len(args) > 1 && strings.HasPrefix(args[1], "-") {''', '''	hasFlags := false
	if len(args) > 1 {
		hasFlags = strings.HasPrefix(args[1], "-")
	}
	if hasFlags {'''))
m('join-split', (CT, '''	for i := len(elts) - 1; i >= 0; i-- {
		if filepath.IsAbs(elts[i]) {
			return filepath.Join(elts[i:]...)
		}
	}
''', '''	last := -1
	for i, elt := range elts {
		if filepath.IsAbs(elt) {
			last = i
		}
	}
	if last >= 0 {
		return filepath.Join(elts[last:]...)
	}
'''))
m('join-append', (CT, '''	args := make([]string, 1, 1+len(elts))
	args[0] = con.topdir
	args = append(args, elts...)
	return filepath.Join(args...)
''', '''	return filepath.Join(append([]string{con.topdir}, elts...)...)
'''))
m('parse-unknown-fn', (CT, '''	switch len(unknown) {
	case 0:
		return targets, nil
	case 1:
		return nil, fmt.Errorf("unknown target %s", unknown[0])
	default:
		return nil, fmt.Errorf("unknown targets: %s", strings.Join(unknown, " "))
	}
''', '''	if len(unknown) > 0 {
		return nil, unknownTargets(unknown)
	}
	return targets, nil
'''), (CT, '''// ListTargets outputs''', '''func unknownTargets(names []string) error {
	if len(names) == 1 {
		return fmt.Errorf("unknown target %s", names[0])
	}
	return fmt.Errorf("unknown targets: %s", strings.Join(names, " "))
}

// ListTargets outputs'''))
# clean
m('clean-collect', (CL, '''	files := append([]string(nil), c.Files...) // a copy, since it gets sorted below
	if c.Autoclean {
		autocleanMu.Lock()
		autocleanFiles := autocleanRegistry.Slice()
		files = append(files, autocleanFiles...)
		autocleanMu.Unlock()
	}
	sort.Strings(files)
''', '''	files := c.collect()
'''), (CL, '''// Desc implements Target.Desc.
func (*Clean)''', '''func (c *Clean) collect() []string {
	files := make([]string, len(c.Files))
	copy(files, c.Files)
	if c.Autoclean {
		autocleanMu.Lock()
		defer autocleanMu.Unlock()
		files = append(files, autocleanRegistry.Slice()...)
	}
	sort.Strings(files)
	return files
}

// Desc implements Target.Desc.
func (*Clean)'''))
m('clean-continue', (CL, '''		err := os.Remove(f)
		if errors.Is(err, fs.ErrNotExist) {
			continue
		}
		if err != nil {
			return errors.Wrapf(err, "removing %s", f)
		}
''', '''		if err := os.Remove(f); err != nil && !errors.Is(err, fs.ErrNotExist) {
			return errors.Wrapf(err, "removing %s", f)
		}
'''))
m('clean-dry-switch', (CL, '''	if GetDryRun(ctx) {
		if GetVerbose(ctx) {
			con.Indentf("  would remove %v", files)
		}
		return nil
	}
	if GetVerbose(ctx) {
		con.Indentf("  removing %v", files)
	}
''', '''	dry := GetDryRun(ctx)
	if GetVerbose(ctx) {
		verb := "removing"
		if dry {
			verb = "would remove"
		}
		con.Indentf("  %s %v", verb, files)
	}
	if dry {
		return nil
	}
'''))
# files
m('files-prereq-map', (FI, '''	for _, in := range ft.In {
		// A target that updates one of its own inputs must not wait for itself.
		if target := findInFilesRegistry(in); target != nil && target != ft {
			prereqs = append(prereqs, target)
		}
	}

	if len(prereqs) == 0 {
		return nil
	}
	return con.Run(ctx, prereqs...)
''', '''	for i := range ft.In {
		target := findInFilesRegistry(ft.In[i])
		if target == nil || target == ft {
			continue
		}
		prereqs = append(prereqs, target)
	}

	if len(prereqs) > 0 {
		return con.Run(ctx, prereqs...)
	}
	return nil
'''))
m('files-opts-last', (FI, '''	for _, opt := range opts {
		opt(result)
	}

	for _, o := range out {
		filesRegistry.add(o, result)
	}
''', '''	for i := range result.Out {
		filesRegistry.add(result.Out[i], result)
	}

	for i := range opts {
		opts[i](result)
	}
'''))
m('files-record', (FI, '''	if db == nil || GetDryRun(ctx) {
		return nil
	}

	h, err := ft.computeHash(con)
	if err != nil {
		return errors.Wrap(err, "computing hash after running subtarget")
	}
	err = db.Add(ctx, h)
	return errors.Wrap(err, "adding hash to db")
}
''', '''	return ft.record(ctx, con, db)
}

func (ft *files) record(ctx context.Context, con *Controller, db HashDB) error {
	if db == nil {
		return nil
	}
	if GetDryRun(ctx) {
		return nil
	}
	h, err := ft.computeHash(con)
	if err != nil {
		return errors.Wrap(err, "computing hash after running subtarget")
	}
	if err = db.Add(ctx, h); err != nil {
		return errors.Wrap(err, "adding hash to db")
	}
	return nil
}
'''))
m('files-walk', (FI, '''		subitems := slices.Map(entries, func(s os.DirEntry) string { return filepath.Join(item, s.Name()) })
		return fileHashesHelper(subitems, hashes)
''', '''		for _, entry := range entries {
			if err := fileHashesItemHelper(filepath.Join(item, entry.Name()), hashes); err != nil {
				return err
			}
		}
		return nil
'''), (FI, '''	"github.com/bobg/go-generics/v2/slices"
''', ''))
m('files-hash-hex', (FI, '''	h := hasher.Sum(nil)
	return hex.EncodeToString(h), nil
''', '''	return fmt.Sprintf("%x", hasher.Sum(nil)), nil
'''), (FI, '''	"encoding/hex"
''', ''))
m('files-both', (FI, '''	inHashes, err := fileHashes(ft.In)
	if err != nil {
		return nil, errors.Wrapf(err, "computing input hash(es) for %s", con.Describe(ft))
	}
	outHashes, err := fileHashes(ft.Out)
	if err != nil {
		return nil, errors.Wrapf(err, "computing output hash(es) for %s", con.Describe(ft))
	}
	// References by name must be resolved before encoding,
	// so that the hash is the same before and after running the subtarget,
	// and so that it reflects the definitions of the targets referred to.
	if err := resolveReferences(con, ft.Target, nil); err != nil {
		return nil, errors.Wrapf(err, "resolving subtarget of %s", con.Describe(ft))
	}
''', '''	if err := resolveReferences(con, ft.Target, nil); err != nil {
		return nil, errors.Wrapf(err, "resolving subtarget of %s", con.Describe(ft))
	}
	inHashes, outHashes, err := ft.hashBoth()
	if err != nil {
		return nil, errors.Wrapf(err, "computing file hash(es) for %s", con.Describe(ft))
	}
'''), (FI, '''// Resolves the references by name''', '''func (ft *files) hashBoth() (in, out []string, err error) {
	if in, err = fileHashes(ft.In); err != nil {
		return nil, nil, err
	}
	if out, err = fileHashes(ft.Out); err != nil {
		return nil, nil, err
	}
	return in, out, nil
}

// Resolves the references by name'''))
m('files-find-parent', (FI, '''	for {
		if target, ok := filesRegistry.lookup(name); ok {
			return target
		}

		dir := filepath.Dir(name)
		switch dir {
		case "", ".", "/", name:
			return nil
		}
		name = dir
	}
''', '''	target, ok := filesRegistry.lookup(name)
	for !ok {
		dir := filepath.Dir(name)
		if dir == "" || dir == "." || dir == "/" || dir == name {
			return nil
		}
		name = dir
		target, ok = filesRegistry.lookup(name)
	}
	return target
'''))
m('files-autoclean-addall', (FI, '''		autocleanMu.Lock()
		for _, file := range f.Out {
			autocleanRegistry.Add(file)
		}
		autocleanMu.Unlock()
''', '''		autocleanMu.Lock()
		defer autocleanMu.Unlock()
		autocleanRegistry.Add(f.Out...)
'''))
m('glob-helper', (FI, '''	var result []string
	for _, pattern := range patterns {
		matches, err := fs.Glob(fsys, pattern)
		if err != nil {
			return nil, errors.Wrap(err, "in Glob pattern")
		}
		result = append(result, matches...)
	}

	return result, nil
''', '''	return globAll(fsys, patterns)
'''), (FI, '''func init() {''', '''func globAll(fsys fs.FS, patterns []string) (result []string, err error) {
	for i := 0; i < len(patterns); i++ {
		matches, err := fs.Glob(fsys, patterns[i])
		if err != nil {
			return nil, errors.Wrapf(err, "in Glob pattern %s", patterns[i])
		}
		for _, match := range matches {
			result = append(result, match)
		}
	}
	return result, nil
}

func init() {'''))
# command
m('cmd-shellname', (CO, '''	var (
		cmdname = c.Cmd
		args    = c.Args
	)
	if cmdname == "" {
		if cmdname = os.Getenv("SHELL"); cmdname == "" {
			cmdname = "/bin/sh"
		}
		args = []string{"-c", c.Shell}
	}

	cmd := exec.CommandContext(ctx, cmdname, args...)
''', '''	var cmd *exec.Cmd
	if c.Cmd != "" {
		cmd = exec.CommandContext(ctx, c.Cmd, c.Args...)
	} else {
		cmd = exec.CommandContext(ctx, shellName(), "-c", c.Shell)
	}
'''), (CO, '''// Desc implements Target.Desc.
func (*Command)''', '''func shellName() string {
	if shell := os.Getenv("SHELL"); shell != "" {
		return shell
	}
	return "/bin/sh"
}

// Desc implements Target.Desc.
func (*Command)'''))
m('cmd-trim', (CO, '''	if stdoutAppend {
		stdoutFile = strings.TrimLeft(stdoutFile, "> ")
	}
	if stderrAppend {
		stderrFile = strings.TrimLeft(stderrFile, "> ")
	}
''', '''	stdoutFile = bareName(stdoutFile)
	stderrFile = bareName(stderrFile)
'''), (CO, '''// Desc implements Target.Desc.
func (*Command)''', '''func bareName(name string) string {
	if strings.HasPrefix(name, ">>") {
		return strings.TrimLeft(name, "> ")
	}
	return name
}

// Desc implements Target.Desc.
func (*Command)'''))
m('cmd-openfile', (CO, '''		if stdoutAppend {
			f, openErr := os.OpenFile(stdoutFile, os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0644)
			if openErr != nil {
				return errors.Wrapf(openErr, "opening %s for appending", stdoutFile)
			}
			defer func() {
				closeErr := f.Close()
				if err == nil {
					err = errors.Wrapf(closeErr, "closing stdout file %s", stdoutFile)
				}
			}()
			cmd.Stdout = f
		} else {
			f, openErr := os.Create(stdoutFile)
			if openErr != nil {
				return errors.Wrapf(openErr, "opening %s for writing", stdoutFile)
			}
			defer func() {
				closeErr := f.Close()
				if err == nil {
					err = errors.Wrapf(closeErr, "closing stdout file %s", stdoutFile)
				}
			}()
			cmd.Stdout = f
		}
''', '''		flags := os.O_WRONLY | os.O_CREATE
		if stdoutAppend {
			flags |= os.O_APPEND
		} else {
			flags |= os.O_TRUNC
		}
		f, openErr := os.OpenFile(stdoutFile, flags, 0644)
		if openErr != nil {
			return errors.Wrapf(openErr, "opening %s", stdoutFile)
		}
		defer func() {
			closeErr := f.Close()
			if err == nil {
				err = errors.Wrapf(closeErr, "closing stdout file %s", stdoutFile)
			}
		}()
		cmd.Stdout = f
'''))
m('cmd-verbose-switch', (CO, '''	if GetVerbose(ctx) {
		if cmd.Stdout == nil {
			cmd.Stdout = con.IndentingCopier(os.Stdout, "    ")
		}
		if cmd.Stderr == nil {
			cmd.Stderr = con.IndentingCopier(os.Stderr, "    ")
		}
		con.Indentf("  Running command %s", cmd)
	} else {
		if cmd.Stdout == nil {
			cmd.Stdout = &buf
		}
		if cmd.Stderr == nil {
			cmd.Stderr = &buf
		}
	}
''', '''	verbose := GetVerbose(ctx)
	if cmd.Stdout == nil {
		if verbose {
			cmd.Stdout = con.IndentingCopier(os.Stdout, "    ")
		} else {
			cmd.Stdout = &buf
		}
	}
	if cmd.Stderr == nil {
		if verbose {
			cmd.Stderr = con.IndentingCopier(os.Stderr, "    ")
		} else {
			cmd.Stderr = &buf
		}
	}
	if verbose {
		con.Indentf("  Running command %s", cmd)
	}
'''))
m('cmd-stdin-first', (CO, '''	cmd.Stdin = c.Stdin
	if c.StdinFile != "" {
		f, err := os.Open(c.StdinFile)
		if err != nil {
			return errors.Wrapf(err, "opening %s", c.StdinFile)
		}
		defer f.Close()
		cmd.Stdin = f
	}

''', ''), (CO, '''	cmd.Stdout, cmd.Stderr = c.Stdout, c.Stderr
''', '''	if c.StdinFile == "" {
		cmd.Stdin = c.Stdin
	} else {
		in, openErr := os.Open(c.StdinFile)
		if openErr != nil {
			return errors.Wrapf(openErr, "opening %s", c.StdinFile)
		}
		defer in.Close()
		cmd.Stdin = in
	}

	cmd.Stdout, cmd.Stderr = c.Stdout, c.Stderr
'''))
m('cmd-err-early', (CO, '''	err = cmd.Run()
	if err != nil && buf.Len() > 0 {
		err = CommandErr{
			Err:    err,
			Output: buf.Bytes(),
		}
	}
	return err
''', '''	if err = cmd.Run(); err == nil {
		return nil
	}
	if out := buf.Bytes(); len(out) > 0 {
		return CommandErr{Err: err, Output: out}
	}
	return err
'''))
m('cmd-dec-shellhelper', (CO, '''	var shell string
	switch c.Shell.Kind {
	case 0:
		// Do nothing

	case yaml.ScalarNode:
		if tag := normalizeTag(c.Shell.Tag); tag != "" {
			return nil, fmt.Errorf("cannot use a scalar with tag !%s as Command.Shell", tag)
		}
		shell = c.Shell.Value

	default:
		return nil, errors.Wrap(BadYAMLNodeKindError{Got: c.Shell.Kind, Want: yaml.ScalarNode}, "in Command.Shell node")
	}

	return c.toTarget(con, shell, dir, args, env, false), nil
''', '''	shell, err := shellString(&c.Shell)
	if err != nil {
		return nil, err
	}
	return c.toTarget(con, shell, dir, args, env, false), nil
'''), (CO, '''type commandYAML struct {''', '''func shellString(node *yaml.Node) (string, error) {
	if node.Kind == 0 {
		return "", nil
	}
	if node.Kind != yaml.ScalarNode {
		return "", errors.Wrap(BadYAMLNodeKindError{Got: node.Kind, Want: yaml.ScalarNode}, "in Command.Shell node")
	}
	if tag := normalizeTag(node.Tag); tag != "" {
		return "", fmt.Errorf("cannot use a scalar with tag !%s as Command.Shell", tag)
	}
	return node.Value, nil
}

type commandYAML struct {'''))
m('cmd-redirect', (CO, '''	switch c.Stderr {
	case "$stdout":
		result.Stderr = os.Stdout

	case "$stderr":
		result.Stderr = os.Stderr

	case "$discard":
		result.Stderr = io.Discard

	case "$indent":
		result.StderrFn = deferredIndent(os.Stderr)

	case "$verbose":
		result.StderrFn = maybeIndent(os.Stderr)

	case "":
		// do nothing

	default:
		result.StderrFile = outputFile(con, c.Stderr, dir, forceAppend)
	}
''', '''	if w, fn, ok := special(c.Stderr, os.Stderr); ok {
		result.Stderr, result.StderrFn = w, fn
	} else {
		result.StderrFile = outputFile(con, c.Stderr, dir, forceAppend)
	}
'''), (CO, '''// Resolves the name of an output file''', '''func special(name string, dest io.Writer) (w io.Writer, fn func(context.Context, *Controller) io.Writer, ok bool) {
	switch name {
	case "$stdout":
		return os.Stdout, nil, true
	case "$stderr":
		return os.Stderr, nil, true
	case "$discard":
		return io.Discard, nil, true
	case "$indent":
		return nil, deferredIndent(dest), true
	case "$verbose":
		return nil, maybeIndent(dest), true
	case "":
		return nil, nil, true
	}
	return nil, nil, false
}

// Resolves the name of an output file'''))
# yaml
m('y-target-scalar', (Y, '''	if node.Kind != yaml.ScalarNode {
		return nil, fmt.Errorf("untyped YAML target node")
	}

	qname := node.Value
	if strings.Contains(qname, "/") {
''', '''	if node.Kind != yaml.ScalarNode {
		return nil, fmt.Errorf("untyped YAML target node")
	}
	return con.reference(node, dir)
}

func (con *Controller) reference(node *yaml.Node, dir string) (Target, error) {
	qname := node.Value
	if strings.IndexByte(qname, '/') >= 0 {
'''))
m('y-doc', (Y, '''		var (
			name = nameNode.Value
			doc  = nameNode.HeadComment
		)
		if doc == "" {
			doc = nameNode.LineComment
		}
		doc = strings.TrimLeft(doc, "# ")
''', '''		name, doc := nameNode.Value, docOf(nameNode)
'''), (Y, '''// ReadYAMLFile calls ReadYAML''', '''func docOf(node *yaml.Node) string {
	doc := node.HeadComment
	if doc == "" {
		doc = node.LineComment
	}
	return strings.TrimLeft(doc, "# ")
}

// ReadYAMLFile calls ReadYAML'''))
m('y-dirdecl', (Y, '''			if decl.Kind != yaml.ScalarNode {
				return fmt.Errorf("_dir declaration value has kind %v, want %v", decl.Kind, yaml.ScalarNode)
			}
			if decl.Value != dir {
				return fmt.Errorf("_dir declaration %s does not match actual directory %s", decl.Value, dir)
			}
			sawDirDecl = true
			continue
''', '''			switch {
			case decl.Kind != yaml.ScalarNode:
				return fmt.Errorf("_dir declaration value has kind %v, want %v", decl.Kind, yaml.ScalarNode)
			case decl.Value != dir:
				return fmt.Errorf("_dir declaration %s does not match actual directory %s", decl.Value, dir)
			}
			sawDirDecl = true
			continue
'''))
m('y-strlist-nodes', (Y, '''	var result []string

	for _, node := range nodes {
		tag := normalizeTag(node.Tag)

		if tag == "" && node.Kind == yaml.ScalarNode {
			result = append(result, node.Value)
			continue
		}

		if tag == "" {
			return nil, BadYAMLNodeKindError{Got: node.Kind, Want: yaml.ScalarNode}
		}

		fn, ok := yamlStringListRegistry.lookup(tag)
		if !ok {
			return nil, UnknownStringListTagError{Tag: tag}
		}

		strs, err := fn(con, node, dir)
		if err != nil {
			return nil, err
		}
		result = append(result, strs...)
	}

	return result, nil
}
''', '''	var result []string

	for _, node := range nodes {
		strs, err := con.stringsOf(node, dir)
		if err != nil {
			return nil, err
		}
		result = append(result, strs...)
	}

	return result, nil
}

func (con *Controller) stringsOf(node *yaml.Node, dir string) ([]string, error) {
	tag := normalizeTag(node.Tag)
	if tag != "" {
		return con.taggedStrings(tag, node, dir)
	}
	if node.Kind != yaml.ScalarNode {
		return nil, BadYAMLNodeKindError{Got: node.Kind, Want: yaml.ScalarNode}
	}
	return []string{node.Value}, nil
}

func (con *Controller) taggedStrings(tag string, node *yaml.Node, dir string) ([]string, error) {
	fn, ok := yamlStringListRegistry.lookup(tag)
	if !ok {
		return nil, UnknownStringListTagError{Tag: tag}
	}
	return fn(con, node, dir)
}
'''))
m('y-filelist-inplace', (Y, '''	strs, err := con.YAMLStringList(node, dir)
	if err != nil {
		return nil, err
	}
	return slices.Map(strs, func(s string) string { return con.JoinPath(dir, s) }), nil
''', '''	strs, err := con.YAMLStringList(node, dir)
	return con.joinAll(strs, dir), err
'''), (Y, '''func normalizeTag''', '''func (con *Controller) joinAll(strs []string, dir string) []string {
	result := make([]string, 0, len(strs))
	for _, s := range strs {
		result = append(result, con.JoinPath(dir, s))
	}
	return result
}

func normalizeTag'''))
m('y-file-read', (Y, '''	con.mu.Lock()
	con.reading[rel]++
	con.mu.Unlock()
	defer func() {
		con.mu.Lock()
		con.reading[rel]--
		con.mu.Unlock()
	}()
''', '''	count := func(delta int) {
		con.mu.Lock()
		defer con.mu.Unlock()
		con.reading[rel] += delta
	}
	count(1)
	defer count(-1)
'''))
m('y-resolve-if', (Y, '''	if dt.Target == nil {
		target, _ := con.RegistryTarget(dt.Name)
		if target == nil {
			return nil, fmt.Errorf("cannot resolve target %s", dt.Name)
		}
		dt.Target = target
	}

	return dt.Target, nil
''', '''	if dt.Target != nil {
		return dt.Target, nil
	}
	if target, _ := con.RegistryTarget(dt.Name); target != nil {
		dt.Target = target
		return target, nil
	}
	return nil, fmt.Errorf("cannot resolve target %s", dt.Name)
'''))
# deps, seq, all, argtarg
m('deps-children', (DP, '''		depTargets, err := slices.Mapx(node.Content[1:], func(idx int, n *yaml.Node) (Target, error) {
			target, err := con.YAMLTarget(n, dir)
			return target, errors.Wrapf(err, "deptarget %d", idx)
		})
		if err != nil {
			return nil, errors.Wrap(err, "YAML error in child of Deps node")
		}
''', '''		var depTargets []Target
		for idx, n := range node.Content[1:] {
			depTarget, err := con.YAMLTarget(n, dir)
			if err != nil {
				return nil, errors.Wrapf(err, "YAML error in child of Deps node: deptarget %d", idx)
			}
			depTargets = append(depTargets, depTarget)
		}
'''))
m('deps-explicit', (DP, '''	return Seq(All(depTargets...), target)
''', '''	pre := All(depTargets...)
	return Seq([]Target{pre, target}...)
'''))
m('seq-last', (SQ, '''	for _, t := range s.Targets {
		if err := con.Run(ctx, t); err != nil {
			return err
		}
	}
	return nil
''', '''	var err error
	for i := 0; i < len(s.Targets) && err == nil; i++ {
		err = con.Run(ctx, s.Targets[i])
	}
	return err
'''))
m('args-inline', (AT, '''	ctx = WithArgs(ctx, a.Args...)
	return con.Run(ctx, a.Target)
''', '''	if err := con.Run(WithArgs(ctx, a.Args...), a.Target); err != nil {
		return err
	}
	return nil
'''))
m('args-split', (AT, '''	if len(node.Content) == 0 {
		return nil, fmt.Errorf("no child nodes")
	}
	target, err := con.YAMLTarget(node.Content[0], dir)
''', '''	children := node.Content
	if len(children) < 1 {
		return nil, fmt.Errorf("no child nodes")
	}
	first := children[0]
	target, err := con.YAMLTarget(first, dir)
'''))
# main
m('main-words', (N, '''	if m.Verbose {
		args = append(args, "-v")
	}
	if m.List {
		args = append(args, "-list")
	}
	if m.Force {
		args = append(args, "-f")
	}
	if m.DryRun {
		args = append(args, "-n")
	}
''', '''	for _, opt := range []struct {
		on   bool
		flag string
	}{
		{m.Verbose, "-v"},
		{m.List, "-list"},
		{m.Force, "-f"},
		{m.DryRun, "-n"},
	} {
		if opt.on {
			args = append(args, opt.flag)
		}
	}
'''))
m('main-driver-run', (N, '''	cmd := exec.CommandContext(ctx, driver, args...)
	cmd.Dir = m.Topdir
	cmd.Stdin, cmd.Stdout, cmd.Stderr = os.Stdin, os.Stdout, os.Stderr
	err = cmd.Run()
	return errors.Wrapf(err, "running %s %s", driver, strings.Join(args, " "))
}
''', '''	if err = m.runDriver(ctx, driver, args); err != nil {
		return errors.Wrapf(err, "running %s %s", driver, strings.Join(args, " "))
	}
	return nil
}

func (m *Main) runDriver(ctx context.Context, driver string, args []string) error {
	cmd := exec.CommandContext(ctx, driver, args...)
	cmd.Dir = m.Topdir
	cmd.Stdin = os.Stdin
	cmd.Stdout = os.Stdout
	cmd.Stderr = os.Stderr
	return cmd.Run()
}
'''))
m('main-context', (N, '''	ctx = WithVerbose(ctx, m.Verbose)
	ctx = WithForce(ctx, m.Force)
	ctx = WithDryRun(ctx, m.DryRun)

	db, err''', '''	ctx = m.options(ctx)

	db, err'''), (N, '''var bolRegex''', '''func (m *Main) options(ctx context.Context) context.Context {
	return WithDryRun(WithForce(WithVerbose(ctx, m.Verbose), m.Force), m.DryRun)
}

var bolRegex'''))
m('main-parse-before', (N, '''	targets, err := con.ParseArgs(m.Args)
	if err != nil {
		return errors.Wrap(err, "parsing args")
	}

	return con.Run(ctx, targets...)
''', '''	return con.Run(ctx, targets...)
'''), (N, '''	ctx = WithVerbose(ctx, m.Verbose)
''', '''	targets, err := con.ParseArgs(m.Args)
	if err != nil {
		return errors.Wrap(err, "parsing args")
	}

	ctx = WithVerbose(ctx, m.Verbose)
'''))
m('main-load-helper', (N, '''	pkgs, err := packages.Load(config, ".")
	if errors.Is(err, fs.ErrNotExist) {
		return "", errNoDriver
	}
	if err != nil {
		return "", errors.Wrapf(err, "loading %s", pkgdir)
	}
	if len(pkgs) == 0 {
		return "", errNoDriver
	}
	if len(pkgs) != 1 {
		return "", fmt.Errorf(
			"loaded %d packages in %s, want 1 %v",
			len(pkgs),
			pkgdir,
			slices.Map(pkgs, func(p *packages.Package) string { return p.PkgPath }),
		)
	}
	pkg := pkgs[0]
	if len(pkg.Errors) > 0 {
		err = nil
		for _, e := range pkg.Errors {
			err = errors.Join(err, e)
		}
		return "", errors.Wrapf(err, "loading package %s", pkg.Name)
	}
''', '''	pkg, err := loadOne(config, pkgdir)
	if err != nil {
		return "", err
	}
'''), (N, '''func (m *Main) checkVersion(''', '''func loadOne(config *packages.Config, pkgdir string) (*packages.Package, error) {
	pkgs, err := packages.Load(config, ".")
	switch {
	case errors.Is(err, fs.ErrNotExist):
		return nil, errNoDriver
	case err != nil:
		return nil, errors.Wrapf(err, "loading %s", pkgdir)
	case len(pkgs) == 0:
		return nil, errNoDriver
	case len(pkgs) > 1:
		return nil, fmt.Errorf(
			"loaded %d packages in %s, want 1 %v",
			len(pkgs),
			pkgdir,
			slices.Map(pkgs, func(p *packages.Package) string { return p.PkgPath }),
		)
	}
	pkg := pkgs[0]
	if len(pkg.Errors) == 0 {
		return pkg, nil
	}
	var errs error
	for i := range pkg.Errors {
		errs = errors.Join(errs, pkg.Errors[i])
	}
	return nil, errors.Wrapf(errs, "loading package %s", pkg.Name)
}

func (m *Main) checkVersion('''))
m('main-hash-helper', (N, '''	dh := newDirHasher()
	for _, filename := range pkg.GoFiles { // TODO: is this the right set of files?
		if err = addFileToHash(dh, filename); err != nil {
			return "", errors.Wrapf(err, "hashing file %s", filename)
		}
	}
	newhash, err := dh.hash()
	if err != nil {
		return "", errors.Wrapf(err, "computing hash of directory %s", pkgdir)
	}
''', '''	newhash, err := hashPackage(pkg)
	if err != nil {
		return "", errors.Wrapf(err, "computing hash of directory %s", pkgdir)
	}
'''), (N, '''func (m *Main) checkVersion(''', '''func hashPackage(pkg *packages.Package) (string, error) {
	dh := newDirHasher()
	for i := 0; i < len(pkg.GoFiles); i++ {
		if err := addFileToHash(dh, pkg.GoFiles[i]); err != nil {
			return "", errors.Wrapf(err, "hashing file %s", pkg.GoFiles[i])
		}
	}
	return dh.hash()
}

func (m *Main) checkVersion('''))
m('main-need-compile', (N, '''	if !compile {
		if newhash == string(oldhash) {
			if m.Verbose {
				fmt.Println("Using existing driver")
			}
		} else {
			compile = true
			if m.Verbose {
				fmt.Println("Recompiling driver")
			}
		}
	}

	if !compile {
		return driver, nil
	}
''', '''	if !compile && newhash == string(oldhash) {
		m.say("Using existing driver")
		return driver, nil
	}
	if !compile {
		m.say("Recompiling driver")
	}
'''), (N, '''func (m *Main) checkVersion(''', '''func (m *Main) say(msg string) {
	if m.Verbose {
		fmt.Println(msg)
	}
}

func (m *Main) checkVersion('''))
m('main-version-file', (N, '''	if buildInfo != nil {
		v, openErr := os.OpenFile(versionfile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
		if openErr != nil {
			return "", errors.Wrapf(openErr, "opening %s for writing", versionfile)
		}
		defer func() {
			closeErr := v.Close()
			if err == nil {
				err = errors.Wrapf(closeErr, "closing %s", versionfile)
			}
		}()
		enc := json.NewEncoder(v)
		enc.SetIndent("", "  ")
		if err = enc.Encode(buildInfo); err != nil {
			return "", errors.Wrap(err, "encoding build info")
		}
	}
''', '''	if buildInfo != nil {
		if err = writeVersion(versionfile, buildInfo); err != nil {
			return "", err
		}
	}
'''), (N, '''func (m *Main) checkVersion(''', '''func writeVersion(versionfile string, info *debug.BuildInfo) error {
	v, err := os.Create(versionfile)
	if err != nil {
		return errors.Wrapf(err, "opening %s for writing", versionfile)
	}
	enc := json.NewEncoder(v)
	enc.SetIndent("", "  ")
	if err = enc.Encode(info); err != nil {
		v.Close()
		return errors.Wrap(err, "encoding build info")
	}
	return errors.Wrapf(v.Close(), "closing %s", versionfile)
}

func (m *Main) checkVersion('''))
m('main-version-marshal', (N, '''	var (
		dec     = json.NewDecoder(f)
		oldInfo debug.BuildInfo
	)

	if err = dec.Decode(&oldInfo); err != nil {''', '''	oldInfo := new(debug.BuildInfo)
	if err = json.NewDecoder(f).Decode(oldInfo); err != nil {'''), (N, 'reflect.DeepEqual(*newInfo, oldInfo)', 'reflect.DeepEqual(newInfo, oldInfo)'))
m('main-abs', (N, '''	for _, dir := range []*string{&m.Topdir, &m.Fabdir} {
		abs, err := filepath.Abs(*dir)
		if err != nil {
			return errors.Wrapf(err, "making %s absolute", *dir)
		}
		*dir = abs
	}
''', '''	if err := makeAbs(&m.Topdir); err != nil {
		return err
	}
	if err := makeAbs(&m.Fabdir); err != nil {
		return err
	}
'''), (N, '''var errNoDriver =''', '''func makeAbs(dir *string) error {
	abs, err := filepath.Abs(*dir)
	if err != nil {
		return errors.Wrapf(err, "making %s absolute", *dir)
	}
	*dir = abs
	return nil
}

var errNoDriver ='''))
m('main-db', (N, '''	dbfile := filepath.Join(dir, "hash.db")
	db, err := sqlite.Open(dbfile, sqlite.Keep(30*24*time.Hour)) // keep db entries for 30 days
	return db, errors.Wrapf(err, "opening file %s", dbfile)
''', '''	const keep = 30 * 24 * time.Hour
	var (
		dbfile = filepath.Join(dir, "hash.db")
		opts   = []sqlite.Option{sqlite.Keep(keep)}
	)
	db, err := sqlite.Open(dbfile, opts...)
	if err != nil {
		return nil, errors.Wrapf(err, "opening file %s", dbfile)
	}
	return db, nil
'''))
# top
m('top-candidate', (TP, '''		info, err := os.Stat(filepath.Join(dir, "_fab"))
		if err == nil && info.IsDir() {
			return dir, nil
		}
		if err != nil && !errors.Is(err, fs.ErrNotExist) {
			return "", errors.Wrapf(err, "statting %s/_fab", dir)
		}

		result, err := topDirHelper(dir)
		if err != nil {
			return "", err
		}
		if result != "" {
			return result, nil
		}
''', '''		result, err := topDirAt(dir)
		if err != nil || result != "" {
			return result, err
		}
'''), (TP, '''func topDirHelper(''', '''func topDirAt(dir string) (string, error) {
	switch info, err := os.Stat(filepath.Join(dir, "_fab")); {
	case err == nil:
		if info.IsDir() {
			return dir, nil
		}
	case !errors.Is(err, fs.ErrNotExist):
		return "", errors.Wrapf(err, "statting %s/_fab", dir)
	}
	return topDirHelper(dir)
}

func topDirHelper('''))
# compile
m('compile-pkg-errors', (K, '''	if len(pkg.Errors) > 0 {
		var err error
		for _, e := range pkg.Errors {
			err = errors.Join(err, e)
		}
		return errors.Wrapf(err, "loading package %s", pkg.Name)
	}
''', '''	var loadErr error
	for _, e := range pkg.Errors {
		loadErr = errors.Join(loadErr, e)
	}
	if loadErr != nil {
		return errors.Wrapf(loadErr, "loading package %s", pkg.Name)
	}
'''))
m('compile-docs', (K, '''	for _, v := range vars {
		for _, name := range v.Names {
			if tp, ok := targets[name]; ok {
				dstr := string(pr.Text(parser.Parse(varDoc(v, name))))
				dstr = strings.TrimRight(dstr, "\\r\\n")
				tp.Doc = strconv.Quote(dstr)
			}
		}
	}
''', '''	format := func(text string) string {
		return strconv.Quote(strings.TrimRight(string(pr.Text(parser.Parse(text))), "\\r\\n"))
	}
	for _, v := range vars {
		for _, name := range v.Names {
			tp, ok := targets[name]
			if !ok {
				continue
			}
			tp.Doc = format(varDoc(v, name))
		}
	}
'''))
m('compile-copyall', (K, '''	for _, entry := range entries {
		if entry.IsDir() {
			continue
		}
		if strings.HasSuffix(entry.Name(), "_test.go") {
			continue
		}
		if !strings.HasSuffix(entry.Name(), ".go") {
			continue
		}
		if err = copyFile(filepath.Join(pkgdir, entry.Name()), subpkgdir); err != nil {
			return errors.Wrapf(err, "copying %s to tmp subdir", entry.Name())
		}
	}
''', '''	for _, entry := range entries {
		if !isSource(entry) {
			continue
		}
		name := entry.Name()
		if err = copyFile(filepath.Join(pkgdir, name), subpkgdir); err != nil {
			return errors.Wrapf(err, "copying %s to tmp subdir", name)
		}
	}
'''), (K, '''// Returns the doc comment for the variable''', '''func isSource(entry fs.DirEntry) bool {
	name := entry.Name()
	return !entry.IsDir() && filepath.Ext(name) == ".go" && !strings.HasSuffix(name, "_test.go")
}

// Returns the doc comment for the variable'''))
m('compile-driver-helper', (K, '''	driverOut, err := os.Create(filepath.Join(tmpdir, "driver.go"))
	if err != nil {
		return errors.Wrap(err, "creating driver.go in temp dir")
	}
	defer driverOut.Close()

	tmpl := template.New("")
	_, err = tmpl.Parse(driverStr)
	if err != nil {
		return errors.Wrap(err, "parsing driver template")
	}
	if err = tmpl.Execute(driverOut, data); err != nil {
		return errors.Wrap(err, "rendering driver.go template")
	}
	if err = driverOut.Close(); err != nil {
		return errors.Wrap(err, "closing driver.go")
	}
''', '''	if err = writeDriver(filepath.Join(tmpdir, "driver.go"), data); err != nil {
		return err
	}
'''), (K, '''// Returns the doc comment for the variable''', '''func writeDriver(filename string, data any) error {
	tmpl, err := template.New("").Parse(driverStr)
	if err != nil {
		return errors.Wrap(err, "parsing driver template")
	}

	f, err := os.Create(filename)
	if err != nil {
		return errors.Wrap(err, "creating driver.go in temp dir")
	}
	defer f.Close()

	if err = tmpl.Execute(f, data); err != nil {
		return errors.Wrap(err, "rendering driver.go template")
	}
	return errors.Wrap(f.Close(), "closing driver.go")
}

// Returns the doc comment for the variable'''))
m('compile-gocmd', (K, '''	cmd = exec.CommandContext(ctx, "go", "mod", "tidy")
	cmd.Dir = tmpdir
	output, err = cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("error in go mod tidy: %w; output follows\\n%s", err, string(output))
	}

	cmd = exec.CommandContext(ctx, "go", "build")
	cmd.Dir = tmpdir
	output, err = cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("error in go build: %w; output follows\\n%s", err, string(output))
	}
''', '''	for _, args := range [][]string{{"mod", "tidy"}, {"build"}} {
		cmd := exec.CommandContext(ctx, "go", args...)
		cmd.Dir = tmpdir
		if output, err := cmd.CombinedOutput(); err != nil {
			return fmt.Errorf("error in go %s: %w; output follows\\n%s", strings.Join(args, " "), err, string(output))
		}
	}
'''))
m('compile-embed-walk', (K, '''	for _, entry := range entries {
		if entry.IsDir() {
			err = populateFabSubdir(filepath.Join(destdir, entry.Name()), filepath.Join(subdir, entry.Name()))
			if err != nil {
				return errors.Wrapf(err, "populating dir %s", entry.Name())
			}
			continue
		}
		if strings.HasSuffix(entry.Name(), "_test.go") {
			continue
		}
		contents, err := embeds.ReadFile(filepath.Join(subdir, entry.Name()))
		if err != nil {
			return errors.Wrapf(err, "reading embedded file %s", entry.Name())
		}
		dest := filepath.Join(destdir, entry.Name())
		err = os.WriteFile(dest, contents, 0644)
		if err != nil {
			return errors.Wrapf(err, "writing %s", dest)
		}
	}
	return nil
}
''', '''	for _, entry := range entries {
		var (
			name = entry.Name()
			src  = filepath.Join(subdir, name)
			dest = filepath.Join(destdir, name)
		)
		switch {
		case entry.IsDir():
			if err := populateFabSubdir(dest, src); err != nil {
				return errors.Wrapf(err, "populating dir %s", name)
			}
		case strings.HasSuffix(name, "_test.go"):
			// skip
		default:
			if err := copyEmbedded(dest, src); err != nil {
				return err
			}
		}
	}
	return nil
}

func copyEmbedded(dest, src string) error {
	contents, err := embeds.ReadFile(src)
	if err != nil {
		return errors.Wrapf(err, "reading embedded file %s", src)
	}
	return errors.Wrapf(os.WriteFile(dest, contents, 0644), "writing %s", dest)
}
'''))
m('compile-copyfile', (K, '''	out, err := os.OpenFile(outfilename, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0644)
	if err != nil {
		return errors.Wrapf(err, "creating %s", outfilename)
	}
	defer out.Close()

	in, err := os.Open(filename)
	if err != nil {
		return errors.Wrapf(err, "opening %s", filename)
	}
	defer in.Close()

	if _, err''', '''	in, err := os.Open(filename)
	if err != nil {
		return errors.Wrapf(err, "opening %s", filename)
	}
	defer in.Close()

	out, err := os.OpenFile(outfilename, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0644)
	if err != nil {
		return errors.Wrapf(err, "creating %s", outfilename)
	}
	defer out.Close()

	if _, err'''))
m('compile-vardoc', (K, '''	for _, spec := range v.Decl.Specs {
		spec, ok := spec.(*ast.ValueSpec)
		if !ok || spec.Doc == nil {
			continue
		}
		for _, ident := range spec.Names {
			if ident.Name == name {
				return spec.Doc.Text()
			}
		}
	}
	return v.Doc
''', '''	for _, spec := range v.Decl.Specs {
		if spec, ok := spec.(*ast.ValueSpec); ok && spec.Doc != nil && declares(spec, name) {
			return spec.Doc.Text()
		}
	}
	return v.Doc
'''), (K, '''// LoadMode is''', '''func declares(spec *ast.ValueSpec, name string) bool {
	for _, ident := range spec.Names {
		if ident.Name == name {
			return true
		}
	}
	return false
}

// LoadMode is'''))
m('compile-istarget', (K, '''		if !ast.IsExported(ident) {
			continue
		}
		// Types and constants may implement Target but are not targets.
		obj, ok := scope.Lookup(ident).(*types.Var)
		if !ok {
			continue
		}
		if err := checkImplementsTarget(obj.Type()); err != nil {
			continue
		}
		targets[ident]''', '''		if !isTargetVar(scope.Lookup(ident)) {
			continue
		}
		targets[ident]'''), (K, '''// LoadMode is''', '''func isTargetVar(obj types.Object) bool {
	if !obj.Exported() {
		return false
	}
	v, ok := obj.(*types.Var)
	return ok && checkImplementsTarget(v.Type()) == nil
}

// LoadMode is'''))
# golang, proto, ts, sqlite, dirhash
m('go-binary-args', (GO, '''	args := append([]string{"build", "-C", dir, "-o", absOutfile}, flags...)
	args = append(args, ".")
	c := &fab.Command{
		Cmd:  "go",
		Args: args,
	}
	return fab.Files(c, deps''', '''	c := &fab.Command{Cmd: "go"}
	c.Args = append(c.Args, "build", "-C", dir, "-o", absOutfile)
	c.Args = append(c.Args, flags...)
	c.Args = append(c.Args, ".")
	return fab.Files(c, deps'''))
m('go-decoder', (GO, '''	out := b.Out
	if out == "" {
		var err error
		if out, err = defaultOutfile(con.JoinPath(dir, b.Dir)); err != nil {
			return nil, err
		}
	}

	flags, err := con.YAMLStringList(&b.Flags, dir)
	if err != nil {
		return nil, errors.Wrap(err, "YAML error decoding go.Binary.Flags")
	}

	return Binary(con.JoinPath(dir, b.Dir), con.JoinPath(dir, out), flags...)
''', '''	flags, err := con.YAMLStringList(&b.Flags, dir)
	if err != nil {
		return nil, errors.Wrap(err, "YAML error decoding go.Binary.Flags")
	}

	pkgdir := con.JoinPath(dir, b.Dir)
	if b.Out == "" {
		if b.Out, err = defaultOutfile(pkgdir); err != nil {
			return nil, err
		}
	}

	return Binary(pkgdir, con.JoinPath(dir, b.Out), flags...)
'''))
m('go-deps-add', (GO, '''	files.Add(pkg.GoFiles...)
	files.Add(pkg.CompiledGoFiles...)
	files.Add(pkg.OtherFiles...)
	files.Add(pkg.EmbedFiles...)
''', '''	for _, list := range [][]string{pkg.GoFiles, pkg.CompiledGoFiles, pkg.OtherFiles, pkg.EmbedFiles} {
		files.Add(list...)
	}
'''))
m('go-deps-module', (GO, '''	if pkg.Module == nil {
		return nil
	}
	if pkg.Module.Path != modpath {
		return nil
	}
	files.Add(pkg.GoFiles...)''', '''	if mod := pkg.Module; mod == nil || mod.Path != modpath {
		return nil
	}
	files.Add(pkg.GoFiles...)'''))
m('go-deps-pattern', (GO, '''	arg := "."
	if recursive {
		arg = "./..."
	}

	pkgs, err := packages.Load(config, arg)
''', '''	patterns := []string{"."}
	if recursive {
		patterns[0] = "./..."
	}

	pkgs, err := packages.Load(config, patterns...)
'''))
m('proto-import-open', (PR, '''	for _, inc := range includes {
		full := filepath.Join(inc, imp)

		if result.Has(full) {
			// The import refers to this file, not to one in a later include directory.
			return nil
		}

		f, err := os.Open(full)
		if errors.Is(err, fs.ErrNotExist) {
			continue
		}
		if err != nil {
			return errors.Wrapf(err, "opening %s", full)
		}
		defer f.Close()

		result.Add(full)
		return protodeps(f, includes, result)
	}
	return nil
''', '''	for _, inc := range includes {
		found, err := protodepsFile(filepath.Join(inc, imp), includes, result)
		if err != nil {
			return err
		}
		if found {
			break
		}
	}
	return nil
}

func protodepsFile(full string, includes []string, result set.Of[string]) (bool, error) {
	if result.Has(full) {
		return true, nil
	}

	f, err := os.Open(full)
	if errors.Is(err, fs.ErrNotExist) {
		return false, nil
	}
	if err != nil {
		return false, errors.Wrapf(err, "opening %s", full)
	}
	defer f.Close()

	result.Add(full)
	return true, protodeps(f, includes, result)
'''))
m('proto-scan-if', (PR, '''		m := importRegex.FindStringSubmatch(sc.Text())
		if len(m) == 0 {
			continue
		}
		if err := protodepsImport(m[2], includes, result); err != nil {
			return err
		}
''', '''		if m := importRegex.FindStringSubmatch(sc.Text()); m != nil {
			imp := m[2]
			if err := protodepsImport(imp, includes, result); err != nil {
				return err
			}
		}
'''))
m('proto-args', (PR, '''	args := slices.Map(includes, func(inc string) string { return "-I" + inc })
	args = append(args, otherOpts...)
	args = append(args, inputs...)
''', '''	args := make([]string, 0, len(includes)+len(otherOpts)+len(inputs))
	for _, inc := range includes {
		args = append(args, "-I"+inc)
	}
	args = append(append(args, otherOpts...), inputs...)
'''), (PR, '''	return slices.Mapx(deps, func(_ int, dep string) (string, error) { return filepath.Abs(dep) })
''', '''	for i := range deps {
		if deps[i], err = filepath.Abs(deps[i]); err != nil {
			return nil, err
		}
	}
	return deps, nil
'''), (PR, '''	"github.com/bobg/go-generics/v2/slices"
''', ''))
m('ts-run', (TS, '''	defer f.Close()

	if err = tsdecls.Write(f, t.Dir, t.Typename, t.Prefix); err != nil {
		return errors.Wrapf(err, "generating %s", t.Outfile)
	}
	return f.Close()
''', '''	err = tsdecls.Write(f, t.Dir, t.Typename, t.Prefix)
	if closeErr := f.Close(); err == nil {
		err = closeErr
	}
	return errors.Wrapf(err, "generating %s", t.Outfile)
'''))
m('db-add-split', (DB, '''	if db.keep > 0 {
		const q2''', '''	return db.evict(ctx, now)
}

func (db *DB) evict(ctx context.Context, now time.Time) error {
	if db.keep > 0 {
		const q2'''), (DB, '''		_, err = db.db.ExecContext(ctx, q2, when)
		if err != nil {''', '''		if _, err := db.db.ExecContext(ctx, q2, when); err != nil {'''))
m('db-has-bool', (DB, '''	if db.updateOnAccess {
		const q = `UPDATE''', '''	switch db.updateOnAccess {
	case true:
		const q = `UPDATE'''), (DB, '''		aff, err := res.RowsAffected()
		return aff > 0, errors.Wrap(err, "counting affected rows")
''', '''		aff, err := res.RowsAffected()
		if err != nil {
			return false, errors.Wrap(err, "counting affected rows")
		}
		return aff != 0, nil
'''))
m('dh-write', (DH, '''	h := hasher.Sum(nil)
	d.hashes[filepath.Base(name)] = h
	return nil
''', '''	d.add(filepath.Base(name), hasher.Sum(nil))
	return nil
'''), (DH, '''// hash computes the hash of the files''', '''func (d *dirHasher) add(base string, h []byte) {
	d.hashes[base] = h
}

// hash computes the hash of the files'''))
# context
m('ctx-generic', (CX, '''	val, _ := ctx.Value(dryrunKeyType{}).(bool)
	return val
''', '''	return boolValue(ctx, dryrunKeyType{})
'''), (CX, '''	val, _ := ctx.Value(forceKeyType{}).(bool)
	return val
''', '''	return boolValue(ctx, forceKeyType{})
'''), (CX, '''// WithForce decorates''', '''func boolValue(ctx context.Context, key any) bool {
	val, ok := ctx.Value(key).(bool)
	return ok && val
}

// WithForce decorates'''))
# types
m('types-recv', (T, '''	hasReceiver := skipReceiver && (sig.Recv() != nil)

	params := sig.Params()
	nParamsWithReceiver := params.Len()
	if hasReceiver {
		nParamsWithReceiver++
	}

	if nParamsWithReceiver != fn.NumIn() {
		return fmt.Errorf("parameter count %d != %d (with hasReceiver %v)", params.Len(), fn.NumIn(), hasReceiver)
	}
''', '''	var (
		params = sig.Params()
		offset int
	)
	if skipReceiver && sig.Recv() != nil {
		offset = 1
	}

	if params.Len()+offset != fn.NumIn() {
		return fmt.Errorf("parameter count %d != %d (with offset %d)", params.Len(), fn.NumIn(), offset)
	}
'''), (T, '''		j := i
		if hasReceiver {
			j++
		}
		sp, tp := params.At(i).Type(), fn.In(j)
		if err''', '''		sp, tp := params.At(i).Type(), fn.In(i+offset)
		if err'''))
m('types-method', (T, '''	for name, targetMethod := range targetMethods {
		m := methodSet.Lookup(nil, name) // TODO: understand whether/when the first arg needs to be supplied.
		if m == nil {
			return fmt.Errorf("%s not found in method set", name)
		}
		f, ok := m.Obj().(*types.Func)
		if !ok {
			return fmt.Errorf("%s is a %T, not a func", name, m.Obj())
		}
		sig, ok := f.Type().(*types.Signature)
		if !ok {
			return fmt.Errorf("the type of func %s is %T, not a signature", name, f.Type())
		}

		checker := typeChecker{seen: set.New[typeCheckerPair]()}

		if err := checker.checkSignaturesMatch(sig, targetMethod.Func.Type(), true); err != nil {
			return errors.Wrapf(err, "checking method %s", name)
		}
	}
	return nil
}
''', '''	for name, targetMethod := range targetMethods {
		if err := checkMethod(methodSet, name, targetMethod); err != nil {
			return errors.Wrapf(err, "checking method %s", name)
		}
	}
	return nil
}

func checkMethod(methodSet *types.MethodSet, name string, targetMethod reflect.Method) error {
	m := methodSet.Lookup(nil, name)
	if m == nil {
		return fmt.Errorf("%s not found in method set", name)
	}
	f, ok := m.Obj().(*types.Func)
	if !ok {
		return fmt.Errorf("%s is a %T, not a func", name, m.Obj())
	}
	sig, ok := f.Type().(*types.Signature)
	if !ok {
		return fmt.Errorf("the type of func %s is %T, not a signature", name, f.Type())
	}
	checker := typeChecker{seen: set.New[typeCheckerPair]()}
	return checker.checkSignaturesMatch(sig, targetMethod.Func.Type(), true)
}
'''))
m('types-named', (T, '''	if named, ok := t.(*types.Named); ok {
		var pkgpath string
		if pkg := named.Obj().Pkg(); pkg != nil {
			pkgpath = pkg.Path()
		}
		if named.Obj().Name() != r.Name() || pkgpath != r.PkgPath() {
			return fmt.Errorf("types %s and %s do not match", t, r)
		}
		return nil
	}
''', '''	if named, ok := t.(*types.Named); ok {
		return checkNamed(named, r)
	}
'''), (T, '''// TODO: Handle parameterized types.''', '''func checkNamed(named *types.Named, r reflect.Type) error {
	obj := named.Obj()
	pkgpath := ""
	if obj.Pkg() != nil {
		pkgpath = obj.Pkg().Path()
	}
	if obj.Name() == r.Name() && pkgpath == r.PkgPath() {
		return nil
	}
	return fmt.Errorf("types %s and %s do not match", named, r)
}

// TODO: Handle parameterized types.'''))
m('types-fields', (T, '''			v, f := t.Field(i), r.Field(i)
			if v.Name() != f.Name {
				return fmt.Errorf("field name %s != %s", v.Name(), f.Name)
			}
			if t.Tag(i) != string(f.Tag) {
				return fmt.Errorf("struct field tag mismatch in field %d", i)
			}
			if err = ch.checkTypesMatch(v.Type(), f.Type); err != nil {
				return errors.Wrapf(err, "checking field %d", i)
			}
		}
		return nil
''', '''			if err = ch.checkField(t, r, i); err != nil {
				return errors.Wrapf(err, "checking field %d", i)
			}
		}
		return nil
'''), (T, '''// TODO: Handle parameterized types.''', '''func (ch *typeChecker) checkField(t *types.Struct, r reflect.Type, i int) error {
	v, f := t.Field(i), r.Field(i)
	switch {
	case v.Name() != f.Name:
		return fmt.Errorf("field name %s != %s", v.Name(), f.Name)
	case t.Tag(i) != string(f.Tag):
		return fmt.Errorf("struct field tag mismatch in field %d", i)
	}
	return ch.checkTypesMatch(v.Type(), f.Type)
}

// TODO: Handle parameterized types.'''))
# driver, cmd
m('drv-list', (DT, '''	args := flag.Args()
	if len(args) == 0 && !list {
		fmt.Print("Specify one or more of the following targets:\\n\\n")
		list = true
	}

	if list {
		con.ListTargets(os.Stdout)
		return
	}
''', '''	args := flag.Args()
	if list || len(args) == 0 {
		if !list {
			fmt.Print("Specify one or more of the following targets:\\n\\n")
		}
		con.ListTargets(os.Stdout)
		return
	}
'''))
m('drv-register', (DT, '''	{{- range .Targets }}
	_, err = con.RegisterTarget("{{ .Name }}", {{ .Doc }}, subpkg.{{ .Name }})
	if err != nil {
		fmt.Printf("Error registering target {{ .Name }}: %s\\n", err)
		os.Exit(1)
	}
	{{- end }}
''', '''	register := func(name, doc string, target fab.Target) {
		if _, err := con.RegisterTarget(name, doc, target); err != nil {
			fmt.Printf("Error registering target %s: %s\\n", name, err)
			os.Exit(1)
		}
	}
	_ = register
	{{- range .Targets }}
	register("{{ .Name }}", {{ .Doc }}, subpkg.{{ .Name }})
	{{- end }}
'''))
m('drv-ctx', (DT, '''	ctx := context.Background()
	ctx = fab.WithVerbose(ctx, verbose)
	ctx = fab.WithForce(ctx, force)
	ctx = fab.WithDryRun(ctx, dryrun)

	con := fab.NewController(topdir)
''', '''	con := fab.NewController(topdir)
'''), (DT, '''	ctx = fab.WithHashDB(ctx, db)
''', '''
	ctx := fab.WithHashDB(context.Background(), db)
	ctx = fab.WithDryRun(ctx, dryrun)
	ctx = fab.WithForce(ctx, force)
	ctx = fab.WithVerbose(ctx, verbose)
'''))
m('cmd-fields', (CM, '''	m := fab.Main{
		Fabdir:  fabdir,
		Verbose: verbose,
		List:    list,
		Force:   force,
		DryRun:  dryrun,
		Args:    flag.Args(),
	}
	if err := m.Run(context.Background()); err != nil {
		fmt.Printf("Error: %s\\n", err)
		os.Exit(1)
	}
''', '''	m := new(fab.Main)
	m.Fabdir = fabdir
	m.Verbose, m.List, m.Force, m.DryRun = verbose, list, force, dryrun
	m.Args = flag.Args()
	err = m.Run(context.Background())
	if err == nil {
		return
	}
	fmt.Printf("Error: %s\\n", err)
	os.Exit(1)
'''))
m('cmd-flagptr', (CM, '''	flag.StringVar(&fabdir, "fab", filepath.Join(cacheDir, "fab"), "directory containing fab DB and compiled drivers")
	flag.BoolVar(&verbose, "v", false, "run verbosely")
''', '''	verboseFlag := flag.Bool("v", false, "run verbosely")
	flag.StringVar(&fabdir, "fab", filepath.Join(cacheDir, "fab"), "directory containing fab DB and compiled drivers")
'''), (CM, '''	m := fab.Main{
''', '''	verbose = *verboseFlag

	m := fab.Main{
'''))
m('cmd-cachedir', (CM, '''	cacheDir, err := os.UserCacheDir()
	if err != nil {
		home, err := os.UserHomeDir()
		if err != nil {
			fmt.Printf("Error getting home dir: %s\\n", err)
			os.Exit(1)
		}
		cacheDir = filepath.Join(home, ".cache")
	}
''', '''	cacheDir, err := userCacheDir()
	if err != nil {
		fmt.Printf("Error getting home dir: %s\\n", err)
		os.Exit(1)
	}
'''), (CM, '''func main() {''', '''func userCacheDir() (string, error) {
	if dir, err := os.UserCacheDir(); err == nil {
		return dir, nil
	}
	home, err := os.UserHomeDir()
	if err != nil {
		return "", err
	}
	return filepath.Join(home, ".cache"), nil
}

func main() {'''))
