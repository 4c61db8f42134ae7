M=[]
def m(name, *edits): M.append((name, '', list(edits)))
Y='yaml.go'; K='controller.go'; MN='main.go'; CP='compile.go'
# yaml
m('y-target-split',(Y,'''	if tag := normalizeTag(node.Tag); tag != "" {
		fn, ok := yamlTargetRegistry.lookup(tag)
		if !ok {
			return nil, fmt.Errorf("unknown YAML target type %s", tag)
		}
		return fn(con, node, dir)
	}

	if node.Kind != yaml.ScalarNode {
		return nil, fmt.Errorf("untyped YAML target node")
	}

	qname := node.Value
''','''	tag := normalizeTag(node.Tag)
	if tag == "" {
		return con.yamlTargetRef(node, dir)
	}
	if fn, ok := yamlTargetRegistry.lookup(tag); ok {
		return fn(con, node, dir)
	}
	return nil, fmt.Errorf("unknown YAML target type %s", tag)
}

// yamlTargetRef interprets a node without a tag, which is the name of a target.
func (con *Controller) yamlTargetRef(node *yaml.Node, dir string) (Target, error) {
	if node.Kind != yaml.ScalarNode {
		return nil, fmt.Errorf("untyped YAML target node")
	}

	qname := node.Value
'''))
m('y-target-early',(Y,'''	if strings.Contains(qname, "/") {
		qname = con.JoinPath(dir, qname)

		var err error
		qname, err = con.RelPath(qname)
		if err != nil {
			return nil, errors.Wrapf(err, "making %s related to topdir", node.Value)
		}

		if tdir := filepath.Dir(qname); tdir != "." {
			found, _ := con.RegistryTarget(qname)
			if found != nil {
				return found, nil
			}

			con.mu.Lock()
			reading := con.reading[tdir] > 0
			con.mu.Unlock()
			if reading {
				// The target may be defined in a part of the file that has not been reached yet.
				return &deferredResolutionTarget{Name: qname}, nil
			}

			if err := con.ReadYAMLFile(tdir); err != nil {
				return nil, errors.Wrapf(err, "resolving target %s", qname)
			}

			found, _ = con.RegistryTarget(qname)
			if found != nil {
				return found, nil
			}

			return nil, fmt.Errorf("cannot resolve target %s", qname)
		}
	}

	// TODO: try to resolve now?
	return &deferredResolutionTarget{Name: qname}, nil
}
''','''	if !strings.Contains(qname, "/") {
		return &deferredResolutionTarget{Name: qname}, nil
	}

	qname, err := con.RelPath(con.JoinPath(dir, qname))
	if err != nil {
		return nil, errors.Wrapf(err, "making %s related to topdir", node.Value)
	}

	tdir := filepath.Dir(qname)
	if tdir == "." {
		return &deferredResolutionTarget{Name: qname}, nil
	}

	if found, _ := con.RegistryTarget(qname); found != nil {
		return found, nil
	}
	if con.isReading(tdir) {
		// The target may be defined in a part of the file that has not been reached yet.
		return &deferredResolutionTarget{Name: qname}, nil
	}
	if err := con.ReadYAMLFile(tdir); err != nil {
		return nil, errors.Wrapf(err, "resolving target %s", qname)
	}
	if found, _ := con.RegistryTarget(qname); found != nil {
		return found, nil
	}
	return nil, fmt.Errorf("cannot resolve target %s", qname)
}

func (con *Controller) isReading(dir string) bool {
	con.mu.Lock()
	defer con.mu.Unlock()
	return con.reading[dir] > 0
}
'''))
m('y-resolve',(Y,'''	if dt.Target == nil {
		target, _ := con.RegistryTarget(dt.Name)
		if target == nil {
			return nil, fmt.Errorf("cannot resolve target %s", dt.Name)
		}
		dt.Target = target
	}

	return dt.Target, nil
''','''	if dt.Target != nil {
		return dt.Target, nil
	}

	target, _ := con.RegistryTarget(dt.Name)
	if target == nil {
		return nil, fmt.Errorf("cannot resolve target %s", dt.Name)
	}
	dt.Target = target
	return target, nil
'''))
m('y-resolve-unlock',(Y,'''	dt.mu.Lock()
	defer dt.mu.Unlock()

	if dt.Target == nil {
		target, _ := con.RegistryTarget(dt.Name)
		if target == nil {
			return nil, fmt.Errorf("cannot resolve target %s", dt.Name)
		}
		dt.Target = target
	}

	return dt.Target, nil
''','''	dt.mu.Lock()
	if dt.Target == nil {
		dt.Target, _ = con.RegistryTarget(dt.Name)
	}
	result := dt.Target
	dt.mu.Unlock()

	if result == nil {
		return nil, fmt.Errorf("cannot resolve target %s", dt.Name)
	}
	return result, nil
'''))
m('y-read-split',(Y,'''	var sawDirDecl bool

	for i := 0; i < len(m.Content); i += 2 {
''','''	return con.readTargets(m, dir)
}

// readTargets registers the targets in a mapping node.
func (con *Controller) readTargets(m *yaml.Node, dir string) error {
	var sawDirDecl bool

	for i := 0; i < len(m.Content); i += 2 {
'''))
m('y-read-entry',(Y,'''		if strings.Contains(name, "/") {
			return fmt.Errorf("no slashes in target names")
		}

		targetNode := m.Content[i+1]
		target, err := con.YAMLTarget(targetNode, dir)
		if err != nil {
			return errors.Wrapf(err, "in YAML node for %s", name)
		}

		// The following was previously inside a "if target is not a deferredResolutionTarget" block,
		// but I think that was wrong.
		// Or maybe I'm wrong now...

		qname := filepath.Join(dir, name)

		_, err = con.RegisterTarget(qname, doc, target)
		if err != nil {
			return errors.Wrapf(err, "registering target %s", qname)
		}
	}
''','''		if err := con.readEntry(name, doc, m.Content[i+1], dir); err != nil {
			return err
		}
	}
'''),(Y,'''func (con *Controller) ReadYAMLFile(''','''func (con *Controller) readEntry(name, doc string, node *yaml.Node, dir string) error {
	if strings.Contains(name, "/") {
		return fmt.Errorf("no slashes in target names")
	}
	target, err := con.YAMLTarget(node, dir)
	if err != nil {
		return errors.Wrapf(err, "in YAML node for %s", name)
	}
	qname := filepath.Join(dir, name)
	_, err = con.RegisterTarget(qname, doc, target)
	return errors.Wrapf(err, "registering target %s", qname)
}

func (con *Controller) ReadYAMLFile('''))
m('y-read-loop',(Y,'''	for i := 0; i < len(m.Content); i += 2 {
		nameNode := m.Content[i]
''','''	for i := 1; i < len(m.Content); i += 2 {
		nameNode := m.Content[i-1]
'''),(Y,'''			decl := m.Content[i+1]
''','''			decl := m.Content[i]
'''),(Y,'''		targetNode := m.Content[i+1]
''','''		targetNode := m.Content[i]
'''))
m('y-read-slice',(Y,'''	for i := 0; i < len(m.Content); i += 2 {
		nameNode := m.Content[i]
''','''	i := -2
	for entries := m.Content; len(entries) > 0; entries = entries[2:] {
		i += 2
		nameNode := entries[0]
'''),(Y,'''			decl := m.Content[i+1]
''','''			decl := entries[1]
'''),(Y,'''		targetNode := m.Content[i+1]
''','''		targetNode := entries[1]
'''))
m('y-read-switch',(Y,'''		if name == "_dir" {
			decl := m.Content[i+1]
			if decl.Kind != yaml.ScalarNode {
				return fmt.Errorf("_dir declaration value has kind %v, want %v", decl.Kind, yaml.ScalarNode)
			}
			if decl.Value != dir {
				return fmt.Errorf("_dir declaration %s does not match actual directory %s", decl.Value, dir)
			}
			sawDirDecl = true
			continue
		}

		if strings.Contains(name, "/") {
			return fmt.Errorf("no slashes in target names")
		}

		targetNode := m.Content[i+1]
''','''		targetNode := m.Content[i+1]

		switch {
		case name == "_dir":
			if err := checkDirDecl(targetNode, dir); err != nil {
				return err
			}
			sawDirDecl = true
			continue

		case strings.Contains(name, "/"):
			return fmt.Errorf("no slashes in target names")
		}

'''),(Y,'''func (con *Controller) ReadYAMLFile(''','''func checkDirDecl(decl *yaml.Node, dir string) error {
	if decl.Kind != yaml.ScalarNode {
		return fmt.Errorf("_dir declaration value has kind %v, want %v", decl.Kind, yaml.ScalarNode)
	}
	if decl.Value != dir {
		return fmt.Errorf("_dir declaration %s does not match actual directory %s", decl.Value, dir)
	}
	return nil
}

func (con *Controller) ReadYAMLFile('''))
m('y-file-helper',(Y,'''	con.mu.Lock()
	con.reading[rel]++
	con.mu.Unlock()
	defer func() {
		con.mu.Lock()
		con.reading[rel]--
		con.mu.Unlock()
	}()
''','''	con.addReading(rel, 1)
	defer con.addReading(rel, -1)
'''),(Y,'''func openFabYAML(''','''func (con *Controller) addReading(dir string, n int) {
	con.mu.Lock()
	defer con.mu.Unlock()
	con.reading[dir] += n
}

func openFabYAML('''))
m('y-open-loop',(Y,'''	filename := filepath.Join(dir, "fab.yaml")
	f, err := os.Open(filename)
	if errors.Is(err, fs.ErrNotExist) {
		filename = filepath.Join(dir, "fab.yml")
		f, err = os.Open(filename)
	}
	return f, err
''','''	f, err := os.Open(filepath.Join(dir, "fab.yaml"))
	if err == nil || !errors.Is(err, fs.ErrNotExist) {
		return f, err
	}
	return os.Open(filepath.Join(dir, "fab.yml"))
'''))
m('y-list-switch',(Y,'''	if node.Kind == 0 {
		return nil, nil
	}

	tag := normalizeTag(node.Tag)

	if tag != "" {
		fn, ok := yamlStringListRegistry.lookup(tag)
		if !ok {
			return nil, UnknownStringListTagError{Tag: tag}
		}
		return fn(con, node, dir)
	}

	if node.Kind != yaml.SequenceNode {
		return nil, BadYAMLNodeKindError{Got: node.Kind, Want: yaml.SequenceNode}
	}

	return con.YAMLStringListFromNodes(node.Content, dir)
''','''	switch tag := normalizeTag(node.Tag); {
	case node.Kind == 0:
		return nil, nil
	case tag != "":
		return con.taggedStringList(tag, node, dir)
	case node.Kind != yaml.SequenceNode:
		return nil, BadYAMLNodeKindError{Got: node.Kind, Want: yaml.SequenceNode}
	default:
		return con.YAMLStringListFromNodes(node.Content, dir)
	}
'''),(Y,'''		fn, ok := yamlStringListRegistry.lookup(tag)
		if !ok {
			return nil, UnknownStringListTagError{Tag: tag}
		}

		strs, err := fn(con, node, dir)
		if err != nil {
''','''		strs, err := con.taggedStringList(tag, node, dir)
		if err != nil {
'''),(Y,'''type UnknownStringListTagError struct''','''func (con *Controller) taggedStringList(tag string, node *yaml.Node, dir string) ([]string, error) {
	fn, ok := yamlStringListRegistry.lookup(tag)
	if !ok {
		return nil, UnknownStringListTagError{Tag: tag}
	}
	return fn(con, node, dir)
}

type UnknownStringListTagError struct'''))
m('y-nodes-switch',(Y,'''		tag := normalizeTag(node.Tag)

		if tag == "" && node.Kind == yaml.ScalarNode {
			result = append(result, node.Value)
			continue
		}

		if tag == "" {
			return nil, BadYAMLNodeKindError{Got: node.Kind, Want: yaml.ScalarNode}
		}

		fn, ok''','''		tag := normalizeTag(node.Tag)

		if tag == "" {
			if node.Kind != yaml.ScalarNode {
				return nil, BadYAMLNodeKindError{Got: node.Kind, Want: yaml.ScalarNode}
			}
			result = append(result, node.Value)
			continue
		}

		fn, ok'''))
m('y-nodes-helper',(Y,'''		tag := normalizeTag(node.Tag)

		if tag == "" && node.Kind == yaml.ScalarNode {
			result = append(result, node.Value)
			continue
		}

		if tag == "" {
			return nil, BadYAMLNodeKindError{Got: node.Kind, Want: yaml.ScalarNode}
		}

		fn, ok := yamlStringListRegistry.lookup(tag)
		if !ok {
			return nil, UnknownStringListTagError{Tag: tag}
		}

		strs, err := fn(con, node, dir)
		if err != nil {
			return nil, err
		}
		result = append(result, strs...)
	}

	return result, nil
}
''','''		strs, err := con.stringsFromNode(node, dir)
		if err != nil {
			return nil, err
		}
		result = append(result, strs...)
	}

	return result, nil
}

func (con *Controller) stringsFromNode(node *yaml.Node, dir string) ([]string, error) {
	tag := normalizeTag(node.Tag)

	if tag == "" && node.Kind == yaml.ScalarNode {
		return []string{node.Value}, nil
	}

	if tag == "" {
		return nil, BadYAMLNodeKindError{Got: node.Kind, Want: yaml.ScalarNode}
	}

	fn, ok := yamlStringListRegistry.lookup(tag)
	if !ok {
		return nil, UnknownStringListTagError{Tag: tag}
	}

	return fn(con, node, dir)
}
'''))
m('y-filelist-loop',(Y,'''func (con *Controller) YAMLFileList(node *yaml.Node, dir string) ([]string, error) {
	strs, err := con.YAMLStringList(node, dir)
	if err != nil {
		return nil, err
	}
	return slices.Map(strs, func(s string) string { return con.JoinPath(dir, s) }), nil
}
''','''func (con *Controller) YAMLFileList(node *yaml.Node, dir string) ([]string, error) {
	strs, err := con.YAMLStringList(node, dir)
	if err != nil {
		return nil, err
	}
	return con.joinPaths(dir, strs), nil
}

func (con *Controller) joinPaths(dir string, names []string) []string {
	var result []string
	for _, name := range names {
		result = append(result, con.JoinPath(dir, name))
	}
	return result
}
'''),(Y,'''	strs, err := con.YAMLStringListFromNodes(nodes, dir)
	if err != nil {
		return nil, err
	}
	return slices.Map(strs, func(s string) string { return con.JoinPath(dir, s) }), nil
''','''	strs, err := con.YAMLStringListFromNodes(nodes, dir)
	if err != nil {
		return nil, err
	}
	return con.joinPaths(dir, strs), nil
'''),(Y,'	"github.com/bobg/go-generics/v2/slices"\n',''))
m('y-tag',(Y,'''	if strings.HasPrefix(tag, "!!") {
		return ""
	}
	return strings.TrimPrefix(tag, "!")
''','''	switch {
	case strings.HasPrefix(tag, "!!"):
		return ""
	case strings.HasPrefix(tag, "!"):
		return tag[1:]
	default:
		return tag
	}
'''))
# controller
m('k-join',(K,'''	for i := len(elts) - 1; i >= 0; i-- {
		if filepath.IsAbs(elts[i]) {
			return filepath.Join(elts[i:]...)
		}
	}
	args := make([]string, 1, 1+len(elts))
	args[0] = con.topdir
	args = append(args, elts...)
	return filepath.Join(args...)
''','''	args := []string{con.topdir}
	for _, elt := range elts {
		if filepath.IsAbs(elt) {
			args = args[:0]
		}
		args = append(args, elt)
	}
	return filepath.Join(args...)
'''))
m('k-join2',(K,'''	for i := len(elts) - 1; i >= 0; i-- {
		if filepath.IsAbs(elts[i]) {
			return filepath.Join(elts[i:]...)
		}
	}
	args := make([]string, 1, 1+len(elts))
	args[0] = con.topdir
	args = append(args, elts...)
	return filepath.Join(args...)
''','''	start := -1
	for i, elt := range elts {
		if filepath.IsAbs(elt) {
			start = i
		}
	}
	if start >= 0 {
		return filepath.Join(elts[start:]...)
	}
	return filepath.Join(append([]string{con.topdir}, elts...)...)
'''))
m('k-join3',(K,'''	args := make([]string, 1, 1+len(elts))
	args[0] = con.topdir
	args = append(args, elts...)
	return filepath.Join(args...)
''','''	return filepath.Join(con.topdir, filepath.Join(elts...))
'''))
m('k-parse',(K,'''	if len(args) > 1 && strings.HasPrefix(args[1], "-") {
		// Just one target, and remaining args are arguments for that target.
		if target, _ := con.RegistryTarget(args[0]); target != nil {
			targets = append(targets, ArgTarget(target, args[1:]...))
		} else {
			unknown = append(unknown, args[0])
		}
	} else {
		for _, arg := range args {
			if target, _ := con.RegistryTarget(arg); target != nil {
				targets = append(targets, target)
			} else {
				unknown = append(unknown, arg)
			}
		}
	}
''','''	if len(args) > 1 && strings.HasPrefix(args[1], "-") {
		// Just one target, and remaining args are arguments for that target.
		target, _ := con.RegistryTarget(args[0])
		if target == nil {
			return nil, fmt.Errorf("unknown target %s", args[0])
		}
		return []Target{ArgTarget(target, args[1:]...)}, nil
	}

	for _, arg := range args {
		target, _ := con.RegistryTarget(arg)
		if target == nil {
			unknown = append(unknown, arg)
			continue
		}
		targets = append(targets, target)
	}
'''))
m('k-parse2',(K,'''	switch len(unknown) {
	case 0:
		return targets, nil
	case 1:
		return nil, fmt.Errorf("unknown target %s", unknown[0])
	default:
		return nil, fmt.Errorf("unknown targets: %s", strings.Join(unknown, " "))
	}
''','''	if len(unknown) == 1 {
		return nil, fmt.Errorf("unknown target %s", unknown[0])
	}
	if len(unknown) > 1 {
		return nil, fmt.Errorf("unknown targets: %s", strings.Join(unknown, " "))
	}
	return targets, nil
'''))
m('k-parse3',(K,'''		for _, arg := range args {
			if target, _ := con.RegistryTarget(arg); target != nil {
				targets = append(targets, target)
			} else {
				unknown = append(unknown, arg)
			}
		}
''','''		targets, unknown = con.lookupTargets(args)
'''),(K,'''func (con *Controller) ListTargets(''','''func (con *Controller) lookupTargets(names []string) (targets []Target, unknown []string) {
	for _, name := range names {
		target, _ := con.RegistryTarget(name)
		if target == nil {
			unknown = append(unknown, name)
		} else {
			targets = append(targets, target)
		}
	}
	return targets, unknown
}

func (con *Controller) ListTargets('''))
m('k-list',(K,'''	names := con.RegistryNames()
	for _, name := range names {
		fmt.Fprintln(w, name)
		if _, d := con.RegistryTarget(name); d != "" {
			d = bolRegex.ReplaceAllString(d, "    ")
			fmt.Fprintln(w, d)
		}
	}
''','''	for _, name := range con.RegistryNames() {
		_, d := con.RegistryTarget(name)
		fmt.Fprintf(w, "%s\\n", name)
		if d == "" {
			continue
		}
		fmt.Fprintf(w, "%s\\n", bolRegex.ReplaceAllString(d, "    "))
	}
'''))
# main
m('m-run-abs',(MN,'''	for _, dir := range []*string{&m.Topdir, &m.Fabdir} {
		abs, err := filepath.Abs(*dir)
		if err != nil {
			return errors.Wrapf(err, "making %s absolute", *dir)
		}
		*dir = abs
	}
''','''	var err error
	if m.Topdir, err = filepath.Abs(m.Topdir); err != nil {
		return errors.Wrapf(err, "making %s absolute", m.Topdir)
	}
	if m.Fabdir, err = filepath.Abs(m.Fabdir); err != nil {
		return errors.Wrapf(err, "making %s absolute", m.Fabdir)
	}
'''))
m('m-run-abs2',(MN,'''	for _, dir := range []*string{&m.Topdir, &m.Fabdir} {
		abs, err := filepath.Abs(*dir)
		if err != nil {
			return errors.Wrapf(err, "making %s absolute", *dir)
		}
		*dir = abs
	}
''','''	if err := makeAbs(&m.Topdir); err != nil {
		return err
	}
	if err := makeAbs(&m.Fabdir); err != nil {
		return err
	}
'''),(MN,'''var errNoDriver =''','''func makeAbs(dir *string) error {
	abs, err := filepath.Abs(*dir)
	if err != nil {
		return errors.Wrapf(err, "making %s absolute", *dir)
	}
	*dir = abs
	return nil
}

var errNoDriver ='''))
m('m-run-args',(MN,'''	args := []string{"-fab", m.Fabdir, "-top", m.Topdir}
	if m.Verbose {
		args = append(args, "-v")
	}
	if m.List {
		args = append(args, "-list")
	}
	if m.Force {
		args = append(args, "-f")
	}
	if m.DryRun {
		args = append(args, "-n")
	}
	args = append(args, "--") // Do not let the driver parse m.Args as its own flags.
	args = append(args, m.Args...)

''','''	args := m.driverArgs()

'''),(MN,'''var errNoDriver =''','''func (m *Main) driverArgs() []string {
	args := []string{"-fab", m.Fabdir, "-top", m.Topdir}
	for _, f := range []struct {
		on   bool
		flag string
	}{
		{m.Verbose, "-v"},
		{m.List, "-list"},
		{m.Force, "-f"},
		{m.DryRun, "-n"},
	} {
		if f.on {
			args = append(args, f.flag)
		}
	}
	args = append(args, "--") // Do not let the driver parse m.Args as its own flags.
	return append(args, m.Args...)
}

var errNoDriver ='''))
m('m-run-args2',(MN,'''	args := []string{"-fab", m.Fabdir, "-top", m.Topdir}
	if m.Verbose {
		args = append(args, "-v")
	}
	if m.List {
		args = append(args, "-list")
	}
	if m.Force {
		args = append(args, "-f")
	}
	if m.DryRun {
		args = append(args, "-n")
	}
	args = append(args, "--") // Do not let the driver parse m.Args as its own flags.
	args = append(args, m.Args...)

''','''	var args []string
	flag := func(on bool, name string) {
		if on {
			args = append(args, name)
		}
	}
	flag(m.Verbose, "-v")
	flag(m.List, "-list")
	flag(m.Force, "-f")
	flag(m.DryRun, "-n")
	args = append(args, "-top", m.Topdir, "-fab", m.Fabdir)
	args = append(append(args, "--"), m.Args...)

'''))
m('m-run-switch',(MN,'''	if errors.Is(err, errNoDriver) {
		return m.driverless(ctx)
	}
	if err != nil {
		return errors.Wrap(err, "ensuring driver is up to date")
	}

	args''','''	switch {
	case errors.Is(err, errNoDriver):
		return m.driverless(ctx)
	case err != nil:
		return errors.Wrap(err, "ensuring driver is up to date")
	}

	args'''))
m('m-driverless',(MN,'''	if err := con.ReadYAMLFile(""); err != nil && !errors.Is(err, fs.ErrNotExist) {
		return errors.Wrap(err, "reading YAML file")
	}

	if m.List {
		con.ListTargets(os.Stdout)
		return nil
	}

	ctx = WithVerbose(ctx, m.Verbose)
	ctx = WithForce(ctx, m.Force)
	ctx = WithDryRun(ctx, m.DryRun)

''','''	err := con.ReadYAMLFile("")
	if errors.Is(err, fs.ErrNotExist) {
		err = nil // no YAML file
	}
	if err != nil {
		return errors.Wrap(err, "reading YAML file")
	}

	if m.List {
		con.ListTargets(os.Stdout)
		return nil
	}

	ctx = m.context(ctx)

'''),(MN,'''var bolRegex =''','''func (m *Main) context(ctx context.Context) context.Context {
	ctx = WithDryRun(ctx, m.DryRun)
	ctx = WithForce(ctx, m.Force)
	return WithVerbose(ctx, m.Verbose)
}

var bolRegex ='''))
m('m-driverless2',(MN,'''	db, err := OpenHashDB(m.Fabdir)
	if err != nil {
		return errors.Wrap(err, "opening hash db")
	}
	defer db.Close()
	ctx = WithHashDB(ctx, db)

	targets, err := con.ParseArgs(m.Args)
	if err != nil {
		return errors.Wrap(err, "parsing args")
	}

	return''','''	targets, err := con.ParseArgs(m.Args)
	if err != nil {
		return errors.Wrap(err, "parsing args")
	}

	db, err := OpenHashDB(m.Fabdir)
	if err != nil {
		return errors.Wrap(err, "opening hash db")
	}
	defer db.Close()
	ctx = WithHashDB(ctx, db)

	return'''))
m('m-drv-stat',(MN,'''	if m.Force {
		compile = true
		if m.Verbose {
			fmt.Println("Forcing recompilation of driver")
		}
	} else {
		_, err = os.Stat(driver)
		if errors.Is(err, fs.ErrNotExist) {
			compile = true
			if m.Verbose {
				fmt.Println("Compiling driver")
			}
		} else if err != nil {
			return "", errors.Wrapf(err, "statting %s", driver)
		}
	}
''','''	say := func(msg string) {
		if m.Verbose {
			fmt.Println(msg)
		}
	}
	if m.Force {
		say("Forcing recompilation of driver")
		compile = true
	} else {
		switch _, err = os.Stat(driver); {
		case err == nil:
		case errors.Is(err, fs.ErrNotExist):
			say("Compiling driver")
			compile = true
		default:
			return "", errors.Wrapf(err, "statting %s", driver)
		}
	}
'''))
m('m-drv-hash',(MN,'''	dh := newDirHasher()
	for _, filename := range pkg.GoFiles { // TODO: is this the right set of files?
		if err = addFileToHash(dh, filename); err != nil {
			return "", errors.Wrapf(err, "hashing file %s", filename)
		}
	}
	newhash, err := dh.hash()
	if err != nil {
		return "", errors.Wrapf(err, "computing hash of directory %s", pkgdir)
	}
''','''	newhash, err := hashFiles(pkg.GoFiles)
	if err != nil {
		return "", errors.Wrapf(err, "computing hash of directory %s", pkgdir)
	}
'''),(MN,'''func addFileToHash(''','''func hashFiles(filenames []string) (string, error) {
	dh := newDirHasher()
	for i := range filenames {
		err := addFileToHash(dh, filenames[i])
		if err != nil {
			return "", errors.Wrapf(err, "hashing file %s", filenames[i])
		}
	}
	return dh.hash()
}

func addFileToHash('''))
m('m-drv-cmp',(MN,'''	if !compile {
		if newhash == string(oldhash) {
			if m.Verbose {
				fmt.Println("Using existing driver")
			}
		} else {
			compile = true
			if m.Verbose {
				fmt.Println("Recompiling driver")
			}
		}
	}

	if !compile {
		return driver, nil
	}
''','''	if !compile && newhash == string(oldhash) {
		if m.Verbose {
			fmt.Println("Using existing driver")
		}
		return driver, nil
	}
	if !compile && m.Verbose {
		fmt.Println("Recompiling driver")
	}
'''))
m('m-drv-errs',(MN,'''		err = nil
		for _, e := range pkg.Errors {
			err = errors.Join(err, e)
		}
		return "", errors.Wrapf(err, "loading package %s", pkg.Name)
''','''		return "", errors.Wrapf(joinErrors(pkg.Errors), "loading package %s", pkg.Name)
'''),(CP,'''		var err error
		for _, e := range pkg.Errors {
			err = errors.Join(err, e)
		}
		return errors.Wrapf(err, "loading package %s", pkg.Name)
''','''		return errors.Wrapf(joinErrors(pkg.Errors), "loading package %s", pkg.Name)
'''),(CP,'''func varDoc(''','''func joinErrors(errs []packages.Error) error {
	var err error
	for _, e := range errs {
		err = errors.Join(err, e)
	}
	return err
}

func varDoc('''))
m('m-drv-write',(MN,'''		v, openErr := os.OpenFile(versionfile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
		if openErr != nil {
			return "", errors.Wrapf(openErr, "opening %s for writing", versionfile)
		}
		defer func() {
			closeErr := v.Close()
			if err == nil {
				err = errors.Wrapf(closeErr, "closing %s", versionfile)
			}
		}()
		enc := json.NewEncoder(v)
		enc.SetIndent("", "  ")
		if err = enc.Encode(buildInfo); err != nil {
			return "", errors.Wrap(err, "encoding build info")
		}
	}
''','''		if err = writeVersion(versionfile, buildInfo); err != nil {
			return "", err
		}
	}
'''),(MN,'''func (m *Main) checkVersion(''','''func writeVersion(versionfile string, buildInfo *debug.BuildInfo) (err error) {
	v, err := os.Create(versionfile)
	if err != nil {
		return errors.Wrapf(err, "opening %s for writing", versionfile)
	}
	defer func() {
		closeErr := v.Close()
		if err == nil {
			err = errors.Wrapf(closeErr, "closing %s", versionfile)
		}
	}()
	enc := json.NewEncoder(v)
	enc.SetIndent("", "  ")
	return errors.Wrap(enc.Encode(buildInfo), "encoding build info")
}

func (m *Main) checkVersion('''))
m('m-drv-marshal',(MN,'''		v, openErr := os.OpenFile(versionfile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
		if openErr != nil {
			return "", errors.Wrapf(openErr, "opening %s for writing", versionfile)
		}
		defer func() {
			closeErr := v.Close()
			if err == nil {
				err = errors.Wrapf(closeErr, "closing %s", versionfile)
			}
		}()
		enc := json.NewEncoder(v)
		enc.SetIndent("", "  ")
		if err = enc.Encode(buildInfo); err != nil {
			return "", errors.Wrap(err, "encoding build info")
		}
	}
''','''		j, err := json.MarshalIndent(buildInfo, "", "  ")
		if err != nil {
			return "", errors.Wrap(err, "encoding build info")
		}
		if err = os.WriteFile(versionfile, j, 0644); err != nil {
			return "", errors.Wrapf(err, "writing %s", versionfile)
		}
	}
'''))
m('m-ver',(MN,'''	if err = dec.Decode(&oldInfo); err != nil {
		if m.Verbose {
			fmt.Printf("Error decoding %s, will recompile driver: %s\\n", versionfile, err)
		}
		return true, newInfo, nil
	}

	if !reflect.DeepEqual(*newInfo, oldInfo) {
		if m.Verbose {
			fmt.Println("Fab build info changed, will recompile driver")
		}
		return true, newInfo, nil
	}

	return false, nil, nil
''','''	err = dec.Decode(&oldInfo)
	if err == nil && reflect.DeepEqual(oldInfo, *newInfo) {
		return false, nil, nil
	}
	if m.Verbose {
		if err != nil {
			fmt.Printf("Error decoding %s, will recompile driver: %s\\n", versionfile, err)
		} else {
			fmt.Println("Fab build info changed, will recompile driver")
		}
	}
	return true, newInfo, nil
'''))
m('m-addfile',(MN,'''	f, err := os.Open(filename)
	if err != nil {
		return errors.Wrapf(err, "opening %s", filename)
	}
	defer f.Close()

	return dh.file(filename, f)
''','''	f, err := os.Open(filename)
	if err == nil {
		defer f.Close()
		err = dh.file(filename, f)
	}
	return errors.Wrapf(err, "hashing %s", filename)
'''))
# compile
m('c-isfile',(CP,'''	isPkgFile := func(info fs.FileInfo) bool {
		for _, filename := range pkg.GoFiles {
			if filepath.Base(filename) == info.Name() {
				return true
			}
		}
		return false
	}
''','''	basenames := make(map[string]bool)
	for _, filename := range pkg.GoFiles {
		basenames[filepath.Base(filename)] = true
	}
	isPkgFile := func(info fs.FileInfo) bool { return basenames[info.Name()] }
'''))
m('c-targets',(CP,'''	for _, ident := range idents {
		if !ast.IsExported(ident) {
			continue
		}
		// Types and constants may implement Target but are not targets.
		obj, ok := scope.Lookup(ident).(*types.Var)
		if !ok {
			continue
		}
		if err := checkImplementsTarget(obj.Type()); err != nil {
			continue
		}
		targets[ident] = &targetPair{Name: ident, Doc: `""`}
	}
''','''	for _, ident := range idents {
		if isTarget(scope.Lookup(ident)) {
			targets[ident] = &targetPair{Name: ident, Doc: `""`}
		}
	}
'''),(CP,'''func varDoc(''','''// isTarget tells whether obj is an exported variable that implements Target.
func isTarget(obj types.Object) bool {
	// Types and constants may implement Target but are not targets.
	v, ok := obj.(*types.Var)
	return ok && v.Exported() && checkImplementsTarget(v.Type()) == nil
}

func varDoc('''),(CP,'	"go/ast"\n	"go/doc"\n','	"go/ast"\n	"go/doc"\n'))
m('c-entries',(CP,'''		if entry.IsDir() {
			continue
		}
		if strings.HasSuffix(entry.Name(), "_test.go") {
			continue
		}
		if !strings.HasSuffix(entry.Name(), ".go") {
			continue
		}
		if err = copyFile(filepath.Join(pkgdir, entry.Name()), subpkgdir); err != nil {
			return errors.Wrapf(err, "copying %s to tmp subdir", entry.Name())
		}
	}
''','''		name := entry.Name()
		if entry.IsDir() || !strings.HasSuffix(name, ".go") || strings.HasSuffix(name, "_test.go") {
			continue
		}
		err := copyFile(filepath.Join(pkgdir, name), subpkgdir)
		if err != nil {
			return errors.Wrapf(err, "copying %s to tmp subdir", name)
		}
	}
'''))
m('c-driver',(CP,'''	driverOut, err := os.Create(filepath.Join(tmpdir, "driver.go"))
	if err != nil {
		return errors.Wrap(err, "creating driver.go in temp dir")
	}
	defer driverOut.Close()

	tmpl := template.New("")
	_, err = tmpl.Parse(driverStr)
	if err != nil {
		return errors.Wrap(err, "parsing driver template")
	}
	if err = tmpl.Execute(driverOut, data); err != nil {
		return errors.Wrap(err, "rendering driver.go template")
	}
	if err = driverOut.Close(); err != nil {
		return errors.Wrap(err, "closing driver.go")
	}
''','''	tmpl, err := template.New("").Parse(driverStr)
	if err != nil {
		return errors.Wrap(err, "parsing driver template")
	}
	buf := new(bytes.Buffer)
	if err = tmpl.Execute(buf, data); err != nil {
		return errors.Wrap(err, "rendering driver.go template")
	}
	if err = os.WriteFile(filepath.Join(tmpdir, "driver.go"), buf.Bytes(), 0644); err != nil {
		return errors.Wrap(err, "writing driver.go")
	}
'''),(CP,'''import (
''','''import (
	"bytes"
'''))
m('c-cmd',(CP,'''	cmd := exec.CommandContext(ctx, "go", "mod", "init", "x")
	cmd.Dir = tmpdir
	output, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("error in go mod init fab: %w; output follows\\n%s", err, string(output))
	}
''','''	if err = runGo(ctx, tmpdir, "mod", "init", "x"); err != nil {
		return err
	}
'''),(CP,'''	cmd = exec.CommandContext(ctx, "go", "mod", "tidy")
	cmd.Dir = tmpdir
	output, err = cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("error in go mod tidy: %w; output follows\\n%s", err, string(output))
	}

	cmd = exec.CommandContext(ctx, "go", "build")
	cmd.Dir = tmpdir
	output, err = cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("error in go build: %w; output follows\\n%s", err, string(output))
	}
''','''	if err = runGo(ctx, tmpdir, "mod", "tidy"); err != nil {
		return err
	}
	if err = runGo(ctx, tmpdir, "build"); err != nil {
		return err
	}
'''),(CP,'''func varDoc(''','''// runGo runs the go command with the given arguments in dir.
func runGo(ctx context.Context, dir string, args ...string) error {
	cmd := exec.CommandContext(ctx, "go", args...)
	cmd.Dir = dir
	output, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("error in go %s: %w; output follows\\n%s", strings.Join(args, " "), err, string(output))
	}
	return nil
}

func varDoc('''))
m('c-cmd-loop',(CP,'''	cmd = exec.CommandContext(ctx, "go", "mod", "tidy")
	cmd.Dir = tmpdir
	output, err = cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("error in go mod tidy: %w; output follows\\n%s", err, string(output))
	}

	cmd = exec.CommandContext(ctx, "go", "build")
	cmd.Dir = tmpdir
	output, err = cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("error in go build: %w; output follows\\n%s", err, string(output))
	}
''','''	for _, args := range [][]string{{"mod", "tidy"}, {"build"}} {
		cmd = exec.CommandContext(ctx, "go", args...)
		cmd.Dir = tmpdir
		output, err = cmd.CombinedOutput()
		if err != nil {
			return fmt.Errorf("error in go %s: %w; output follows\\n%s", strings.Join(args, " "), err, string(output))
		}
	}
'''))
m('c-gomod',(CP,'''	gomodPath := filepath.Join(tmpdir, "go.mod")
	gomodData, err := os.ReadFile(gomodPath)
	if err != nil {
		return errors.Wrapf(err, "reading %s", gomodPath)
	}
	mf, err := modfile.Parse(gomodPath, gomodData, nil)
	if err != nil {
		return errors.Wrapf(err, "parsing %s", gomodPath)
	}
	if err = mf.AddReplace("github.com/bobg/fab", "", "./fab", ""); err != nil {
		return errors.Wrapf(err, "adding replace directive in %s", gomodPath)
	}
	gomodData, err = mf.Format()
	if err != nil {
		return errors.Wrapf(err, "formatting go.mod in %s", gomodPath)
	}
	if err = os.WriteFile(gomodPath, gomodData, 0644); err != nil {
		return errors.Wrapf(err, "rewriting %s", gomodPath)
	}
''','''	if err = addReplace(filepath.Join(tmpdir, "go.mod")); err != nil {
		return err
	}
'''),(CP,'''func varDoc(''','''func addReplace(gomodPath string) error {
	gomodData, err := os.ReadFile(gomodPath)
	if err != nil {
		return errors.Wrapf(err, "reading %s", gomodPath)
	}
	mf, err := modfile.Parse(gomodPath, gomodData, nil)
	if err != nil {
		return errors.Wrapf(err, "parsing %s", gomodPath)
	}
	if err = mf.AddReplace("github.com/bobg/fab", "", "./fab", ""); err != nil {
		return errors.Wrapf(err, "adding replace directive in %s", gomodPath)
	}
	gomodData, err = mf.Format()
	if err != nil {
		return errors.Wrapf(err, "formatting go.mod in %s", gomodPath)
	}
	return errors.Wrapf(os.WriteFile(gomodPath, gomodData, 0644), "rewriting %s", gomodPath)
}

func varDoc('''))
m('c-embed',(CP,'''		if entry.IsDir() {
			err = populateFabSubdir(filepath.Join(destdir, entry.Name()), filepath.Join(subdir, entry.Name()))
			if err != nil {
				return errors.Wrapf(err, "populating dir %s", entry.Name())
			}
			continue
		}
		if strings.HasSuffix(entry.Name(), "_test.go") {
			continue
		}
		contents, err := embeds.ReadFile(filepath.Join(subdir, entry.Name()))
		if err != nil {
			return errors.Wrapf(err, "reading embedded file %s", entry.Name())
		}
		dest := filepath.Join(destdir, entry.Name())
		err = os.WriteFile(dest, contents, 0644)
		if err != nil {
			return errors.Wrapf(err, "writing %s", dest)
		}
''','''		var (
			name = entry.Name()
			src  = filepath.Join(subdir, name)
			dest = filepath.Join(destdir, name)
		)
		switch {
		case entry.IsDir():
			if err := populateFabSubdir(dest, src); err != nil {
				return errors.Wrapf(err, "populating dir %s", name)
			}
		case !strings.HasSuffix(name, "_test.go"):
			contents, err := embeds.ReadFile(src)
			if err != nil {
				return errors.Wrapf(err, "reading embedded file %s", name)
			}
			if err := os.WriteFile(dest, contents, 0644); err != nil {
				return errors.Wrapf(err, "writing %s", dest)
			}
		}
'''))
m('c-copy',(CP,'''	out, err := os.OpenFile(outfilename, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0644)
	if err != nil {
		return errors.Wrapf(err, "creating %s", outfilename)
	}
	defer out.Close()

	in, err := os.Open(filename)
	if err != nil {
		return errors.Wrapf(err, "opening %s", filename)
	}
	defer in.Close()

	if _, err = io.Copy(out, in); err != nil {
		return errors.Wrapf(err, "copying %s to %s", filename, destdir)
	}
	return errors.Wrapf(out.Close(), "closing %s", outfilename)
''','''	in, err := os.Open(filename)
	if err != nil {
		return errors.Wrapf(err, "opening %s", filename)
	}
	defer in.Close()

	out, err := os.OpenFile(outfilename, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0644)
	if err != nil {
		return errors.Wrapf(err, "creating %s", outfilename)
	}
	_, err = io.Copy(out, in)
	if closeErr := out.Close(); err == nil {
		err = closeErr
	}
	return errors.Wrapf(err, "copying %s to %s", filename, destdir)
'''))
m('c-copy2',(CP,'''	out, err := os.OpenFile(outfilename, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0644)
	if err != nil {
		return errors.Wrapf(err, "creating %s", outfilename)
	}
	defer out.Close()

	in, err := os.Open(filename)
	if err != nil {
		return errors.Wrapf(err, "opening %s", filename)
	}
	defer in.Close()

	if _, err = io.Copy(out, in); err != nil {
		return errors.Wrapf(err, "copying %s to %s", filename, destdir)
	}
	return errors.Wrapf(out.Close(), "closing %s", outfilename)
''','''	data, err := os.ReadFile(filename)
	if err != nil {
		return errors.Wrapf(err, "reading %s", filename)
	}
	return errors.Wrapf(os.WriteFile(outfilename, data, 0644), "writing %s", outfilename)
'''),(CP,'	"io"\n',''))
m('c-doc',(CP,'''	vars := dpkg.Vars
	for _, typ := range dpkg.Types {
		// Variables declared with a type of this package are found here.
		vars = append(vars, typ.Vars...)
	}
	for _, v := range vars {
		for _, name := range v.Names {
			if tp, ok := targets[name]; ok {
				dstr := string(pr.Text(parser.Parse(varDoc(v, name))))
				dstr = strings.TrimRight(dstr, "\\r\\n")
				tp.Doc = strconv.Quote(dstr)
			}
		}
	}
''','''	setDocs := func(vars []*doc.Value) {
		for _, v := range vars {
			for _, name := range v.Names {
				tp := targets[name]
				if tp == nil {
					continue
				}
				text := pr.Text(parser.Parse(varDoc(v, name)))
				tp.Doc = strconv.Quote(strings.TrimRight(string(text), "\\r\\n"))
			}
		}
	}
	setDocs(dpkg.Vars)
	for _, typ := range dpkg.Types {
		// Variables declared with a type of this package are found here.
		setDocs(typ.Vars)
	}
'''))
m('c-vardoc',(CP,'''	for _, spec := range v.Decl.Specs {
		spec, ok := spec.(*ast.ValueSpec)
		if !ok || spec.Doc == nil {
			continue
		}
		for _, ident := range spec.Names {
			if ident.Name == name {
				return spec.Doc.Text()
			}
		}
	}
	return v.Doc
''','''	result := v.Doc
	for _, s := range v.Decl.Specs {
		spec, ok := s.(*ast.ValueSpec)
		if ok && spec.Doc != nil && hasName(spec.Names, name) {
			result = spec.Doc.Text()
			break
		}
	}
	return result
}

func hasName(idents []*ast.Ident, name string) bool {
	for i := range idents {
		if idents[i].Name == name {
			return true
		}
	}
	return false
'''))
