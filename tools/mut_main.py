M=[]
def m(name, prop, *eds): M.append((name, prop, list(eds)))
N,T,F='main.go','driver.go.tmpl','cmd/fab/main.go'
m('24-nodashes','C24',(N,'''	args = append(args, "--") // Do not let the driver parse m.Args as its own flags.
''',''))
m('24-swapflags','C24',(N,'"-f")','"-n")'),(N,'''	if m.DryRun {
		args = append(args, "-n")''','''	if m.DryRun {
		args = append(args, "-f")'''))
m('24-force-when-verbose','C24',(N,'''	if m.Force {
		args = append(args, "-f")''','''	if m.Force && !m.DryRun {
		args = append(args, "-f")'''))
m('24-fabtop','C24',(N,'args := []string{"-fab", m.Fabdir, "-top", m.Topdir}','args := []string{"-fab", m.Fabdir, "-top", "."}'))
m('24-notop','C24',(N,'args := []string{"-fab", m.Fabdir, "-top", m.Topdir}','args := []string{"-fab", m.Fabdir}'))
m('24-nodir','C24',(N,'	cmd.Dir = m.Topdir\n',''))
m('24-stderr','C24',(N,'cmd.Stdin, cmd.Stdout, cmd.Stderr = os.Stdin, os.Stdout, os.Stderr','cmd.Stdout, cmd.Stderr = os.Stdout, os.Stdout'))
m('24-noctx','C24',(N,'exec.CommandContext(ctx, driver, args...)','exec.CommandContext(context.Background(), driver, args...)'))
m('24-args1','C24',(N,'args = append(args, m.Args...)','if len(m.Args) > 0 {\n\t\targs = append(args, m.Args[0])\n\t}'))
m('24-relative','C24',(N,'for _, dir := range []*string{&m.Topdir, &m.Fabdir} {','for _, dir := range []*string{&m.Topdir} {'))
m('24-noabs','C24',(N,'		*dir = abs\n','		_ = abs\n'))
m('24-dl-dry','C24',(N,'	ctx = WithDryRun(ctx, m.DryRun)\n',''))
m('24-dl-force','C24',(N,'ctx = WithForce(ctx, m.Force)','ctx = WithForce(ctx, m.Force || m.DryRun)'))
m('24-dl-verbose','C24',(N,'ctx = WithVerbose(ctx, m.Verbose)','ctx = WithVerbose(ctx, m.Verbose && len(m.Args) > 0)'))
m('24-dl-db','C24',(N,'OpenHashDB(m.Fabdir)','OpenHashDB(m.Topdir)'))
m('24-dl-nodb','C24',(N,'	ctx = WithHashDB(ctx, db)\n',''))
m('24-dl-list','C24',(N,'''		con.ListTargets(os.Stdout)
		return nil
''','''		con.ListTargets(os.Stdout)
'''))
m('24-dl-listerr','C24',(N,'con.ListTargets(os.Stdout)','con.ListTargets(os.Stderr)'))
m('24-dl-listbefore','C24',(N,'''	if err := con.ReadYAMLFile(""); err != nil && !errors.Is(err, fs.ErrNotExist) {
		return errors.Wrap(err, "reading YAML file")
	}

	if m.List {
		con.ListTargets(os.Stdout)
		return nil
	}
''','''	if m.List {
		con.ListTargets(os.Stdout)
		return nil
	}

	if err := con.ReadYAMLFile(""); err != nil && !errors.Is(err, fs.ErrNotExist) {
		return errors.Wrap(err, "reading YAML file")
	}
'''))
m('24-dl-args','C24',(N,'con.ParseArgs(m.Args)','con.ParseArgs(append([]string(nil), m.Args[:1]...))'))
m('24-dl-top','C24',(N,'con := NewController(m.Topdir)','con := NewController("")'))
m('24-fallback','C24',(N,'''	if errors.Is(err, errNoDriver) {
		return m.dri''','''	if errors.Is(err, errNoDriver) || errors.Is(err, fs.ErrNotExist) {
		return m.dri'''))
m('24-fallback2','C24',(N,'''	if len(pkg.Errors) > 0 {
		err = nil''','''	if len(pkg.GoFiles) == 0 {
		return "", errNoDriver
	}
	if len(pkg.Errors) > 0 {
		err = nil'''))
m('24-exiterr','C24',(N,'	return errors.Wrapf(err, "running %s %s", driver, strings.Join(args, " "))','''	var exit *exec.ExitError
	if errors.As(err, &exit) && exit.ExitCode() == 2 {
		return nil
	}
	return errors.Wrapf(err, "running %s %s", driver, strings.Join(args, " "))'''))
m('24-dbpath','C24',(N,'dbfile := filepath.Join(dir, "hash.db")','dbfile := filepath.Join(filepath.Dir(dir), "hash.db")'))
m('24-t-dry','C24',(T,'	ctx = fab.WithDryRun(ctx, dryrun)\n','	ctx = fab.WithDryRun(ctx, dryrun || list)\n'))
m('24-t-dry2','C24',(T,'	ctx = fab.WithDryRun(ctx, dryrun)\n','	ctx = fab.WithDryRun(ctx, dryrun && !force)\n'))
m('24-t-swap','C24',(T,'ctx = fab.WithForce(ctx, force)','ctx = fab.WithForce(ctx, dryrun)'),(T,'ctx = fab.WithDryRun(ctx, dryrun)','ctx = fab.WithDryRun(ctx, force)'))
m('24-t-flagname','C24',(T,'flag.BoolVar(&dryrun, "n"','flag.BoolVar(&dryrun, "dry"'))
m('24-t-exit','C24',(T,'''		fmt.Println("")
	}
	os.Exit(1)''','''		fmt.Println("")
	}
	os.Exit(0)'''))
m('24-t-noexit','C24',(T,'''		fmt.Println("")
	}
	os.Exit(1)''','''		fmt.Println("")
	}'''))
m('24-t-yaml','C24',(T,'err != nil && !errors.Is(err, fs.ErrNotExist)','err != nil && errors.Is(err, fs.ErrPermission)'))
m('24-t-db','C24',(T,'fab.OpenHashDB(fabdir)','fab.OpenHashDB(cacheDir)'))
m('24-t-top','C24',(T,'fab.NewController(topdir)','fab.NewController("")'))
m('24-t-nodb','C24',(T,'	ctx = fab.WithHashDB(ctx, db)\n',''))
m('24-t-early','C24',(T,'''	flag.Parse()

	ctx := context.Background()
	ctx = fab.WithVerbose(ctx, verbose)
''','''	ctx := context.Background()
	ctx = fab.WithVerbose(ctx, verbose)
	flag.Parse()
'''))
m('24-t-list','C24',(T,'''		con.ListTargets(os.Stdout)
		return
''','''		con.ListTargets(os.Stdout)
		if len(args) == 0 {
			return
		}
'''))
m('24-t-args','C24',(T,'con.ParseArgs(args)','con.ParseArgs(os.Args[1:])'))
m('24-f-force','C24',(F,'Force:   force,','Force:   force || dryrun,'))
m('24-f-list','C24',(F,'		List:    list,\n',''))
m('24-f-args','C24',(F,'flag.Args()','flag.Args()[1:]'))
m('24-f-exit','C24',(F,'''		fmt.Printf("Error: %s\\n", err)
		os.Exit(1)
''','''		fmt.Printf("Error: %s\\n", err)
'''))
m('24-f-default','C24',(F,'flag.BoolVar(&force, "f", false','flag.BoolVar(&force, "f", true'))
# --- refactorings
m('ok-24-slice','',(N,'''	args := []string{"-fab", m.Fabdir, "-top", m.Topdir}
	if m.Verbose {
		args = append(args, "-v")
	}
	if m.List {
		args = append(args, "-list")
	}
	if m.Force {
		args = append(args, "-f")
	}
	if m.DryRun {
		args = append(args, "-n")
	}
	args = append(args, "--") // Do not let the driver parse m.Args as its own flags.
	args = append(args, m.Args...)

	cmd := exec.CommandContext(ctx, driver, args...)
	cmd.Dir = m.Topdir
	cmd.Stdin, cmd.Stdout, cmd.Stderr = os.Stdin, os.Stdout, os.Stderr
	err = cmd.Run()
''','''	args := m.driverArgs()
	err = m.runDriver(ctx, driver, args)
'''),(N,'var errNoDriver =','''func (m *Main) runDriver(ctx context.Context, driver string, args []string) error {
	cmd := exec.CommandContext(ctx, driver, args...)
	cmd.Stderr = os.Stderr
	cmd.Stdout = os.Stdout
	cmd.Dir = m.Topdir
	return cmd.Run()
}

func (m *Main) driverArgs() []string {
	args := []string{"-top", m.Topdir, "-fab", m.Fabdir}
	for _, f := range []struct {
		set  bool
		name string
	}{{m.DryRun, "-n"}, {m.Verbose, "-v"}, {m.List, "-list"}, {m.Force, "-f"}} {
		if f.set {
			args = append(args, f.name)
		}
	}
	return append(append(args, "--"), m.Args...)
}

var errNoDriver ='''))
m('ok-24-abs','',(N,'''	for _, dir := range []*string{&m.Topdir, &m.Fabdir} {
		abs, err := filepath.Abs(*dir)
		if err != nil {
			return errors.Wrapf(err, "making %s absolute", *dir)
		}
		*dir = abs
	}
''','''	if err := m.absolute(); err != nil {
		return err
	}
'''),(N,'var errNoDriver =','''func (m *Main) absolute() (err error) {
	if m.Topdir, err = filepath.Abs(m.Topdir); err != nil {
		return errors.Wrap(err, "making top directory absolute")
	}
	m.Fabdir, err = filepath.Abs(m.Fabdir)
	return errors.Wrap(err, "making fab directory absolute")
}

var errNoDriver ='''))
m('ok-24-switch','',(N,'''	if errors.Is(err, errNoDriver) {
		return m.driverless(ctx)
	}
	if err != nil {
		return errors.Wrap(err, "ensuring driver is up to date")
	}
''','''	switch {
	case err == nil:
		// ok
	case errors.Is(err, errNoDriver):
		return m.driverless(ctx)
	default:
		return errors.Wrap(err, "ensuring driver is up to date")
	}
'''))
m('ok-24-dl','',(N,'''	ctx = WithVerbose(ctx, m.Verbose)
	ctx = WithForce(ctx, m.Force)
	ctx = WithDryRun(ctx, m.DryRun)

	db, err''','''	ctx = m.withOptions(ctx)

	db, err'''),(N,'var errNoDriver =','''func (m *Main) withOptions(ctx context.Context) context.Context {
	if m.DryRun {
		ctx = WithDryRun(ctx, true)
	}
	return WithForce(WithVerbose(ctx, m.Verbose), m.Force)
}

var errNoDriver ='''))
m('ok-24-run','',(N,'	return con.Run(ctx, targets...)\n','''	if err := con.Run(ctx, targets...); err != nil {
		return err
	}
	return nil
'''))
m('ok-24-t','',(T,'''	var (
		fabdir  string
		topdir  string
		verbose bool
''','''	var (
		fabdir  string
		topdir  string
		verbose = flag.Bool("v", false, "run verbosely")
'''),(T,'''	flag.BoolVar(&verbose, "v", false, "run verbosely")
''',''),(T,'(ctx, verbose)','(ctx, *verbose)'))
m('ok-24-t2','',(T,'''	args := flag.Args()
	if len(args) == 0 && !list {''','''	args := flag.Args()
	if flag.NArg() == 0 && !list {'''))
m('ok-24-t3','',(T,'''	targets, err := con.ParseArgs(args)
	if err != nil {
		fatalf("Parsing args: %s", err)
	}

	if err := con.Run(ctx, targets...); err != nil {
		fatalf("Error: %s", err)
	}
''','''	if err := run(ctx, con, args); err != nil {
		fatalf("Error: %s", err)
	}
'''),(T,'''func fatalf(''','''func run(ctx context.Context, con *fab.Controller, args []string) error {
	targets, err := con.ParseArgs(args)
	if err != nil {
		return fmt.Errorf("parsing args: %w", err)
	}
	return con.Run(ctx, targets...)
}

func fatalf('''))
m('ok-24-f','',(F,'''	m := fab.Main{
		Fabdir:  fabdir,
		Verbose: verbose,
		List:    list,
		Force:   force,
		DryRun:  dryrun,
		Args:    flag.Args(),
	}
	if err := m.Run(context.Background()); err != nil {
		fmt.Printf("Error: %s\\n", err)
		os.Exit(1)
	}
''','''	m := new(fab.Main)
	m.Fabdir, m.Verbose, m.List = fabdir, verbose, list
	m.Force = force
	m.DryRun = dryrun
	m.Args = flag.Args()
	err = m.Run(context.Background())
	if err == nil {
		return
	}
	fmt.Printf("Error: %s\\n", err)
	os.Exit(1)
'''))
