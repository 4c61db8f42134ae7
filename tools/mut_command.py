M=[]
def m(name, prop, *eds): M.append((name, prop, list(eds)))
C='command.go'
# --- C16
m('16-ctx','C16',(C,'exec.CommandContext(ctx, cmdname','exec.CommandContext(context.Background(), cmdname'))
m('16-args','C16',(C,'		args    = c.Args\n','		args    = c.Args[:len(c.Args):len(c.Args)]\n'),(C,'	cmd := exec.CommandContext(ctx, cmdname, args...)','	if len(args) > 1024 {\n		args = args[:1024]\n	}\n	cmd := exec.CommandContext(ctx, cmdname, args...)'))
m('16-shellargs','C16',(C,'args = []string{"-c", c.Shell}','args = append([]string{"-c", c.Shell}, c.Args...)'))
m('16-sh','C16',(C,'if cmdname = os.Getenv("SHELL"); cmdname == "" {','if cmdname = os.Getenv("SHELL"); !strings.HasPrefix(cmdname, "/") {'))
m('16-sh2','C16',(C,'cmdname = "/bin/sh"','cmdname = "/bin/bash"'))
m('16-trim','C16',(C,'[]string{"-c", c.Shell}','[]string{"-c", strings.TrimSpace(c.Shell)}'))
m('16-env','C16',(C,'append(os.Environ(), c.Env...)','append(c.Env, os.Environ()...)'))
m('16-env2','C16',(C,'	cmd.Env = append(os.Environ(), c.Env...)','	if len(c.Env) > 0 {\n		cmd.Env = c.Env\n	}'))
m('16-dir','C16',(C,'	cmd.Dir = c.Dir\n','	if c.Cmd == "" {\n		cmd.Dir = c.Dir\n	}\n'))
m('16-err','C16',(C,'			Err:    err,\n','			Err:    errors.New(err.Error()),\n'))
m('16-drop','C16',(C,'	err = cmd.Run()\n	if err != nil','	err = cmd.Run()\n	var ee *exec.ExitError\n	if errors.As(err, &ee) && ee.ExitCode() == 141 {\n		return nil\n	}\n	if err != nil'))
m('16-nocap','C16',(C,'if err != nil && buf.Len() > 0 {','if err != nil && buf.Len() > 0 && c.StdinFile == "" {'))
m('16-unwrap','C16',(C,'''func (e CommandErr) Unwrap() error {
	return e.Err''','''func (e CommandErr) Unwrap() error {
	return errors.Unwrap(e.Err)'''))
m('16-dry','C16',(C,'	if GetDryRun(ctx) {\n','	if GetDryRun(ctx) || ctx.Err() != nil {\n'))
m('16-retry','C16',(C,'	err = cmd.Run()\n','	err = cmd.Run()\n	if errors.Is(err, os.ErrProcessDone) {\n		err = cmd.Run()\n	}\n'))
m('16-timeout','C16',(C,'	cmd := exec.Comm','	ctx, cancel := context.WithTimeout(ctx, 1<<40)\n	defer cancel()\n	cmd := exec.Comm'))
m('16-self','C16',(C,'	cmd.Dir = c.Dir\n','	c.Env = append(c.Env, "FAB=1")\n	cmd.Dir = c.Dir\n'))
m('16-path','C16',(C,'	cmd.Dir = c.Dir\n','	if c.Dir != "" && strings.HasPrefix(cmdname, "./") {\n		cmd.Path = cmdname\n	}\n	cmd.Dir = c.Dir\n'))
m('16-closeovr','C16',(C,'''				if err == nil {
					err = errors.Wrapf(closeErr, "closing stderr file %s", stderrFile)
				}
			}()
			cmd.Stderr = f
		}
	}
''','''				if closeErr != nil || err == nil {
					err = errors.Wrapf(closeErr, "closing stderr file %s", stderrFile)
				}
			}()
			cmd.Stderr = f
		}
	}
'''))
m('16-errv','C16',(C,'fmt.Sprintf("%s; output follows\\n%s", e.Err, string(e.Output))','fmt.Sprintf("%s", e.Err)'))
# --- C15
m('15-append','C15',(C,'os.OpenFile(stdoutFile, os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0644)','os.OpenFile(stdoutFile, os.O_WRONLY|os.O_CREATE, 0644)'))
m('15-append2','C15',(C,'os.OpenFile(stderrFile, os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0644)','os.OpenFile(stderrFile, os.O_WRONLY|os.O_APPEND, 0644)'))
m('15-create','C15',(C,'f, openErr := os.Create(stderrFile)','f, openErr := os.OpenFile(stderrFile, os.O_WRONLY|os.O_CREATE, 0644)'))
m('15-same','C15',(C,'case stdoutFile == stderrFile:','case c.StdoutFile == c.StderrFile && !stdoutAppend:'))
m('15-same2','C15',(C,'case stdoutFile == stderrFile:\n			cmd.Stderr = cmd.Stdout\n','case stdoutFile == stderrFile && stdoutAppend:\n			cmd.Stderr = cmd.Stdout\n'))
m('15-disagree','C15',(C,'if stdoutFile == stderrFile && stdoutAppend != stderrAppend {','if stdoutAppend != stderrAppend {'))
m('15-disagree2','C15',(C,'if stdoutFile == stderrFile && stdoutAppend != stderrAppend {','if stdoutFile == stderrFile && stdoutFile != "" {'))
m('15-trim','C15',(C,'stderrFile = strings.TrimLeft(stderrFile, "> ")','stderrFile = strings.TrimRight(stderrFile, "> ")'))
m('rc-fnnil','',(C,'''		if w := c.StdoutFn(ctx, con); w != nil {
			if closer, ok := w.(io.Closer); ok {
				defer func() {
					closeErr := closer.Close()
					if err == nil {
						err = errors.Wrap(closeErr, "closing stdout")
					}
				}()
			}
			cmd.Stdout = w
		}
''','''		w := c.StdoutFn(ctx, con)
		if closer, ok := w.(io.Closer); ok {
			defer func() {
				closeErr := closer.Close()
				if err == nil {
					err = errors.Wrap(closeErr, "closing stdout")
				}
			}()
		}
		cmd.Stdout = w
'''))
m('15-fnclose','C15',(C,'''		if w := c.StderrFn(ctx, con); w != nil {
			if closer, ok := w.(io.Closer); ok {''','''		if w := c.StderrFn(ctx, con); w != nil {
			if closer, ok := w.(io.WriteCloser); ok && GetVerbose(ctx) {'''))
m('15-fncloseerr','C15',(C,'''					if err == nil {
						err = errors.Wrap(closeErr, "closing stderr")
					}
''','''					_ = closeErr
'''))
m('15-noclose','C15',(C,'''			defer func() {
				closeErr := f.Close()
				if err == nil {
					err = errors.Wrapf(closeErr, "closing stderr file %s", stderrFile)
				}
			}()
			cmd.Stderr = f

		default:''','''			cmd.Stderr = f

		default:'''))
m('15-verbose','C15',(C,'cmd.Stderr = con.IndentingCopier(os.Stderr, "    ")','cmd.Stderr = con.IndentingCopier(os.Stdout, "    ")'))
m('15-verbose2','C15',(C,'''		if cmd.Stderr == nil {
			cmd.Stderr = &buf
		}
''','''		if cmd.Stderr == nil && cmd.Stdout == &buf {
			cmd.Stderr = &buf
		}
'''))
m('15-order','C15',(C,'	if cmd.Stderr == nil && c.StderrFn != nil {','	if c.Stderr == nil && c.StderrFn != nil && cmd.Stdout != nil {'))
m('15-stdin','C15',(C,'	cmd.Stdin = c.Stdin\n','	if c.Cmd == "" {\n		cmd.Stdin = c.Stdin\n	}\n'))
m('15-stdin2','C15',(C,'''		defer f.Close()
		cmd.Stdin = f''','''		cmd.Stdin = f'''))
m('15-fnargs','C15',(C,'c.StderrFn(ctx, con)','c.StderrFn(context.Background(), con)'))
m('15-closeerr','C15',(C,'''				closeErr := f.Close()
				if err == nil {
					err = errors.Wrapf(closeErr, "closing stdout file %s", stdoutFile)
				}
			}()
			cmd.Stdout = f
		}
	}
''','''				_ = f.Close()
			}()
			cmd.Stdout = f
		}
	}
'''))
m('15-closeerr2','C15',(C,'''				if err == nil {
					err = errors.Wrapf(closeErr, "closing stdout file %s", stdoutFile)
				}
			}()
			cmd.Stdout = f
		}
	}
''','''				if err != nil {
					err = errors.Wrapf(closeErr, "closing stdout file %s", stdoutFile)
				}
			}()
			cmd.Stdout = f
		}
	}
'''))
# refactorings
m('rc-helper','',(C,'''	if stdoutFile != "" {
		if stdoutAppend {
			f, openErr := os.OpenFile(stdoutFile, os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0644)
			if openErr != nil {
				return errors.Wrapf(openErr, "opening %s for appending", stdoutFile)
			}
			defer func() {
				closeErr := f.Close()
				if err == nil {
					err = errors.Wrapf(closeErr, "closing stdout file %s", stdoutFile)
				}
			}()
			cmd.Stdout = f
		} else {
			f, openErr := os.Create(stdoutFile)
			if openErr != nil {
				return errors.Wrapf(openErr, "opening %s for writing", stdoutFile)
			}
			defer func() {
				closeErr := f.Close()
				if err == nil {
					err = errors.Wrapf(closeErr, "closing stdout file %s", stdoutFile)
				}
			}()
			cmd.Stdout = f
		}
	}
''','''	if stdoutFile != "" {
		f, openErr := openOutput(stdoutFile, stdoutAppend)
		if openErr != nil {
			return openErr
		}
		defer closeOutput(f, "stdout", stdoutFile, &err)
		cmd.Stdout = f
	}
'''),(C,'''		case stderrAppend:
			f, openErr := os.OpenFile(stderrFile, os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0644)
			if openErr != nil {
				return errors.Wrapf(openErr, "opening %s for appending", stderrFile)
			}
			defer func() {
				closeErr := f.Close()
				if err == nil {
					err = errors.Wrapf(closeErr, "closing stderr file %s", stderrFile)
				}
			}()
			cmd.Stderr = f

		default:
			f, openErr := os.Create(stderrFile)
			if openErr != nil {
				return errors.Wrapf(openErr, "opening %s for writing", stderrFile)
			}
			defer func() {
				closeErr := f.Close()
				if err == nil {
					err = errors.Wrapf(closeErr, "closing stderr file %s", stderrFile)
				}
			}()
			cmd.Stderr = f
''','''		default:
			f, openErr := openOutput(stderrFile, stderrAppend)
			if openErr != nil {
				return openErr
			}
			defer closeOutput(f, "stderr", stderrFile, &err)
			cmd.Stderr = f
'''),(C,'''// Desc implements Target.Desc.
func (*Command)''','''func openOutput(name string, appending bool) (*os.File, error) {
	flags := os.O_WRONLY | os.O_CREATE
	if appending {
		flags |= os.O_APPEND
	} else {
		flags |= os.O_TRUNC
	}
	f, err := os.OpenFile(name, flags, 0644)
	return f, errors.Wrapf(err, "opening %s for output", name)
}

func closeOutput(f *os.File, stream, name string, err *error) {
	closeErr := f.Close()
	if *err == nil {
		*err = errors.Wrapf(closeErr, "closing %s file %s", stream, name)
	}
}

// Desc implements Target.Desc.
func (*Command)'''))
m('rc-cmdline','',(C,'''	var (
		cmdname = c.Cmd
		args    = c.Args
	)
	if cmdname == "" {
		if cmdname = os.Getenv("SHELL"); cmdname == "" {
			cmdname = "/bin/sh"
		}
		args = []string{"-c", c.Shell}
	}
''','''	cmdname, args := c.commandLine()
'''),(C,'''// Desc implements Target.Desc.
func (*Command)''','''func (c *Command) commandLine() (string, []string) {
	if c.Cmd != "" {
		return c.Cmd, c.Args
	}
	shell, ok := os.LookupEnv("SHELL")
	if !ok || shell == "" {
		shell = "/bin/sh"
	}
	return shell, []string{"-c", c.Shell}
}

// Desc implements Target.Desc.
func (*Command)'''))
m('rc-writers','',(C,'''	if cmd.Stdout == nil && c.StdoutFn != nil {
		if w := c.StdoutFn(ctx, con); w != nil {
			if closer, ok := w.(io.Closer); ok {
				defer func() {
					closeErr := closer.Close()
					if err == nil {
						err = errors.Wrap(closeErr, "closing stdout")
					}
				}()
			}
			cmd.Stdout = w
		}
	}
	if cmd.Stderr == nil && c.StderrFn != nil {
		if w := c.StderrFn(ctx, con); w != nil {
			if closer, ok := w.(io.Closer); ok {
				defer func() {
					closeErr := closer.Close()
					if err == nil {
						err = errors.Wrap(closeErr, "closing stderr")
					}
				}()
			}
			cmd.Stderr = w
		}
	}
''','''	closeWriter := func(w io.Writer, what string) {
		closer, ok := w.(io.Closer)
		if !ok {
			return
		}
		if closeErr := closer.Close(); err == nil {
			err = errors.Wrapf(closeErr, "closing %s", what)
		}
	}
	if cmd.Stdout == nil && c.StdoutFn != nil {
		if w := c.StdoutFn(ctx, con); w != nil {
			defer closeWriter(w, "stdout")
			cmd.Stdout = w
		}
	}
	if cmd.Stderr == nil && c.StderrFn != nil {
		if w := c.StderrFn(ctx, con); w != nil {
			defer closeWriter(w, "stderr")
			cmd.Stderr = w
		}
	}
'''))
m('rc-order','',(C,'''	cmd.Stdin = c.Stdin
	if c.StdinFile != "" {
		f, err := os.Open(c.StdinFile)
		if err != nil {
			return errors.Wrapf(err, "opening %s", c.StdinFile)
		}
		defer f.Close()
		cmd.Stdin = f
	}

	err = cmd.Run()
	if err != nil && buf.Len() > 0 {
		err = CommandErr{
			Err:    err,
			Output: buf.Bytes(),
		}
	}
	return err
''','''	if c.StdinFile == "" {
		cmd.Stdin = c.Stdin
	} else {
		f, err := os.Open(c.StdinFile)
		if err != nil {
			return errors.Wrapf(err, "opening %s", c.StdinFile)
		}
		defer f.Close()
		cmd.Stdin = f
	}

	if err = cmd.Run(); err == nil {
		return nil
	}
	output := buf.Bytes()
	if len(output) == 0 {
		return err
	}
	return CommandErr{Err: err, Output: output}
'''))
