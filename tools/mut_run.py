M = []
def m(name, prop, *edits): M.append((name, prop, list(edits)))
F='runner.go'
CL='''			con.mu.Lock()
			o, ok := con.ran[addr]
			if !ok {
				o = &outcome{g: newGate(false), target: target}
				con.ran[addr] = o
			}
			con.mu.Unlock()
'''
m('01-twosections','C01',(F,CL,'''			con.mu.Lock()
			o, ok := con.ran[addr]
			con.mu.Unlock()
			if !ok {
				o = &outcome{g: newGate(false), target: target}
				con.mu.Lock()
				con.ran[addr] = o
				con.mu.Unlock()
			}
'''))
m('01-keepalive','C01',(F,'newGate(false), target: target}','newGate(false)}'))
m('01-addronly','C01',('register.go','targetID{typ: v.Type(), addr: uint','targetID{addr: uint'))
m('01-noptr','C01',('register.go','if v.Kind() != reflect.Pointer {','if v.Kind() != reflect.Pointer && v.Kind() != reflect.Map {'))
m('01-direct','C01',('seq.go','if err := con.Run(ctx, t); err != nil {','if err := t.Run(ctx, con); err != nil {'))
m('01-delete','C01',(F,'''				o.err = err
				o.g.set(true)
''','''				o.err = err
				o.g.set(true)
				if err != nil {
					con.mu.Lock()
					delete(con.ran, addr)
					con.mu.Unlock()
				}
'''))
m('01-unresolved','C01',(F,'			target, err = d.resolve(con)\n','			_, err = d.resolve(con)\n'))
m('01-err','C01',(F,'errs[i] = o.err\n','_ = o.err\n'))
m('02-break','C02',(F,'''		addr, err := targetAddr(target)
		if err != nil {
			errs[i] = err
			continue
''','''		addr, err := targetAddr(target)
		if err != nil {
			errs[i] = err
			break
'''))
m('02-return','C02',(F,'''		addr, err := targetAddr(target)
		if err != nil {
			errs[i] = err
			continue
''','''		addr, err := targetAddr(target)
		if err != nil {
			return err
'''))
m('02-loopvar','C02',(F,'''		i, target := i, target // Go loop-var pitfall
''','''		target := target
'''))
m('02-addinside','C02',(F,'''		wg.Add(1)
		go func() {
''','''		go func() {
			wg.Add(1)
'''))
m('02-first','C02',(F,'return errors.Join(errs...)','''for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil'''))
m('02-errshadow','C02',(F,'''				errs[i] = err
				o.err = err
''','''				if GetForce(ctx) {
					errs[i] = err
				}
				o.err = err
'''))
m('02-resolveskip','C02',(F,'''			if err != nil {
				errs[i] = err
				continue
			}
		}
''','''			if err != nil {
				continue
			}
		}
'''))
m('02-waitednil','C02',(F,'				errs[i] = o.err\n',''))
m('02-nowait','C02',(F,'	wg.Wait()\n\n','	if verbose {\n\t\twg.Wait()\n\t}\n\n'))
m('03-order','C03',(F,'''				o.err = err
				o.g.set(true)
''','''				o.g.set(true)
				o.err = err
'''))
m('03-errpath','C03',(F,'''				errs[i] = err
				o.err = err
				o.g.set(true)
''','''				errs[i] = err
				if err != nil && verbose {
					return
				}
				o.err = err
				o.g.set(true)
'''))
m('03-signal','C03',('gate.go','g.c.Broadcast()','g.c.Signal()'))
m('03-if','C03',('gate.go','for !g.open {','if !g.open {'))
m('03-nowake','C03',('gate.go','if open && !wasOpen {','if open && wasOpen {'))
m('03-opened','C03',(F,'newGate(false)','newGate(true)'))
m('03-readearly','C03',(F,'''				o.g.wait()
				errs[i] = o.err
''','''				e := o.err
				o.g.wait()
				errs[i] = e
'''))
m('03-partial','C03',('gate.go','''	g.c.L.Lock()
	for !g.open {
		g.c.Wait()
	}
	g.c.L.Unlock()
''','''	g.c.L.Lock()
	if g.open {
		g.c.L.Unlock()
		return
	}
	g.c.Wait()
	g.c.L.Unlock()
'''))
# behaviour-preserving
m('r-helper','',(F,CL,'''			o, ok := con.claim(addr, target)
'''),(F,'func (con *Controller) Indentf','''func (con *Controller) claim(addr targetID, target Target) (*outcome, bool) {
	con.mu.Lock()
	defer con.mu.Unlock()
	if o, ok := con.ran[addr]; ok {
		return o, true
	}
	o := &outcome{g: newGate(false), target: target}
	con.ran[addr] = o
	return o, false
}

func (con *Controller) Indentf'''))
m('r-split','',(F,'''			if ok {
				// This target was launched in a different goroutine.
				// Wait for it to produce a result.
				o.g.wait()
				errs[i] = o.err
			} else {
				// This target was not previously launched,
				// so run it and then open its "outcome gate."
				if verbose {
					con.Indentf("Running %s", con.Describe(target))
				}
				err := target.Run(ctx, con)
				if err != nil {
					err = errors.Wrapf(err, "running %s", con.Describe(target))
				}
				errs[i] = err
				o.err = err
				o.g.set(true)
			}
''','''			if !ok {
				if verbose {
					con.Indentf("Running %s", con.Describe(target))
				}
				o.err = con.run1(ctx, target)
				o.g.set(true)
			} else {
				o.g.wait()
			}
			errs[i] = o.err
'''),(F,'func (con *Controller) Indentf','''func (con *Controller) run1(ctx context.Context, target Target) error {
	err := target.Run(ctx, con)
	return errors.Wrapf(err, "running %s", con.Describe(target))
}

func (con *Controller) Indentf'''))
m('r-bulk','',(F,'''		wg.Add(1)
		go func() {
			defer wg.Done()

''','''		wg.Add(1)
		go func() {
			defer func() { wg.Done() }()

'''))
m('r-mutexerrs','',(F,'errs    = make([]error, len(targets))','errs    []error\n\t\terrmu sync.Mutex'),(F,'''		i, target := i, target // Go loop-var pitfall

''','''		target := target
		addErr := func(err error) {
			errmu.Lock()
			errs = append(errs, err)
			errmu.Unlock()
		}

'''),(F,'for i, target := range','for _, target := range'),
(F,'''			if err != nil {
				errs[i] = err
				continue
			}
		}
''','''			if err != nil {
				addErr(err)
				continue
			}
		}
'''),(F,'''		addr, err := targetAddr(target)
		if err != nil {
			errs[i] = err
''','''		addr, err := targetAddr(target)
		if err != nil {
			addErr(err)
'''),(F,'errs[i] = o.err\n','addErr(o.err)\n'),(F,'''				errs[i] = err
				o.err = err
''','''				addErr(err)
				o.err = err
'''))
m('r-run-func','',(F,'''		wg.Add(1)
		go func() {
			defer wg.Done()

''','''		wg.Add(1)
		go func(i int, target Target) {
			defer wg.Done()

'''),(F,'''				o.err = err
				o.g.set(true)
			}
		}()
''','''				o.err = err
				o.g.set(true)
			}
		}(i, target)
'''))
m('r-gate','',('gate.go','''	g.c.L.Lock()
	wasOpen := g.open
	g.open = open
	if open && !wasOpen {
		g.c.Broadcast()
	}
	g.c.L.Unlock()
''','''	g.c.L.Lock()
	defer g.c.L.Unlock()
	g.open = open
	if open {
		g.c.Broadcast()
	}
'''),('gate.go','''	g.c.L.Lock()
	for !g.open {
		g.c.Wait()
	}
	g.c.L.Unlock()
''','''	g.c.L.Lock()
	defer g.c.L.Unlock()
	for {
		if g.open {
			return
		}
		g.c.Wait()
	}
'''))
