M=[]
def m(name, prop, *eds): M.append((name, prop, list(eds)))
X,C,R,U,Y,L,G,RG,F='context.go','controller.go','register.go','runner.go','yaml.go','clean.go','gate.go','registry.go','files.go'
m('19-depth','C19',(U,'''	con.mu.Lock()
	depth := con.depth
	con.mu.Unlock()

	if depth''','''	depth := con.depth

	if depth'''))
m('19-early','C19',(U,'''	con.mu.Lock()
	con.depth--
	if con.depth < 0 {
		con.depth = 0
	}
	con.mu.Unlock()''','''	con.mu.Lock()
	if con.depth == 0 {
		return
	}
	con.depth--
	con.mu.Unlock()'''))
m('19-mapout','C19',(R,'''	con.mu.Lock()
	keys := maps.Keys(con.targetsByName)
	con.mu.Unlock()''','''	con.mu.Lock()
	byName := con.targetsByName
	con.mu.Unlock()
	keys := maps.Keys(byName)'''))
m('19-descunder','C19',(R,'''		con.mu.Lock()
		tuple, ok := con.targetsByAddr[addr]
		con.mu.Unlock()
''','''		con.mu.Lock()
		defer con.mu.Unlock()
		tuple, ok := con.targetsByAddr[addr]
'''))
m('19-auto','C19',(L,'''		autocleanMu.Lock()
		autocleanFiles := autocleanRegistry.Slice()
		files = append(files, autocleanFiles...)
		autocleanMu.Unlock()''','''		autocleanFiles := autocleanRegistry.Slice()
		files = append(files, autocleanFiles...)'''))
m('19-waitunder','C19',(U,'''				con.ran[addr] = o
			}
			con.mu.Unlock()

			if ok {
				// This target was launched in a different goroutine.
				// Wait for it to produce a result.
				o.g.wait()
''','''				con.ran[addr] = o
			}
			if ok {
				o.g.wait()
			}
			con.mu.Unlock()

			if ok {
'''))
m('19-capture','C19',(U,'''				err := target.Run(ctx, con)
				if err''','''				addrErr := target.Run(ctx, con)
				err = addrErr
				if err'''),(U,'''		addr, err := targetAddr(target)
		if err != nil {''','''		var addr targetID
		addr, err = targetAddr(target)
		if err != nil {'''),(U,'''		errs    = make([]error, len(targets))
''','''		errs    = make([]error, len(targets))
		err     error
'''))
m('19-regall','C19',(RG,'''	r.mu.Lock()
	val, ok := r.items[name]
	r.mu.Unlock()''','''	val, ok := r.items[name]'''))
m('19-dtcheck','C19',(Y,'''	dt.mu.Lock()
	defer dt.mu.Unlock()

	if dt.Target == nil {''','''	if dt.Target != nil {
		return dt.Target, nil
	}

	dt.mu.Lock()
	defer dt.mu.Unlock()

	if dt.Target == nil {'''))
m('19-reading','C19',(Y,'''			con.mu.Lock()
			reading := con.reading[tdir] > 0
			con.mu.Unlock()
''','''			reading := con.reading[tdir] > 0
'''))
m('19-readfile','C19',(Y,'''			con.mu.Lock()
			reading := con.reading[tdir] > 0
			con.mu.Unlock()
			if reading {
''','''			con.mu.Lock()
			reading := con.reading[tdir] > 0
			if !reading {
				if err := con.ReadYAMLFile(tdir); err != nil {
					con.mu.Unlock()
					return nil, err
				}
			}
			con.mu.Unlock()
			if reading {
'''))
m('19-gateopen','C19',(G,'''	g.c.L.Lock()
	wasOpen := g.open
	g.open = open
''','''	wasOpen := g.open
	g.c.L.Lock()
	g.open = open
'''))
m('19-gatefast','C19',(G,'''	g.c.L.Lock()
	for !g.open {''','''	if g.open {
		return
	}
	g.c.L.Lock()
	for !g.open {'''))
m('19-order','C19',(Y,'''	con.mu.Lock()
	con.reading[rel]++
	con.mu.Unlock()
''','''	con.mu.Lock()
	if dt, ok := con.targetsByName[rel].target.(*deferredResolutionTarget); ok {
		dt.mu.Lock()
		dt.Name = rel
		dt.mu.Unlock()
	}
	con.reading[rel]++
	con.mu.Unlock()
'''))
m('19-double','C19',(R,'''	con.mu.Lock()
	con.targetsByName[name] = tuple
''','''	con.mu.Lock()
	if old, _ := con.RegistryTarget(name); old != nil {
		tuple.doc = doc
	}
	con.targetsByName[name] = tuple
'''))
m('19-print','C19',(U,'''				if verbose {
					con.Indentf(''','''				if verbose && con.depth > 0 {
					con.Indentf('''))
m('19-errleak','C19',(Y,'''	dt.mu.Lock()
	defer dt.mu.Unlock()

	if dt.Target == nil {
		target, _ := con.RegistryTarget(dt.Name)
		if target == nil {
			return nil, fmt.Errorf("cannot resolve target %s", dt.Name)
		}
		dt.Target = target
	}

	return dt.Target, nil''','''	dt.mu.Lock()

	if dt.Target == nil {
		target, _ := con.RegistryTarget(dt.Name)
		if target == nil {
			return nil, fmt.Errorf("cannot resolve target %s", dt.Name)
		}
		dt.Target = target
	}

	dt.mu.Unlock()
	return dt.Target, nil'''))
m('19-copier','C19',(U,'''	con.mu.Lock()
	depth := con.depth
	con.mu.Unlock()

	return &ind''','''	depth := con.depth

	return &ind'''))
m('r19-defer','',(U,'''	con.mu.Lock()
	con.depth++
	con.mu.Unlock()''','''	con.mu.Lock()
	defer con.mu.Unlock()
	con.depth++'''),(RG,'''	r.mu.Lock()
	val, ok := r.items[name]
	r.mu.Unlock()
	return val, ok''','''	r.mu.Lock()
	defer r.mu.Unlock()
	val, ok := r.items[name]
	return val, ok'''))
m('r19-helper','',(U,'''	con.mu.Lock()
	depth := con.depth
	con.mu.Unlock()

	if depth''','''	depth := con.currentDepth()

	if depth'''),(U,'''	con.mu.Lock()
	depth := con.depth
	con.mu.Unlock()

	return &ind''','''	depth := con.currentDepth()

	return &ind'''),(U,'func (con *Controller) decDepth','''func (con *Controller) currentDepth() (n int) {
	con.locked(func() { n = con.depth })
	return n
}

func (con *Controller) locked(f func()) {
	con.mu.Lock()
	defer con.mu.Unlock()
	f()
}

func (con *Controller) decDepth'''))
m('r19-rw','',(RG,'sync.Mutex','sync.RWMutex'),(RG,'''	r.mu.Lock()
	val, ok := r.items[name]
	r.mu.Unlock()''','''	r.mu.RLock()
	val, ok := r.items[name]
	r.mu.RUnlock()'''))
m('19-rwwrite','C19',(RG,'sync.Mutex','sync.RWMutex'),(RG,'''	r.mu.Lock()
	r.items[name] = val
	r.mu.Unlock()''','''	r.mu.RLock()
	r.items[name] = val
	r.mu.RUnlock()'''))
m('r19-atomic','',(C,'	depth int\n','	depth atomic.Int64\n'),(C,'	"sync"','	"sync"\n	"sync/atomic"'),(U,'''	con.mu.Lock()
	con.depth++
	con.mu.Unlock()''','''	con.depth.Add(1)'''),(U,'''	con.mu.Lock()
	con.depth--
	if con.depth < 0 {
		con.depth = 0
	}
	con.mu.Unlock()''','''	if con.depth.Add(-1) < 0 {
		con.depth.Store(0)
	}'''),(U,'''	con.mu.Lock()
	depth := con.depth
	con.mu.Unlock()

	if depth''','''	depth := con.depth.Load()

	if depth'''),(U,'''	con.mu.Lock()
	depth := con.depth
	con.mu.Unlock()

	return &ind''','''	depth := con.depth.Load()

	return &ind'''))
m('r19-claim','',(U,'''			con.mu.Lock()
			o, ok := con.ran[addr]
			if !ok {
				o = &outcome{g: newGate(false), target: target}
				con.ran[addr] = o
			}
			con.mu.Unlock()
''','''			o, ok := con.claim(addr, target)
'''),(U,'func (con *Controller) decDepth','''func (con *Controller) claim(addr targetID, target Target) (*outcome, bool) {
	con.mu.Lock()
	defer con.mu.Unlock()
	if o, ok := con.ran[addr]; ok {
		return o, true
	}
	o := &outcome{g: newGate(false), target: target}
	con.ran[addr] = o
	return o, false
}

func (con *Controller) decDepth'''))
m('r19-two','',(R,'''	con.mu.Lock()
	keys := maps.Keys(con.targetsByName)
	con.mu.Unlock()''','''	con.mu.Lock()
	keys := make([]string, 0, len(con.targetsByName))
	for k := range con.targetsByName {
		keys = append(keys, k)
	}
	con.mu.Unlock()'''),(R,'''
	"github.com/bobg/go-generics/v2/maps"
''',''))
