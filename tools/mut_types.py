M = []
T = 'types.go'


def m(name, prop, *edits):
    M.append((name, prop, edits))


def drop(name, old, new=''):
    m(name, 'C34', (T, old, new))


# signatures
drop('s-variadic', '''	if sig.Variadic() != fn.IsVariadic() {
		return fmt.Errorf("variadic mismatch")
	}
''')
drop('s-variadic2', 'sig.Variadic() != fn.IsVariadic()', 'sig.Variadic() && !fn.IsVariadic()')
drop('s-results', '''	if results.Len() != fn.NumOut() {''', '''	if results.Len() > fn.NumOut() {''')
drop('s-params', 'if nParamsWithReceiver != fn.NumIn() {', 'if nParamsWithReceiver < fn.NumIn() {')
drop('s-kind', '''	if fn.Kind() != reflect.Func {
		return fmt.Errorf("kind is %v, not func", fn.Kind())
	}
''')
drop('s-p1', 'for i := 0; i < params.Len(); i++ {', 'for i := 1; i < params.Len(); i++ {')
drop('s-r1', 'for i := 0; i < results.Len(); i++ {', 'for i := 0; i < results.Len()-1; i++ {')
drop('s-step', 'for i := 0; i < params.Len(); i++ {', 'for i := 0; i < params.Len(); i += 2 {')
drop('s-in', 'fn.In(j)', 'fn.In(i)')
drop('s-j', '			j++\n', '			j = 1\n')
drop('s-out', 'results.At(i).Type(), fn.Out(i)', 'results.At(0).Type(), fn.Out(0)')
drop('s-swallow', 'return errors.Wrapf(err, "checking result %d", i)', 'continue')
drop('s-swallow2', 'return errors.Wrapf(err, "checking param %d", i)', 'break')
drop('s-recv', 'hasReceiver := skipReceiver && (sig.Recv() != nil)', 'hasReceiver := skipReceiver')
drop('s-recv2', 'hasReceiver := skipReceiver && (sig.Recv() != nil)', 'hasReceiver := (sig.Recv() != nil)')
drop('s-over', '''	results := sig.Results()
''', '''	results := sig.Results()
	if results.Len() > 1 {
		return fmt.Errorf("too many results")
	}
''')
drop('s-ok1', '''	params := sig.Params()
''', '''	params := sig.Params()
	if params.Len() == 0 && fn.NumOut() == 0 {
		return nil
	}
''')
# types
drop('t-seen-key', 'pair := typeCheckerPair{t: t, r: r}', 'pair := typeCheckerPair{t: t}')
drop('t-seen-key2', 'pair := typeCheckerPair{t: t, r: r}', 'pair := typeCheckerPair{r: r}')
drop('t-seen-global', 'checker := typeChecker{seen: set.New[typeCheckerPair]()}', 'checker := typeChecker{seen: allSeen}')
M[-1] = ('t-seen-global', 'C34', M[-1][2] + ((T, 'var _ Target = nullTarget{}', 'var allSeen = set.New[typeCheckerPair]()\n\nvar _ Target = nullTarget{}'),))
drop('t-name', 'if named.Obj().Name() != r.Name() || pkgpath != r.PkgPath() {', 'if named.Obj().Name() != r.Name() || pkgpath == "" && r.PkgPath() != "" {')
drop('t-pkg', 'if named.Obj().Name() != r.Name() || pkgpath != r.PkgPath() {', 'if pkgpath != r.PkgPath() {')
drop('t-and', 'if named.Obj().Name() != r.Name() || pkgpath != r.PkgPath() {', 'if named.Obj().Name() != r.Name() && pkgpath != r.PkgPath() {')
drop('t-pkgname', 'pkgpath = pkg.Path()', 'pkgpath = pkg.Name()')
drop('t-basicpkg', '''		if p := r.PkgPath(); p != "" && p != "unsafe" {
			return fmt.Errorf("types %s and %s do not match", t, r)
		}
''', '')
drop('t-rname', '''	} else if r.Name() != "" {
		return fmt.Errorf("types %s and %s do not match", t, r)
	}
''', '	}\n')
for k in ['Array', 'Chan', 'Interface', 'Map', 'Pointer', 'Slice', 'Struct']:
    rk = 'Ptr' if k == 'Pointer' else k
    drop('t-kind-' + k, '''		if r.Kind() != reflect.%s {
			return fmt.Errorf("kinds %s and %%v do not match", r.Kind())
		}
''' % (rk, k))
drop('t-kind-sw', '		if r.Kind() != reflect.Slice {', '		if r.Kind() != reflect.Slice && r.Kind() != reflect.Array {')
drop('t-alen', '''		if t.Len() != int64(r.Len()) {
			return fmt.Errorf("array lengths %d and %d do not match", t.Len(), r.Len())
		}
''')
drop('t-alen2', 't.Len() != int64(r.Len())', 't.Len() > int64(r.Len())')
drop('t-aelem', '''		return ch.checkTypesMatch(t.Elem(), r.Elem())

	case *types.Basic:''', '''		return nil

	case *types.Basic:''')
drop('t-selem', '''			return fmt.Errorf("kinds Slice and %v do not match", r.Kind())
		}
		return ch.checkTypesMatch(t.Elem(), r.Elem())''', '''			return fmt.Errorf("kinds Slice and %v do not match", r.Kind())
		}
		return nil''')
drop('t-mkey', '''		if err = ch.checkTypesMatch(t.Key(), r.Key()); err != nil {
			return err
		}
''')
drop('t-mkey2', 'ch.checkTypesMatch(t.Key(), r.Key())', 'ch.checkTypesMatch(t.Elem(), r.Key())')
drop('t-mkey3', '''		if err = ch.checkTypesMatch(t.Key(), r.Key()); err != nil {
			return err
		}
''', '''		if err = ch.checkTypesMatch(t.Key(), r.Key()); err == nil {
			return nil
		}
''')
drop('t-basic1', '''		case types.Int32:
			if r.Kind() == reflect.Int32 {''', '''		case types.Int32:
			if r.Kind() == reflect.Int {''')
drop('t-basic2', '''		case types.Uint8:
			if r.Kind() == reflect.Uint8 {
				return nil
			}
''', '''		case types.Uint8:
			return nil
''')
drop('t-basic3', '''		case types.Complex64:
			if r.Kind() == reflect.Complex64 {
				return nil
			}
''')
drop('t-basic4', '''		case types.Int:
			if r.Kind() == reflect.Int {''', '''		case types.Int, types.Int64:
			if r.Kind() == reflect.Int {''')
M[-1] = ('t-basic4', 'C34', M[-1][2] + ((T, '''		case types.Int64:
			if r.Kind() == reflect.Int64 {
				return nil
			}
''', ''),))
drop('t-dir1', 'if r.ChanDir() != reflect.SendDir {', 'if r.ChanDir() != reflect.RecvDir {')
drop('t-dir2', '''		case types.SendRecv:
			if r.ChanDir() != reflect.BothDir {
				return fmt.Errorf("channel direction SendRecv and %v do not match", r.ChanDir())
			}
''')
drop('t-dir3', 'if r.ChanDir() != reflect.RecvDir {', 'if r.ChanDir()&reflect.RecvDir == 0 {')
drop('t-inum', '''		if methodSet.Len() != r.NumMethod() {
			return fmt.Errorf("method set lengths %d != %d", methodSet.Len(), r.NumMethod())
		}
''')
drop('t-inum2', 'methodSet.Len() != r.NumMethod()', 'methodSet.Len() > r.NumMethod()')
drop('t-iloop', 'for i := 0; i < methodSet.Len(); i++ {', 'for i := 1; i < methodSet.Len(); i++ {')
drop('t-iok', '''			if !ok {
				return fmt.Errorf("method %s is not in both types", f.Name())
			}
''', '''			if !ok {
				continue
			}
''')
drop('t-isig', '''			if err = ch.checkSignaturesMatch(sig, method.Type, false); err != nil {
				return errors.Wrapf(err, "checking %s", f.Name())
			}
''', '			_ = sig\n			_ = method\n')
drop('t-irecv', 'ch.checkSignaturesMatch(sig, method.Type, false)', 'ch.checkSignaturesMatch(sig, method.Type, true)')
drop('t-sig', 'return ch.checkSignaturesMatch(t, r, true)', 'return nil')
drop('t-nf', '''		if t.NumFields() != r.NumField() {
			return fmt.Errorf("number of fields %d != %d", t.NumFields(), r.NumField())
		}
''')
drop('t-fname', '''			if v.Name() != f.Name {
				return fmt.Errorf("field name %s != %s", v.Name(), f.Name)
			}
''')
drop('t-ftag', '''			if t.Tag(i) != string(f.Tag) {
				return fmt.Errorf("struct field tag mismatch in field %d", i)
			}
''')
drop('t-ftype', '''			if err = ch.checkTypesMatch(v.Type(), f.Type); err != nil {
				return errors.Wrapf(err, "checking field %d", i)
			}
''')
drop('t-floop', 'for i := 0; i < t.NumFields(); i++ {', 'for i := 0; i < t.NumFields()-1; i++ {')
drop('t-fblank', '			if v.Name() != f.Name {', '''			if v.Name() == "_" {
				continue
			}
			if v.Name() != f.Name {''')
drop('t-fi', 'r.Field(i)', 'r.Field(0)')
drop('t-unhandled', '	return fmt.Errorf("unhandled case")', '	return nil')
drop('t-over', '''	case *types.Slice:
''', '''	case *types.Slice:
		if _, ok := t.Elem().(*types.Slice); ok {
			return fmt.Errorf("unsupported")
		}
''')
# top
drop('p-skip', '''			return fmt.Errorf("%s not found in method set", name)''', '			continue')
drop('p-lookup', 'methodSet.Lookup(nil, name)', 'methodSet.Lookup(nil, "Run")')
drop('p-err', 'return errors.Wrapf(err, "checking method %s", name)', 'continue')
drop('p-recv', 'checker.checkSignaturesMatch(sig, targetMethod.Func.Type(), true)', 'checker.checkSignaturesMatch(sig, targetMethod.Func.Type(), false)')
drop('p-break', '''			return errors.Wrapf(err, "checking method %s", name)
		}
''', '''			return errors.Wrapf(err, "checking method %s", name)
		}
		break
''')
drop('p-notfunc', '''			return fmt.Errorf("%s is a %T, not a func", name, m.Obj())''', '			return nil')
drop('p-ptr', 'methodSet := types.NewMethodSet(typ)\n	for name', 'methodSet := types.NewMethodSet(types.NewPointer(typ))\n	for name')
drop('p-init1', 'for i := 0; i < targetType.NumMethod(); i++ {', 'for i := 1; i < targetType.NumMethod(); i++ {')
drop('p-init2', '		targetMethods[method.Name] = method\n', '		if method.Name != "Desc" {\n			targetMethods[method.Name] = method\n		}\n')
drop('p-init3', 'targetType.Method(i)', 'targetType.Method(0)')
drop('p-extra', 'func (nullTarget) Desc() string                           { return "(null)" }', 'func (nullTarget) Desc() string                           { return "(null)" }\n\nfunc (nullTarget) String() string { return "(null)" }')

# refactorings


def ok(name, *edits):
    m('ok-' + name, '', *[(T,) + e for e in edits])


ok('helper', ('''		if r.Kind() != reflect.Slice {
			return fmt.Errorf("kinds Slice and %v do not match", r.Kind())
		}
''', '''		if err := wantKind(r, reflect.Slice); err != nil {
			return err
		}
'''), ('// TODO: Handle param', '''func wantKind(r reflect.Type, k reflect.Kind) error {
	if r.Kind() != k {
		return fmt.Errorf("kinds %v and %v do not match", k, r.Kind())
	}
	return nil
}

// TODO: Handle param'''))
ok('wrap', ('''		return ch.checkTypesMatch(t.Elem(), r.Elem())

	case *types.Basic:''', '''		if err := ch.checkTypesMatch(t.Elem(), r.Elem()); err != nil {
			return errors.Wrap(err, "checking elements")
		}
		return nil

	case *types.Basic:'''))
ok('order', ('''			if v.Name() != f.Name {
				return fmt.Errorf("field name %s != %s", v.Name(), f.Name)
			}
''', ''), ('''				return errors.Wrapf(err, "checking field %d", i)
			}
''', '''				return errors.Wrapf(err, "checking field %d", i)
			}
			if f.Name != v.Name() {
				return fmt.Errorf("field name %s != %s", v.Name(), f.Name)
			}
'''))
ok('iface', ('''		for i := 0; i < methodSet.Len(); i++ {
			f, ok := methodSet.At(i).Obj().(*types.Func)
			if !ok {
				return fmt.Errorf("method set member %d is a %T, not a func", i, methodSet.At(i).Obj())
			}
''', '''		for i := 0; i < t.NumMethods(); i++ {
			f := t.Method(i)
'''), ('''		methodSet := types.NewMethodSet(t)
		if methodSet.Len() != r.NumMethod() {
			return fmt.Errorf("method set lengths %d != %d", methodSet.Len(), r.NumMethod())
''', '''		if t.NumMethods() != r.NumMethod() {
			return fmt.Errorf("method set lengths %d != %d", t.NumMethods(), r.NumMethod())
'''))
ok('dirs', ('''		switch t.Dir() {
		case types.SendRecv:
			if r.ChanDir() != reflect.BothDir {
				return fmt.Errorf("channel direction SendRecv and %v do not match", r.ChanDir())
			}
		case types.SendOnly:
			if r.ChanDir() != reflect.SendDir {
				return fmt.Errorf("channel direction SendOnly and %v do not match", r.ChanDir())
			}
		case types.RecvOnly:
			if r.ChanDir() != reflect.RecvDir {
				return fmt.Errorf("channel direction RecvOnly and %v do not match", r.ChanDir())
			}
		}
''', '''		var want reflect.ChanDir
		switch t.Dir() {
		case types.SendOnly:
			want = reflect.SendDir
		case types.RecvOnly:
			want = reflect.RecvDir
		default:
			want = reflect.BothDir
		}
		if r.ChanDir() != want {
			return fmt.Errorf("channel directions %v and %v do not match", t.Dir(), r.ChanDir())
		}
'''))
KS = ["Bool", "Int", "Int8", "Int16", "Int32", "Int64", "Uint", "Uint8", "Uint16", "Uint32", "Uint64", "Uintptr", "Float32", "Float64", "Complex64", "Complex128", "String", "UnsafePointer"]
sw = '		switch t.Kind() {\n' + ''.join('		case types.%s:\n			if r.Kind() == reflect.%s {\n				return nil\n			}\n' % (k, k) for k in KS) + '		}\n'
tab = 'var kinds = map[types.BasicKind]reflect.Kind{\n' + ''.join('	types.%s: reflect.%s,\n' % (k, k) for k in KS) + '}\n\n'
ok('table', (sw, '''		if k, ok := kinds[t.Kind()]; ok && k == r.Kind() {
			return nil
		}
'''), ('// TODO: Handle param', tab + '// TODO: Handle param'))
m('t-table', 'C34', (T, sw, '''		if k, ok := kinds[t.Kind()]; ok && k == r.Kind() {
			return nil
		}
'''), (T, '// TODO: Handle param', tab.replace('reflect.Uint16', 'reflect.Uint32') + '// TODO: Handle param'))
m('t-table2', 'C34', (T, sw, '''		if k, ok := kinds[t.Kind()]; ok && k == r.Kind() {
			return nil
		}
'''), (T, '// TODO: Handle param', tab.replace('	types.Uint16: reflect.Uint16,\n', '') + '// TODO: Handle param'))
ok('table2', (sw, '''		if kinds[t.Kind()] == r.Kind() {
			return nil
		}
'''), ('// TODO: Handle param', tab + '// TODO: Handle param'))
ok('bswitch', (sw, '		var want reflect.Kind\n' + sw.replace('			if r.Kind() == reflect.', '			want = reflect.').replace(' {\n				return nil\n			}\n', '\n') + '''		if want != reflect.Invalid && want == r.Kind() {
			return nil
		}
'''))
ok('seenfn', ('''	pair := typeCheckerPair{t: t, r: r}
	if ch.seen.Has(pair) {
		return nil
	}
	ch.seen.Add(pair)
''', '''	if ch.visited(t, r) {
		return nil
	}
'''), ('// TODO: Handle param', '''func (ch *typeChecker) visited(t types.Type, r reflect.Type) bool {
	pair := typeCheckerPair{t: t, r: r}
	if ch.seen.Has(pair) {
		return true
	}
	ch.seen.Add(pair)
	return false
}

// TODO: Handle param'''))
ok('named', ('''	if named, ok := t.(*types.Named); ok {
		var pkgpath string
		if pkg := named.Obj().Pkg(); pkg != nil {
			pkgpath = pkg.Path()
		}
		if named.Obj().Name() != r.Name() || pkgpath != r.PkgPath() {
			return fmt.Errorf("types %s and %s do not match", t, r)
		}
		return nil
	}
''', '''	if named, ok := t.(*types.Named); ok {
		return checkNamed(named, r)
	}
'''), ('// TODO: Handle param', '''func checkNamed(t *types.Named, r reflect.Type) error {
	obj := t.Obj()
	if obj.Name() == r.Name() && pkgPath(obj) == r.PkgPath() {
		return nil
	}
	return fmt.Errorf("types %s and %s do not match", t, r)
}

func pkgPath(obj types.Object) string {
	if obj.Pkg() == nil {
		return ""
	}
	return obj.Pkg().Path()
}

// TODO: Handle param'''))
ok('sigargs', ('''	for i := 0; i < params.Len(); i++ {
		j := i
		if hasReceiver {
			j++
		}
		sp, tp := params.At(i).Type(), fn.In(j)
''', '''	skip := nParamsWithReceiver - params.Len()
	for i := 0; i < params.Len(); i++ {
		sp, tp := params.At(i).Type(), fn.In(i+skip)
'''))
ok('sigoff', ('''	nParamsWithReceiver := params.Len()
	if hasReceiver {
		nParamsWithReceiver++
	}
''', '''	offset := 0
	if hasReceiver {
		offset = 1
	}
	nParamsWithReceiver := params.Len() + offset
'''), ('''		j := i
		if hasReceiver {
			j++
		}
		sp, tp := params.At(i).Type(), fn.In(j)
''', '''		sp, tp := params.At(i).Type(), fn.In(i+offset)
'''))
ok('rangeint', ('	for i := 0; i < results.Len(); i++ {', '	for i, n := 0, results.Len(); i < n; i++ {'))
ok('tuples', ('''	for i := 0; i < results.Len(); i++ {
		sr, tr := results.At(i).Type(), fn.Out(i)
		if err = ch.checkTypesMatch(sr, tr); err != nil {
			return errors.Wrapf(err, "checking result %d", i)
		}
	}

	return nil
''', '''	return ch.checkTuple(results, fn.Out)
'''), ('// TODO: Handle param', '''func (ch *typeChecker) checkTuple(tuple *types.Tuple, at func(int) reflect.Type) error {
	for i := 0; i < tuple.Len(); i++ {
		if err := ch.checkTypesMatch(tuple.At(i).Type(), at(i)); err != nil {
			return errors.Wrapf(err, "checking result %d", i)
		}
	}
	return nil
}

// TODO: Handle param'''))
ok('topfn', ('''		checker := typeChecker{seen: set.New[typeCheckerPair]()}

		if err := checker.checkSignaturesMatch(sig, targetMethod.Func.Type(), true); err != nil {
''', '''		if err := newTypeChecker().checkSignaturesMatch(sig, targetMethod.Type, true); err != nil {
'''), ('// checkImplementsTarget checks', '''func newTypeChecker() *typeChecker {
	return &typeChecker{seen: set.New[typeCheckerPair]()}
}

// checkImplementsTarget checks'''))
ok('early', ('''	if sig.Variadic() != fn.IsVariadic() {
		return fmt.Errorf("variadic mismatch")
	}
''', ''), ('''	for i := 0; i < params.Len(); i++ {''', '''	switch {
	case sig.Variadic() && !fn.IsVariadic(), !sig.Variadic() && fn.IsVariadic():
		return fmt.Errorf("variadic mismatch")
	}

	for i := 0; i < params.Len(); i++ {'''))
ok('ifchain', ('''	case *types.Signature:
		return ch.checkSignaturesMatch(t, r, true)

''', ''), ('''	switch t := t.(type) {
	case *types.Array:''', '''	if sig, ok := t.(*types.Signature); ok {
		return ch.checkSignaturesMatch(sig, r, true)
	}

	switch t := t.(type) {
	case *types.Array:'''))
ok('errcollect', ('''			return errors.Wrapf(err, "checking method %s", name)
''', '''			err = errors.Wrapf(err, "checking method %s", name)
			return err
'''))
