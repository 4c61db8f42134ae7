M=[]
def m(name, prop, *eds): M.append((name, prop, list(eds)))
X,C,R='context.go','controller.go','register.go'
m('23-samekey','C23',(X,'context.WithValue(ctx, forceKeyType{}, force)','context.WithValue(ctx, dryrunKeyType{}, force)'),(X,'ctx.Value(forceKeyType{})','ctx.Value(dryrunKeyType{})'))
m('23-onlytrue','C23',(X,'	return context.WithValue(ctx, verboseKeyType{}, verbose)','	if !verbose {\n\t\treturn ctx\n\t}\n	return context.WithValue(ctx, verboseKeyType{}, verbose)'))
m('23-noargs','C23',(X,'	return context.WithValue(ctx, argsKeyType{}, args)','	if len(args) == 0 {\n\t\treturn ctx\n\t}\n	return context.WithValue(ctx, argsKeyType{}, args)'))
m('23-bg','C23',(X,'	return context.WithValue(ctx, argsKeyType{}, args)','	return context.WithValue(context.Background(), argsKeyType{}, args)'))
m('23-append','C23',(X,'	return context.WithValue(ctx, argsKeyType{}, args)','	return context.WithValue(ctx, argsKeyType{}, append(GetArgs(ctx), args...))'))
m('23-forcedry','C23',(X,'	val, _ := ctx.Value(forceKeyType{}).(bool)\n	return val','	val, _ := ctx.Value(forceKeyType{}).(bool)\n	return val && !GetDryRun(ctx)'))
m('23-default','C23',(X,'	val, _ := ctx.Value(verboseKeyType{}).(bool)\n	return val','	val, ok := ctx.Value(verboseKeyType{}).(bool)\n	return val || !ok'))
m('23-alias','C23',(X,'	verboseKeyType struct{}','	verboseKeyType = forceKeyType'))
m('r23-struct','',(X,'	val, _ := ctx.Value(forceKeyType{}).(bool)\n	return val','	return boolValue(ctx, forceKeyType{})'),(X,'	val, _ := ctx.Value(dryrunKeyType{}).(bool)\n	return val','	return boolValue(ctx, dryrunKeyType{})'),(X,'// WithForce dec','func boolValue(ctx context.Context, key any) bool {\n\tif v, ok := ctx.Value(key).(bool); ok {\n\t\treturn v\n\t}\n\treturn false\n}\n\n// WithForce dec'))
m('r23-keys','',(X,'	forceKeyType   struct{}','	forceKeyType   int'),(X,'ctx, forceKeyType{}','ctx, forceKeyType(1)'),(X,'ctx.Value(forceKeyType{})','ctx.Value(forceKeyType(1))'))
m('26-len','C26',(C,'len(args) > 1 && strings','len(args) == 2 && strings'))
m('26-dd','C26',(C,'strings.HasPrefix(args[1], "-")','strings.HasPrefix(args[1], "--")'))
m('26-rest','C26',(C,'ArgTarget(target, args[1:]...)','ArgTarget(target, args[2:]...)'))
m('26-one','C26',(C,'	case 1:\n		return nil','	case 1:\n		if len(args) > 1 {\n\t\t\treturn targets, nil\n\t\t}\n		return nil'))
m('26-first','C26',(C,'		return nil, fmt.Errorf("unknown targets: %s", strings.Join(unknown, " "))','		return nil, fmt.Errorf("unknown targets: %s", unknown[0])'))
m('26-break','C26',(C,'				unknown = append(unknown, arg)\n','				unknown = append(unknown, arg)\n				break\n'))
m('26-empty','C26',(C,'			if target, _ := con.RegistryTarget(arg); target != nil {','			if arg == "" {\n\t\t\t\tcontinue\n\t\t\t}\n			if target, _ := con.RegistryTarget(arg); target != nil {'))
m('26-dup','C26',(C,'				targets = append(targets, target)\n','				if len(targets) > 0 && targets[len(targets)-1] == target {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n				targets = append(targets, target)\n'))
m('26-order','C26',(C,'				targets = append(targets, target)\n','				targets = append([]Target{target}, targets...)\n'))
m('26-doc','C26',(C,'			if target, _ := con.RegistryTarget(arg); target != nil {','			if target, doc := con.RegistryTarget(arg); target != nil && (doc != "" || arg != "Test") {'))
m('26-clean','C26',(C,'con.RegistryTarget(arg)','con.RegistryTarget(filepath.Clean(arg))'))
m('26-unk0','C26',(C,'			unknown = append(unknown, args[0])\n','			unknown = append(unknown, args[1])\n'))
m('26-nilok','C26',(C,'			targets = append(targets, ArgTarget(target, args[1:]...))\n		} else {\n			unknown = append(unknown, args[0])\n		}','			targets = append(targets, ArgTarget(target, args[1:]...))\n		}'))
m('r26-count','',(C,'	switch len(unknown) {\n	case 0:\n		return targets, nil\n	case 1:','	if len(unknown) == 0 {\n\t\treturn targets, nil\n\t}\n	switch len(unknown) {\n	case 1:'))
m('r26-join','',(C,'	switch len(unknown) {\n	case 0:\n		return targets, nil\n	case 1:\n		return nil, fmt.Errorf("unknown target %s", unknown[0])\n	default:\n		return nil, fmt.Errorf("unknown targets: %s", strings.Join(unknown, " "))\n	}','	if n := len(unknown); n > 0 {\n\t\ts := ""\n\t\tif n > 1 {\n\t\t\ts = "s:"\n\t\t}\n\t\treturn nil, fmt.Errorf("unknown target%s %s", s, strings.Join(unknown, " "))\n\t}\n\treturn targets, nil'))
m('r26-helper','',(C,'''		for _, arg := range args {
			if target, _ := con.RegistryTarget(arg); target != nil {
				targets = append(targets, target)
			} else {
				unknown = append(unknown, arg)
			}
		}
''','''		targets, unknown = con.lookupAll(args)
'''),(C,'// ListTargets out','''func (con *Controller) lookupAll(names []string) (found []Target, unknown []string) {
	for i := 0; i < len(names); i++ {
		t, _ := con.RegistryTarget(names[i])
		if t == nil {
			unknown = append(unknown, names[i])
			continue
		}
		found = append(found, t)
	}
	return found, unknown
}

// ListTargets out'''))
m('r26-early','',(C,'''	if len(args) > 1 && strings.HasPrefix(args[1], "-") {
		// Just one target, and remaining args are arguments for that target.
		if target, _ := con.RegistryTarget(args[0]); target != nil {
			targets = append(targets, ArgTarget(target, args[1:]...))
		} else {
			unknown = append(unknown, args[0])
		}
	} else {
		for''','''	if len(args) >= 2 && strings.HasPrefix(args[1], "-") {
		// Just one target, and remaining args are arguments for that target.
		target, _ := con.RegistryTarget(args[0])
		if target == nil {
			return nil, fmt.Errorf("unknown target %s", args[0])
		}
		return []Target{ArgTarget(target, args[1:]...)}, nil
	}
	{
		for'''))
m('r26-byte','',(C,'strings.HasPrefix(args[1], "-")','args[1] != "" && args[1][0] == \'-\''))
m('r26-cap','',(C,'		targets []Target\n		unknown []string\n','		targets = make([]Target, 0, len(args))\n		unknown []string\n'))
m('31-noaddr','C31',(R,'	con.targetsByAddr[addr] = tuple\n','	if _, ok := con.targetsByAddr[addr]; !ok {\n\t\tcon.targetsByAddr[addr] = tuple\n\t}\n'))
m('31-first','C31',(R,'	con.targetsByName[name] = tuple\n','	if old, ok := con.targetsByName[name]; !ok || old.doc == "" {\n\t\tcon.targetsByName[name] = tuple\n\t}\n'))
m('31-early','C31',(R,'	addr, err := targetAddr(target)\n	if err != nil {\n		return nil, err\n	}\n\n	tuple := targetRegistryTuple{target: target, name: name, doc: doc}\n\n	con.mu.Lock()\n	con.targetsByName[name] = tuple\n','	tuple := targetRegistryTuple{target: target, name: name, doc: doc}\n	con.mu.Lock()\n	con.targetsByName[name] = tuple\n	con.mu.Unlock()\n	addr, err := targetAddr(target)\n	if err != nil {\n		return nil, err\n	}\n	con.mu.Lock()\n'))
m('31-doctrim','C31',(R,'doc: doc}','doc: strings.TrimSpace(doc)}'),(R,'	"sort"\n','	"sort"\n	"strings"\n'))
m('31-docswap','C31',(R,'return tuple.target, tuple.doc','return tuple.target, tuple.name'))
m('31-kind','C31',(R,'	if v.Kind() != reflect.Pointer {','	if v.Kind() == reflect.Struct {'))
m('31-desc','C31',(R,'		if ok {\n			return tuple.name','		if ok && tuple.doc != "" {\n			return tuple.name'))
m('31-unsorted','C31',(R,'	sort.Strings(keys)\n','	if len(keys) > 12 {\n\t\tsort.Strings(keys)\n\t}\n'))
m('31-listskip','C31',(C,'		fmt.Fprintln(w, name)\n		if','		if strings.HasPrefix(name, "_") {\n\t\t\tcontinue\n\t\t}\n		fmt.Fprintln(w, name)\n		if'))
m('31-listdoc','C31',(C,'d != "" {\n			d =','len(d) > 4 {\n			d ='))
m('31-delete','C31',(R,'	con.targetsByName[name] = tuple\n','	if old, ok := con.targetsByAddr[addr]; ok && old.name != name {\n\t\tdelete(con.targetsByName, old.name)\n\t}\n	con.targetsByName[name] = tuple\n'))
m('31-descaddr','C31',(R,'		tuple, ok := con.targetsByAddr[addr]','		tuple, ok := con.targetsByAddr[targetID{addr: addr.addr}]'))
m('r31-getter','',(R,'	con.mu.Lock()\n	tuple := con.targetsByName[name]\n	con.mu.Unlock()\n	return','	con.mu.Lock()\n	defer con.mu.Unlock()\n	tuple, ok := con.targetsByName[name]\n	if !ok {\n\t\treturn nil, ""\n\t}\n	return'))
m('r31-names','',(R,'	con.mu.Lock()\n	keys := maps.Keys(con.targetsByName)\n	con.mu.Unlock()\n','	con.mu.Lock()\n	var keys []string\n	for k := range con.targetsByName {\n		keys = append(keys, k)\n	}\n	con.mu.Unlock()\n'),(R,'	"sort"\n\n	"github.com/bobg/go-generics/v2/maps"\n','	"sort"\n'))
m('r31-desc','',(R,'	addr, err := targetAddr(target)\n	if err == nil { // sic\n		con.mu.Lock()\n		tuple, ok := con.targetsByAddr[addr]\n		con.mu.Unlock()\n		if ok {\n			return tuple.name\n		}\n	}\n','	if addr, err := targetAddr(target); err == nil {\n		if name, ok := con.nameOf(addr); ok {\n			return name\n		}\n	}\n'),(R,'// Describe desc','func (con *Controller) nameOf(id targetID) (string, bool) {\n	con.mu.Lock()\n	defer con.mu.Unlock()\n	if t, ok := con.targetsByAddr[id]; ok {\n		return t.name, true\n	}\n	return "", false\n}\n\n// Describe desc'))
m('r31-ptr','',(R,'	tuple := targetRegistryTuple{target','	tuple := &targetRegistryTuple{target'),(C,'targetsByName map[string]targetRegistryTuple\n','targetsByName map[string]*targetRegistryTuple\n'),(C,'targetsByAddr map[targetID]targetRegistryTuple\n','targetsByAddr map[targetID]*targetRegistryTuple\n'),(C,'make(map[string]targetRegistryTuple)','make(map[string]*targetRegistryTuple)'),(C,'make(map[targetID]targetRegistryTuple)','make(map[targetID]*targetRegistryTuple)'),(R,'	tuple := con.targetsByName[name]\n	con.mu.Unlock()\n','	tuple := con.targetsByName[name]\n	con.mu.Unlock()\n	if tuple == nil {\n		return nil, ""\n	}\n'))
m('r31-list','',(C,'		fmt.Fprintln(w, name)\n		if _, d := con.RegistryTarget(name); d != "" {\n			d = bolRegex.ReplaceAllString(d, "    ")\n			fmt.Fprintln(w, d)\n		}\n','		_, doc := con.RegistryTarget(name)\n		fmt.Fprintf(w, "%s\\n", name)\n		if doc == "" {\n			continue\n		}\n		fmt.Fprintln(w, bolRegex.ReplaceAllString(doc, "    "))\n'))
m('32-first','C32',(C,'for i := len(elts) - 1; i >= 0; i-- {','for i := 0; i < len(elts); i++ {'))
m('32-gt','C32',(C,'i >= 0; i--','i > 0; i--'))
m('32-two','C32',(C,'len(elts) - 1; i >= 0','len(elts) - 2; i >= 0'))
m('32-step','C32',(C,'i >= 0; i-- {','i >= 0; i -= 2 {'))
m('32-slash','C32',(C,'filepath.IsAbs(elts[i])','strings.HasPrefix(elts[i], "/")'))
m('32-tail','C32',(C,'filepath.Join(elts[i:]...)','filepath.Join(elts[i])'))
m('32-notop','C32',(C,'	args[0] = con.topdir\n','	args[0] = con.topdir\n	if len(elts) > 3 {\n\t\targs[0] = ""\n\t}\n'))
m('32-rel','C32',(C,'filepath.Rel(con.topdir, path)','filepath.Rel(path, con.topdir)'))
m('32-relabs','C32',(C,'	return filepath.Rel(','	if !filepath.IsAbs(path) {\n\t\treturn path, nil\n\t}\n	return filepath.Rel('))
m('r32-asc','',(C,'''	for i := len(elts) - 1; i >= 0; i-- {
		if filepath.IsAbs(elts[i]) {
			return filepath.Join(elts[i:]...)
		}
	}
''','''	last := -1
	for i, e := range elts {
		if filepath.IsAbs(e) {
			last = i
		}
	}
	if last >= 0 {
		return filepath.Join(elts[last:]...)
	}
'''))
m('r32-acc','',(C,'''	for i := len(elts) - 1; i >= 0; i-- {
		if filepath.IsAbs(elts[i]) {
			return filepath.Join(elts[i:]...)
		}
	}
	args := make([]string, 1, 1+len(elts))
	args[0] = con.topdir
	args = append(args, elts...)
	return filepath.Join(args...)
''','''	parts := []string{con.topdir}
	for _, e := range elts {
		if filepath.IsAbs(e) {
			parts = []string{e}
			continue
		}
		parts = append(parts, e)
	}
	return filepath.Join(parts...)
'''))
m('r32-acc0','',(C,'''	for i := len(elts) - 1; i >= 0; i-- {
		if filepath.IsAbs(elts[i]) {
			return filepath.Join(elts[i:]...)
		}
	}
	args := make([]string, 1, 1+len(elts))
	args[0] = con.topdir
	args = append(args, elts...)
	return filepath.Join(args...)
''','''	parts := make([]string, 0, 1+len(elts))
	parts = append(parts, con.topdir)
	for _, e := range elts {
		if filepath.IsAbs(e) {
			parts = parts[:0]
		}
		parts = append(parts, e)
	}
	return filepath.Join(parts...)
'''))
m('r32-off','',(C,'''	for i := len(elts) - 1; i >= 0; i-- {
		if filepath.IsAbs(elts[i]) {
			return filepath.Join(elts[i:]...)
		}
	}
''','''	for i := len(elts); i > 0; i-- {
		if tail := elts[i-1:]; filepath.IsAbs(tail[0]) {
			return filepath.Join(tail...)
		}
	}
'''))
m('r32-helper','',(C,'''	for i := len(elts) - 1; i >= 0; i-- {
		if filepath.IsAbs(elts[i]) {
			return filepath.Join(elts[i:]...)
		}
	}
''','''	if i := lastAbs(elts); i >= 0 {
		return filepath.Join(elts[i:]...)
	}
'''),(C,'// RelPath ret','''func lastAbs(elts []string) int {
	for i := len(elts) - 1; i >= 0; i-- {
		if filepath.IsAbs(elts[i]) {
			return i
		}
	}
	return -1
}

// RelPath ret'''))
m('r32-join','',(C,'	args := make([]string, 1, 1+len(elts))\n	args[0] = con.topdir\n	args = append(args, elts...)\n	return filepath.Join(args...)','	return filepath.Join(append([]string{con.topdir}, elts...)...)'))
