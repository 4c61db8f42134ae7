M = []
def m(name, prop, *edits): M.append((name, prop, list(edits)))
F='files.go'
m('05-noforce', 'C05', (F, 'if db != nil && !GetForce(ctx) && !GetDryRun(ctx) {', 'if db != nil && !GetDryRun(ctx) {'))
m('05-hash-before-prereqs', 'C05', (F, '''	if err := ft.runPrereqs(ctx, con); err != nil {
		return errors.Wrap(err, "in prerequisites")
	}

	db := GetHashDB(ctx)
''', '''	db := GetHashDB(ctx)
	h0, _ := ft.computeHash(con)
	if err := ft.runPrereqs(ctx, con); err != nil {
		return errors.Wrap(err, "in prerequisites")
	}
'''), (F, 'has, err := db.Has(ctx, h)', '_ = h\n\t\thas, err := db.Has(ctx, h0)'))
m('05-err-skip', 'C05', (F, '''			return errors.Wrap(err, "checking hash db")''', '''			return nil'''))
m('05-err-ignored', 'C05', (F, '''		if err != nil {
			return errors.Wrap(err, "checking hash db")
		}''', '''		_ = err'''))
m('06-norehash', 'C06', (F, '''	if err := con.Run(ctx, ft.Target); err != nil {
		return errors.Wrap(err, "running subtarget")
	}
''', '''	h, err := ft.computeHash(con)
	if err != nil {
		return err
	}
	if err := con.Run(ctx, ft.Target); err != nil {
		return errors.Wrap(err, "running subtarget")
	}
'''), (F, '''	h, err := ft.computeHash(con)
	if err != nil {
		return errors.Wrap(err, "computing hash after running subtarget")
	}
''', ''))
m('06-dryadd', 'C06', (F, 'if db == nil || GetDryRun(ctx) {', 'if db == nil {'))
m('06-forceskip', 'C06', (F, 'if db == nil || GetDryRun(ctx) {', 'if db == nil || GetDryRun(ctx) || GetForce(ctx) {'))
m('06-prereqadd', 'C06', (F, '''		if has {
''', '''		if !has {
			if err := db.Add(ctx, h); err != nil {
				return err
			}
		}
		if has {
'''))
m('07-noout', 'C07', (F, '''		Out:        outHashes,''', '''		Out:        nil,'''), (F, 'outHashes, err :=', '_, err ='))
m('07-outswap', 'C07', (F, '''fileHashes(ft.Out)''', '''fileHashes(ft.In)'''))
m('07-notype', 'C07', (F, '''TargetType: tt.String()''', '''TargetType: tt.Kind().String()'''))
m('07-nosort', 'C07', (F, '''	sort.Strings(keys)
''', ''' '''), (F, '"sort"\n', '\n'))
m('07-stat', 'C07', (F, '''	if err != nil {
		return errors.Wrapf(err, "statting %s", item)
	}
''', '''	if err != nil {
		hashes[item] = ""
		return nil
	}
'''))
m('07-dirtop', 'C07', (F, 'return filepath.Join(item, s.Name())', 'return s.Name()'))
m('07-size', 'C07', (F, '	h, err := hashFile(item)\n', '	if info.Size() > 1<<30 {\n\t\thashes[item] = fmt.Sprint(info.Size())\n\t\treturn nil\n\t}\n	h, err := hashFile(item)\n'))
m('07-limit', 'C07', (F, 'io.Copy(hasher, f)', 'io.Copy(hasher, io.LimitReader(f, 1<<30))'))
m('07-dirskip', 'C07', (F, 'return fileHashesHelper(subitems, hashes)', 'if len(subitems) > 1000 {\n\t\t\treturn nil\n\t\t}\n\t\treturn fileHashesHelper(subitems, hashes)'))
m('07-omit-env', 'C07', ('command.go', 'Env []string `json', 'Env []string `yaml:"Env" json')) if False else None
m('07-noresolve', 'C07', (F, '''	case *seq:
		subtargets = t.Targets
''', ''))
m('07-resolvefirst', 'C07', (F, '''	for _, subtarget := range subtargets {
		if err := res''', '''	for _, subtarget := range subtargets[:min(1, len(subtargets))] {
		if err := res'''), (F, 'type FilesOpt', 'func min(a, b int) int {\n\tif a < b {\n\t\treturn a\n\t}\n\treturn b\n}\n\ntype FilesOpt'))
m('07-hashesdrop', 'C07', (F, 'result = append(result, key, hashes[key])', 'if hashes[key] == "" {\n\t\t\tcontinue\n\t\t}\n\t\tresult = append(result, key, hashes[key])'))
m('08-selfskip', 'C08', (F, 'target != nil && target != ft {', 'target != nil {'))
m('08-break', 'C08', (F, 'prereqs = append(prereqs, target)', 'prereqs = append(prereqs, target)\n\t\t\tbreak'))
m('08-exact', 'C08', (F, '		name = dir\n', '		_ = dir\n\t\treturn nil\n'))
m('08-first', 'C08', (F, 'return con.Run(ctx, prereqs...)', 'return con.Run(ctx, prereqs[0])'))
m('08-regfirst', 'C08', (F, '''	for _, o := range out {
		filesRegistry.add(o, result)
	}''', '''	for _, o := range out {
		if _, ok := filesRegistry.lookup(o); !ok {
			filesRegistry.add(o, result)
		}
	}'''))
m('08-swallow', 'C08', (F, '''		return errors.Wrap(err, "in prerequisites")''', '''		if GetForce(ctx) {
			return nil
		}
		return errors.Wrap(err, "in prerequisites")'''))
m('08-overwrite', 'C08', (F, 'prereqs = append(prereqs, target)', 'prereqs = append(prereqs[:0], target)'))
m('r-extract', '', (F, '''	if db == nil || GetDryRun(ctx) {
		return nil
	}

	h, err := ft.computeHash(con)
	if err != nil {
		return errors.Wrap(err, "computing hash after running subtarget")
	}
	err = db.Add(ctx, h)
	return errors.Wrap(err, "adding hash to db")
}
''', '''	return ft.record(ctx, con, db)
}

func (ft *files) record(ctx context.Context, con *Controller, db HashDB) error {
	if GetDryRun(ctx) {
		return nil
	}
	if db == nil {
		return nil
	}

	h, err := ft.computeHash(con)
	if err != nil {
		return fmt.Errorf("computing hash after running subtarget: %w", err)
	}
	if err := db.Add(ctx, h); err != nil {
		return fmt.Errorf("adding hash to db: %w", err)
	}
	return nil
}
'''))
m('r-needs', '', (F, '''	if db != nil && !GetForce(ctx) && !GetDryRun(ctx) {
		h, err := ft.computeHash(con)
		if err != nil {
			return errors.Wrap(err, "computing hash before running subtarget")
		}
		has, err := db.Has(ctx, h)
		if err != nil {
			return errors.Wrap(err, "checking hash db")
		}
		if has {
			if GetVerbose(ctx) {
				con.Indentf("%s is up to date", con.Describe(ft))
			}
			return nil
		}
	}
''', '''	has, err := ft.upToDate(ctx, con, db)
	if err != nil {
		return err
	}
	if has {
		if GetVerbose(ctx) {
			con.Indentf("%s is up to date", con.Describe(ft))
		}
		return nil
	}
'''), (F, '// Desc implements', '''func (ft *files) upToDate(ctx context.Context, con *Controller, db HashDB) (bool, error) {
	if GetForce(ctx) || GetDryRun(ctx) || db == nil {
		return false, nil
	}
	h, err := ft.computeHash(con)
	if err != nil {
		return false, errors.Wrap(err, "computing hash before running subtarget")
	}
	has, err := db.Has(ctx, h)
	return has, errors.Wrap(err, "checking hash db")
}

// Desc implements'''))
m('r-idxloop', '', (F, '''	for _, key := range keys {
		result = append(result, key, hashes[key])
	}
''', '''	for i := 0; i < len(keys); i++ {
		key := keys[i]
		h := hashes[key]
		result = append(result, key)
		result = append(result, h)
	}
'''))
m('r-dirloop', '', (F, '''		subitems := slices.Map(entries, func(s os.DirEntry) string { return filepath.Join(item, s.Name()) })
		return fileHashesHelper(subitems, hashes)
''', '''		for _, e := range entries {
			if err := fileHashesItemHelper(filepath.Join(item, e.Name()), hashes); err != nil {
				return err
			}
		}
		return nil
'''), (F, '	"github.com/bobg/go-generics/v2/slices"\n', ''))
m('r-prereq', '', (F, '''		if target := findInFilesRegistry(in); target != nil && target != ft {
			prereqs = append(prereqs, target)
		}
''', '''		target := findInFilesRegistry(in)
		if target == nil {
			continue
		}
		if target == ft {
			continue
		}
		prereqs = append(prereqs, target)
'''))
m('r-find', '', (F, '''		dir := filepath.Dir(name)
		switch dir {
		case "", ".", "/", name:
			return nil
		}
		name = dir
''', '''		dir := filepath.Dir(name)
		if dir == name || dir == "" || dir == "." || dir == "/" {
			return nil
		}
		name = dir
'''))
m('r-switch', '', (F, '''	case *all:
		subtargets = t.Targets
	case *seq:
		subtargets = t.Targets
	case *argTarget:
		subtargets = []Target{t.Target}
	case *files:
		subtargets = []Target{t.Target}
''', '''	case *seq:
		subtargets = append(subtargets, t.Targets...)
	case *all:
		subtargets = append(subtargets, t.Targets...)
	case *argTarget:
		subtargets = append(subtargets, t.Target)
	case *files:
		subtargets = append(subtargets, t.Target)
'''))
m('r-hashfile', '', (F, '''	defer f.Close()
	hasher := sha256.New224()
	_, err = io.Copy(hasher, f)
	if err != nil {
		return "", errors.Wrapf(err, "hashing %s", path)
	}
	h := hasher.Sum(nil)
	return hex.EncodeToString(h), nil
''', '''	defer f.Close()
	hasher := sha256.New224()
	if _, err := io.Copy(hasher, f); err != nil {
		return "", errors.Wrapf(err, "hashing %s", path)
	}
	return fmt.Sprintf("%x", hasher.Sum(nil)), nil
'''), (F, '	"encoding/hex"\n', ''))

m('07-dirloopskip', 'C07', (F, '''		subitems := slices.Map(entries, func(s os.DirEntry) string { return filepath.Join(item, s.Name()) })
		return fileHashesHelper(subitems, hashes)
''', '''		for _, e := range entries {
			if e.Name()[0] == '.' {
				continue
			}
			if err := fileHashesItemHelper(filepath.Join(item, e.Name()), hashes); err != nil {
				return err
			}
		}
		return nil
'''), (F, '	"github.com/bobg/go-generics/v2/slices"\n', ''))
