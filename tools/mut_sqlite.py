# Changes to sqlite: (name, property that must notice or '' for behaviour-preserving, edits)
M=[]
def m(name, prop, *eds): M.append((name, prop, list(eds)))
D='sqlite/db.go'; S='sqlite/schema.sql'; P='C21'
UPD="`UPDATE hashes SET unix_secs = $1 WHERE hash = $2`"
INS="`INSERT INTO hashes (hash, unix_secs) VALUES ($1, $2) ON CONFLICT DO UPDATE SET unix_secs = $2 WHERE hash = $1`"
SEL="`SELECT COUNT(*) FROM hashes WHERE hash = $1`"
DEL="`DELETE FROM hashes WHERE unix_secs < $1`"
m('noupd',P,(D,INS,'`INSERT OR IGNORE INTO hashes (hash, unix_secs) VALUES ($1, $2)`'))
m('order',P,(D,UPD,'`UPDATE hashes SET unix_secs = ?2 WHERE hash = ?1`'))
m('ok-order','',(D,UPD,'`UPDATE hashes SET unix_secs = $2 WHERE hash = $1`'))
m('le',P,(D,DEL,'`DELETE FROM hashes WHERE unix_secs <= $1`'))
m('keep0',P,(D,'if db.keep > 0 {','if db.keep >= 0 {'))
m('keepne',P,(D,'if db.keep > 0 {','if db.keep != 0 {'))
m('secs',P,(D,'when := now.Add(-db.keep).Unix()','when := now.Unix() - int64(db.keep.Seconds())'))
m('plus',P,(D,'now.Add(-db.keep)','now.Add(db.keep)'))
m('milli',P,(D,'h, now.Unix())\n\tif err != nil {\n\t\treturn errors.Wrap(err, "adding','h, now.UnixMilli())\n\tif err != nil {\n\t\treturn errors.Wrap(err, "adding'))
m('ge',P,(D,'return aff > 0,','return aff >= 0,'))
m('gt1',P,(D,'return count > 0, nil','return count > 1, nil'))
m('swallow',P,(D,'	if err != nil {\n\t\treturn false, errors.Wrap(err, "querying database")\n\t}\n','	if err != nil && count > 0 {\n\t\treturn false, errors.Wrap(err, "querying database")\n\t}\n'))
m('swallow2',P,(D,'return aff > 0, errors.Wrap(err, "counting affected rows")','return err == nil && aff > 0, nil'))
m('swallow3',P,(D,'		if err != nil {\n\t\t\treturn errors.Wrap(err, "evicting expired database entries")\n\t\t}\n',''))
m('default',P,(D,'		updateOnAccess: true,\n',''))
m('optorder',P,(D,'	if result.clk == nil {','	result.updateOnAccess = result.keep > 0\n	if result.clk == nil {'))
m('clock',P,(D,'	if result.clk == nil {\n\t\tresult.clk = clock.New()\n\t}','	result.clk = clock.New()'))
m('wrongclk',P,(D,'	now := db.clk.Now()\n\t_, err','	now := time.Now()\n\t_, err'))
m('neg',P,(D,'if db.updateOnAccess {','if !db.updateOnAccess {'))
m('keepacc',P,(D,'if db.updateOnAccess {','if db.updateOnAccess && db.keep > 0 {'))
m('opt',P,(D,'db.updateOnAccess = update','db.updateOnAccess = update || db.keep > 0'))
m('opt2',P,(D,'db.keep = d','db.keep = d / 2'))
m('where',P,(D,UPD,'`UPDATE hashes SET unix_secs = $1 WHERE hash >= $2`'))
m('where2',P,(D,UPD,'`UPDATE hashes SET unix_secs = $1 WHERE hash = $2 AND unix_secs > 0`'))
m('schema',P,(S,'hash BLOB NOT NULL PRIMARY KEY','hash BLOB NOT NULL'))
m('schema2',P,(S,'TABLE IF NOT EXISTS','TABLE'))
m('schema3',P,(S,'unix_secs INT NOT NULL','unix_secs TEXT NOT NULL'))
m('memory',P,(D,'sql.Open("sqlite3", path)','sql.Open("sqlite3", ":memory:")'))
m('string',P,(D,'now.Unix(), h)\n','now.Unix(), string(h))\n'))
m('evicthas',P,(D,'		now := db.clk.Now()\n\t\tres, err','		now := db.clk.Now()\n\t\tif db.keep > 0 {\n\t\t\tif _, err := db.db.ExecContext(ctx, `DELETE FROM hashes WHERE unix_secs < $1`, now.Unix()); err != nil {\n\t\t\t\treturn false, err\n\t\t\t}\n\t\t}\n\t\tres, err'))
m('coltime',P,(D,'ON CONFLICT DO UPDATE SET unix_secs = $2 WHERE hash = $1`','ON CONFLICT DO UPDATE SET unix_secs = max(unix_secs, $2) WHERE hash = $1`'))
m('cond',P,(D,'ON CONFLICT DO UPDATE SET unix_secs = $2 WHERE hash = $1`','ON CONFLICT DO UPDATE SET unix_secs = $2 WHERE unix_secs > $2`'))
m('closeddb',P,(D,'	return result, nil\n}\n\n// Close','	db.Close()\n	return result, nil\n}\n\n// Close'))
m('prune',P,(D,'	return db.db.Close()','	if _, err := db.db.Exec(`DELETE FROM hashes`); err != nil {\n\t\treturn err\n\t}\n	return db.db.Close()'))
m('skipopt',P,(D,'	for _, opt := range opts {\n\t\topt(result)','	for i, opt := range opts {\n\t\tif i > 0 {\n\t\t\tbreak\n\t\t}\n\t\topt(result)'))
# --- behaviour-preserving
m('ok-excluded','',(D,INS,'`INSERT INTO hashes (hash, unix_secs) VALUES (?, ?) ON CONFLICT (hash) DO UPDATE SET unix_secs = excluded.unix_secs`'))
m('ok-replace','',(D,INS,'`REPLACE INTO hashes (unix_secs, hash) VALUES (?2, ?1)`'))
m('ok-spaces','',(D,SEL,'`select count(*)\n\t\tfrom hashes\n\t\twhere hash = ?`'))
m('ok-exists','',(D,SEL+'\n\tvar count int\n','`SELECT EXISTS (SELECT 1 FROM hashes WHERE hash = $1)`\n\tvar count int\n'))
m('ok-norows','',(D,'''	const q = `SELECT COUNT(*) FROM hashes WHERE hash = $1`
	var count int
	err := db.db.QueryRowContext(ctx, q, h).Scan(&count)
	if err != nil {
		return false, errors.Wrap(err, "querying database")
	}
	return count > 0, nil''','''	const q = `SELECT unix_secs FROM hashes WHERE hash = $1`
	var secs int64
	err := db.db.QueryRowContext(ctx, q, h).Scan(&secs)
	if errors.Is(err, sql.ErrNoRows) {
		return false, nil
	}
	if err != nil {
		return false, errors.Wrap(err, "querying database")
	}
	return true, nil'''))
m('ok-split','',(D,'''	if db.updateOnAccess {
''','''	if db.updateOnAccess {
		return db.touch(ctx, h)
	}

	const q = `SELECT COUNT(*) FROM hashes WHERE hash = $1`
	var count int
	if err := db.db.QueryRowContext(ctx, q, h).Scan(&count); err != nil {
		return false, errors.Wrap(err, "querying database")
	}
	if count == 0 {
		return false, nil
	}
	return true, nil
}

func (db *DB) touch(ctx context.Context, h []byte) (bool, error) {
	{
'''),(D,'''
	const q = `SELECT COUNT(*) FROM hashes WHERE hash = $1`
	var count int
	err := db.db.QueryRowContext(ctx, q, h).Scan(&count)
	if err != nil {
		return false, errors.Wrap(err, "querying database")
	}
	return count > 0, nil
}
''','''}
'''))
m('ok-aff','',(D,'''		return aff > 0, errors.Wrap(err, "counting affected rows")''','''		if err != nil {
			return false, errors.Wrap(err, "counting affected rows")
		}
		return aff != 0, nil'''))
m('ok-evict','',(D,'''	if db.keep > 0 {
''','''	if db.keep <= 0 {
		return nil
	}
	{
'''),(D,'''		when := now.Add(-db.keep).Unix()
		_, err = db.db.ExecContext(ctx, q2, when)
		if err != nil {
			return errors.Wrap(err, "evicting expired database entries")
		}
''','''		_, err := db.db.ExecContext(ctx, q2, now.Add(-1*db.keep).Unix())
		return errors.Wrap(err, "evicting expired database entries")
'''),(D,'''	}
	return nil
}
''','''	}
}
'''))
m('ok-open','',(D,'''	for _, opt := range opts {
		opt(result)
	}
''','''	for i := range opts {
		opts[i](result)
	}
'''))
