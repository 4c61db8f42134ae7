M=[]
def m(name, prop, *edits): M.append((name, prop, list(edits)))
R='runner.go'
m('i-cr-cr','C30',(R,'''		case '\\r':
			if c.sawcr {
				if err := c.newline(); err != nil {
					return n, err
				}
			}
			c.sawcr = true''','''		case '\\r':
			c.sawcr = true'''))
m('i-reset','C30',(R,'''	c.bol = true
	c.sawcr = false
	return nil''','''	c.bol = true
	return nil'''))
m('i-reset-lf','C30',(R,'''		case '\\n':
			if err := c.newline(); err != nil {
				return n, err
			}
''','''		case '\\n':
			if err := c.w.WriteByte('\\n'); err != nil {
				return n, err
			}
			c.bol = true
'''))
m('i-bol-late','C30',(R,'''	c.bol = true
	c.sawcr = false
	return nil''','''	c.sawcr = false
	return nil'''))
m('i-bolstays','C30',(R,'			c.bol = false\n',''))
m('i-local','C30',(R,'''	var n int

	for _, b''','''	var n int
	c.sawcr = false

	for _, b'''))
m('i-bolreset','C30',(R,'''	var n int

	for _, b''','''	var n int
	c.bol = true

	for _, b'''))
m('i-end-cr','C30',(R,'''	err := c.w.Flush()
	return n, err''','''	if c.sawcr {
		if err := c.newline(); err != nil {
			return n, err
		}
	}
	err := c.w.Flush()
	return n, err'''))
m('i-noflush','C30',(R,'''	err := c.w.Flush()
	return n, err''','''	if !c.bol {
		return n, nil
	}
	err := c.w.Flush()
	return n, err'''))
m('i-flusherr','C30',(R,'''	err := c.w.Flush()
	return n, err''','''	c.w.Flush()
	return n, nil'''))
m('i-rune','C30',(R,'c.w.WriteByte(b); err','c.w.WriteRune(rune(b)); err'),(R,'''			if err := c.w.WriteRune''','''			if _, err := c.w.WriteRune'''))
m('i-n','C30',(R,'''		n++
	}
''','''		if b != '\\r' {
			n++
		}
	}
'''))
m('i-n-early','C30',(R,'''	for _, b := range buf {
		switch b {''','''	for _, b := range buf {
		n++
		switch b {'''),(R,'''			}
		}
		n++
	}
''','''			}
		}
	}
'''))
m('i-skip-nul','C30',(R,'''	for _, b := range buf {
		switch b {''','''	for _, b := range buf {
		if b == 0 {
			n++
			continue
		}
		switch b {'''))
m('i-ff','C30',(R,"		case '\\n':\n","		case '\\n', '\\f':\n"))
m('i-tab','C30',(R,'''			if err := c.w.WriteByte(b); err''','''			if b == '\\t' {
				b = ' '
			}
			if err := c.w.WriteByte(b); err'''))
m('i-last','C30',(R,'for _, b := range buf {\n		switch','for _, b := range buf[:len(buf)-1] {\n		switch'))
m('i-crnl','C30',(R,'''			if c.sawcr {
				if err := c.newline(); err != nil {
					return n, err
				}
			}
			if c.bol {''','''			if c.sawcr {
				c.sawcr = false
			}
			if c.bol {'''))
m('i-prefixfirst','C30',(R,'strings.Repeat("  ", int(depth)) + prefix','prefix + strings.Repeat("  ", int(depth))'))
m('i-noprefix','C30',(R,'strings.Repeat("  ", int(depth)) + prefix','strings.Repeat("  ", int(depth)) + strings.TrimSpace(prefix)'))
m('i-depth1','C30',(R,'strings.Repeat("  ", int(depth)) + prefix','strings.Repeat("  ", int(depth)-1) + prefix'))
m('i-tabs','C30',(R,'strings.Repeat("  ", int(depth)) + prefix','strings.Repeat("\\t", int(depth)) + prefix'))
m('i-nobol','C30',(R,'		bol:    true,\n',''))
m('i-stdout','C30',(R,'bufio.NewWriter(w)','bufio.NewWriter(io.MultiWriter(w))'))if False else None
m('i-depth-nodec','C30',(R,'	defer con.decDepth()\n',''))
m('i-depth-order','C30',(R,'''	con.incDepth()
	defer con.decDepth()
''',''),(R,'''	wg.Wait()

	return errors.Join''','''	con.incDepth()
	wg.Wait()
	con.decDepth()

	return errors.Join'''))
m('i-depth-other','C30',(R,'''func (con *Controller) indentf(''','''// Outdent resets the indentation.
func (con *Controller) Outdent() { con.depth = 0 }

func (con *Controller) indentf('''))
m('i-blank-after-cr','C30',(R,'''		case '\\n':
			if err''','''		case '\\n':
			if c.bol {
				c.w.WriteString(c.indent)
			}
			if c.sawcr {
				c.bol = false
			}
			if err'''))
m('i-nobuf','C30',(R,'''			if c.bol {
				_, err''','''			if c.bol && n > 0 {
				_, err'''))
# quiet
m('ok-i-switch','',(R,'''		switch b {
		case '\\n':
			if err := c.newline(); err != nil {
				return n, err
			}

		case '\\r':
			if c.sawcr {
				if err := c.newline(); err != nil {
					return n, err
				}
			}
			c.sawcr = true

		default:
			if c.sawcr {
				if err := c.newline(); err != nil {
					return n, err
				}
			}
			if c.bol {''','''		if b == '\\n' || c.sawcr {
			if err := c.newline(); err != nil {
				return n, err
			}
		}
		if b == '\\r' {
			c.sawcr = true
		} else if b != '\\n' {
			if c.bol {'''))
m('ok-i-helper','',(R,'''		switch b {
		case '\\n':
			if err := c.newline(); err != nil {
				return n, err
			}

		case '\\r':
			if c.sawcr {
				if err := c.newline(); err != nil {
					return n, err
				}
			}
			c.sawcr = true

		default:
			if c.sawcr {
				if err := c.newline(); err != nil {
					return n, err
				}
			}
			if c.bol {
				_, err := c.w.WriteString(c.indent)
				if err != nil {
					return n, err
				}
			}
			c.bol = false
			if err := c.w.WriteByte(b); err != nil {
				return n, err
			}
		}
		n++
	}

	err := c.w.Flush()
	return n, err
}
''','''		if err := c.writeByte(b); err != nil {
			return n, err
		}
		n++
	}

	return n, c.w.Flush()
}

func (c *indentingCopier) writeByte(b byte) error {
	switch b {
	case '\\n':
		return c.newline()

	case '\\r':
		if c.sawcr {
			if err := c.newline(); err != nil {
				return err
			}
		}
		c.sawcr = true
		return nil
	}

	if c.sawcr {
		if err := c.newline(); err != nil {
			return err
		}
	}
	if c.bol {
		if _, err := c.w.WriteString(c.indent); err != nil {
			return err
		}
	}
	c.bol = false
	return c.w.WriteByte(b)
}
'''))
m('ok-i-index','',(R,'''	var n int

	for _, b := range buf {
		switch b {''','''	var n int

	for ; n < len(buf); n++ {
		b := buf[n]
		switch b {'''),(R,'''			}
		}
		n++
	}
''','''			}
		}
	}
'''))
m('ok-i-n','',(R,'''	err := c.w.Flush()
	return n, err''','''	if err := c.w.Flush(); err != nil {
		return n, err
	}
	return len(buf), nil'''))
m('ok-i-range','',(R,'	for _, b := range buf {\n		switch','	for i, b := range buf {\n		_ = i\n		switch'))
m('ok-i-locals','',(R,'''	var n int

	for _, b''','''	var n int
	if len(buf) == 0 {
		return 0, nil
	}

	for _, b'''))
m('ok-i-invert','',(R,'bol, sawcr bool','midline, sawcr bool'),(R,'		bol:    true,\n',''),(R,'			if c.bol {','			if !c.midline {'),(R,'			c.bol = false','			c.midline = true'),(R,'	c.bol = true\n','	c.midline = false\n'))
m('ok-i-two','',(R,'strings.Repeat("  ", int(depth)) + prefix,','prefix,\n		lead:   strings.Repeat("  ", int(depth)),'),(R,'	indent     string\n','	indent     string\n	lead       string\n'),(R,'''				_, err := c.w.WriteString(c.indent)
''','''				if _, err := c.w.WriteString(c.lead); err != nil {
					return n, err
				}
				_, err := c.w.WriteString(c.indent)
'''))
m('ok-i-order','',(R,'''			c.bol = false
			if err := c.w.WriteByte(b); err != nil {
				return n, err
			}
''','''			if err := c.w.WriteByte(b); err != nil {
				return n, err
			}
			c.bol = false
'''))
m('ok-i-local-state','',(R,'''			if c.bol {
				_, err''','''			if bol := c.bol; bol {
				_, err'''))
m('ok-i-newline-inline','',(R,'''			c.bol = false
			if err''','''			if c.bol {
				c.bol = false
			}
			if err'''))
m('ok-i-dec','',(R,'''	con.depth--
	if con.depth < 0 {
		con.depth = 0
	}
''','''	if con.depth > 0 {
		con.depth--
	}
'''))
m('ok-i-inline-depth','',(R,'''	con.incDepth()
	defer con.decDepth()
''','''	con.mu.Lock()
	con.depth++
	con.mu.Unlock()
	defer con.decDepth()
'''))
m('ok-i-getdepth','',(R,'''	con.mu.Lock()
	depth := con.depth
	con.mu.Unlock()

	return &indenting''','''	depth := con.getDepth()

	return &indenting'''),(R,'''type indentingCopier struct''','''func (con *Controller) getDepth() int64 {
	con.mu.Lock()
	defer con.mu.Unlock()
	return int64(con.depth)
}

type indentingCopier struct'''))
m('ok-i-bytes','',(R,'''			if err := c.w.WriteByte(b); err != nil {''','''			if _, err := c.w.Write([]byte{b}); err != nil {'''))
