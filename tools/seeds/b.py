exec(open('/verif/tools/seeds/a.py').read().split("\nseed('c01a'")[0])

# --- C05
seed('c05a', [('header.go','	if sigBlock {\n','	if sigBlock && intro.Entries > 0 {\n')], r'''
func TestDemo(t *testing.T) {
	sig := &hb{data: []byte{1, 2, 3, 4}}
	gen := ident()
	in := mkrpm(sig, gen, []byte("PAYLOAD"))
	r := bytes.NewReader(in)
	h, err := rpmutils.ReadHeader(r)
	if err != nil { t.Fatal(err) }
	rest, _ := io.ReadAll(r)
	if string(rest) != "PAYLOAD" { t.Errorf("%q", rest) }
	if h.GetRange().End != len(in)-7 || h.OriginalSignatureHeaderSize() != 96+24 { t.Error(h.GetRange()) }
}
''','a signature header without entries whose data size is not a multiple of eight','the padding of the signature header is not consumed')
seed('c05b', [('rpmutils.go','''	lead, sigHeader, err := readSignatureHeader(f)
	if err != nil {
		return nil, err
	}

	hash, hashType := getHashAndType(sigHeader)
	genHeader, err := readHeader(f, hash,''','''	src := f
	if b, ok := f.(*bufio.Reader); ok {
		// many small reads follow
		src = bufio.NewReaderSize(b, 64<<10)
	}
	lead, sigHeader, err := readSignatureHeader(src)
	if err != nil {
		return nil, err
	}

	hash, hashType := getHashAndType(sigHeader)
	genHeader, err := readHeader(src, hash,'''),('rpmutils.go','import (\n','import (\n	"bufio"\n')], r'''
func TestDemo(t *testing.T) {
	r := bufio.NewReader(bytes.NewReader(mkrpm(nil, ident(), []byte(strings.Repeat("PAYLOAD", 100)))))
	if _, err := rpmutils.ReadHeader(r); err != nil { t.Fatal(err) }
	rest, _ := io.ReadAll(r)
	if len(rest) != 700 { t.Error(len(rest)) }
}
''','a buffered reader with a small buffer as the stream','payload bytes are consumed while reading the headers',imp='bufio')

# --- C06
seed('c06a', [('rpmutils.go','	if tag < _GENERAL_TAG_BASE {\n','	if tag < _GENERAL_TAG_BASE && tag >= SIG_DSA {\n')], r'''
func TestDemo(t *testing.T) {
	sig := &hb{}
	sig.bin(62, []byte("signature region"))
	sig.strs(100, "C")
	gen := ident()
	gen.bin(63, []byte("general region.."))
	h, err := rpmutils.ReadHeader(bytes.NewReader(mkrpm(sig, gen, nil)))
	if err != nil { t.Fatal(err) }
	if b, err := h.GetBytes(62); err != nil || string(b) != "signature region" { t.Error(string(b), err) }
	if h.HasTag(63) { t.Error("tag of the general header") }
	if s, err := h.GetStrings(100); err != nil || s[0] != "C" { t.Error(s, err) }
}
''','a query for a region or i18n table tag','the query is answered from the general header')
seed('c06b', [('rpmutils.go','		return -1, err\n	}\n	if len(vals) != 1 {\n','		return -1, err\n	}\n	if len(vals) == 0 {\n')], r'''
func TestDemo(t *testing.T) {
	gen := ident()
	gen.i32(1009, 5, 6)
	h, err := rpmutils.ReadHeader(bytes.NewReader(mkrpm(nil, gen, nil)))
	if err != nil { t.Fatal(err) }
	if v, err := h.GetInt(1009); err == nil { t.Error("returned", v) }
}
''','a single-value integer query for a tag with several values','the first value is returned as if it were the only one')
seed('c06c', [('header.go','	if ent.dataType != RPM_BIN_TYPE {\n','	if ent.dataType > RPM_BIN_TYPE {\n')], r'''
func TestDemo(t *testing.T) {
	gen := ident()
	gen.i32(1009, 5)
	h, err := rpmutils.ReadHeader(bytes.NewReader(mkrpm(nil, gen, nil)))
	if err != nil { t.Fatal(err) }
	if v, err := h.GetBytes(1009); err == nil { t.Error("returned", v) }
}
''','a byte array query for an integer tag','GetBytes returns the bytes of an integer')
seed('c06d', [('header.go','func (hdr *rpmHeader) GetBytes(tag int) ([]byte, error) {\n	ent, ok := hdr.entries[tag]\n	if !ok {\n		return nil, NewNoSuchTagError(tag)\n	}\n','func (hdr *rpmHeader) GetBytes(tag int) ([]byte, error) {\n	ent, ok := hdr.entries[tag]\n	if len(ent.contents) == 0 {\n		return nil, NewNoSuchTagError(tag)\n	}\n	_ = ok\n')], r'''
func TestDemo(t *testing.T) {
	gen := ident()
	gen.bin(1200, nil)
	gen.tag(1201, 4, 0, nil, 1)
	h, err := rpmutils.ReadHeader(bytes.NewReader(mkrpm(nil, gen, nil)))
	if err != nil { t.Fatal(err) }
	if v, err := h.GetBytes(1200); err != nil || len(v) != 0 { t.Error("an empty value is reported as missing:", err) }
	if _, err := h.GetBytes(1201); errors.As(err, &rpmutils.NoSuchTagError{}) { t.Error("an integer tag is reported as missing") }
}
''','a binary tag that exists with no bytes','a present tag is reported as absent')

# --- C07
seed('c07a', [('fileinfo.go','	return int(fi.mtime)\n','	return int(int32(fi.mtime))\n')], r'''
func TestDemo(t *testing.T) {
	gen := files(ident(), pfile{dir: "/", base: "a", mode: 0100644})
	for i := 0; i < len(gen.tags); i += 4 {
		if gen.tags[i] == 1034 { binary.BigEndian.PutUint32(gen.data[gen.tags[i+2]:], 0xf0000000) }
	}
	h, err := rpmutils.ReadHeader(bytes.NewReader(mkrpm(nil, gen, nil)))
	if err != nil { t.Fatal(err) }
	fs, err := h.GetFiles()
	if err != nil { t.Fatal(err) }
	if fs[0].Mtime() != 0xf0000000 { t.Error(fs[0].Mtime()) }
}
''','a modification time after 2038','the time comes out negative')
seed('c07b', [('header.go','			out[i] = uint32(v)\n		}\n	default:\n		return nil, fmt.Errorf("tag %d is too big for int type", tag)\n	}\n','			out[i] = uint32(v)\n		}\n	case []uint64:\n		for i, v := range bvals {\n			if out[i] = uint32(v); out[i] == 0 && v != 0 {\n				return nil, fmt.Errorf("value %d out of range in tag %d", i, tag)\n			}\n		}\n	}\n')], r'''
func TestDemo(t *testing.T) {
	gen := ident()
	gen.i64(1200, 0x100000001)
	h, err := rpmutils.ReadHeader(bytes.NewReader(mkrpm(nil, gen, nil)))
	if err != nil { t.Fatal(err) }
	if v, err := h.GetUint32s(1200); err == nil { t.Error(v) }
}
''','a 64-bit value queried as 32 bits','the value is truncated')
seed('c07c', [('cpio/header.go','	hdr.size64 = int64(hdr.filesize)\n','	hdr.size64 = int64(int32(hdr.filesize))\n')], r'''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	fmt.Fprintf(&b, "070701%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x", 1, 0100644, 0, 0, 1, 0, 0x90000000, 0, 0, 0, 0, 2, 0)
	b.WriteString("a\x00")
	h, err := cpio.NewReader(&b).Next()
	if err != nil { t.Fatal(err) }
	if h.Filesize64() != 0x90000000 { t.Error(h.Filesize64()) }
}
''','an entry of 2 GiB or more','its size is reported as negative',pkg='cpio')
seed('c07d', [('header.go','	case RPM_INT16_TYPE:\n		n >>= 1\n		buf = make([]uint16, n)\n','	case RPM_INT16_TYPE:\n		n >>= 1\n		vals := make([]uint16, n)\n		for i := range vals {\n			vals[i] = uint16(ent.contents[2*i]&0x7f)<<8 | uint16(ent.contents[2*i+1])\n		}\n		return vals, n, nil\n')] and
 [('header.go','		if err != nil {\n			return nil, err\n		}\n	return out','')] and [('header.go','		for i, v := range bvals {\n			out[i] = uint64(v)\n		}\n	case []uint32:','		for i, v := range bvals {\n			out[i] = uint64(uint8(v))\n		}\n	case []uint32:')], r'''
func TestDemo(t *testing.T) {
	gen := ident()
	gen.i16(1200, 0x8102)
	h, err := rpmutils.ReadHeader(bytes.NewReader(mkrpm(nil, gen, nil)))
	if err != nil { t.Fatal(err) }
	if v, err := h.GetUint64s(1200); err != nil || v[0] != 0x8102 { t.Error(v, err) }
}
''','a 16-bit tag queried as 64 bits','the upper byte is lost')

# --- C08
seed('c08a', [('fileinfo.go','(uint64(fi.device) << 32)','(uint64(fi.device) << 16)')], r'''
func TestDemo(t *testing.T) {
	payload := newc(ent{name: "./a", mode: 0100644, nlink: 1, data: "x"}, ent{name: "./b", mode: 0100644, nlink: 1, data: "y"})
	gen := files(ident(), pfile{dir: "/", base: "a", mode: 0100644, size: 1, dev: 1, ino: 5}, pfile{dir: "/", base: "b", mode: 0100644, size: 1, dev: 0, ino: 65541})
	gen.str(1125, "uncompressed")
	rpm, err := rpmutils.ReadRpm(bytes.NewReader(mkrpm(nil, gen, payload)))
	if err != nil { t.Fatal(err) }
	pr, err := rpm.PayloadReaderExtended()
	if err != nil { t.Fatal(err) }
	if _, err := pr.Next(); err != nil { t.Fatal(err) }
	if pr.IsLink() { t.Error("unrelated files are reported as hard links") }
}
''','two files on different devices whose inode numbers differ by 65536','unrelated files are taken for hard links of each other')
seed('c08b', [('header.go','hdr.GetUint64Fallback(FILESIZES, LONGFILESIZES)','hdr.GetUint64Fallback(LONGFILESIZES, FILESIZES)')], r'''
func TestDemo(t *testing.T) {
	gen := files(ident(), pfile{dir: "/", base: "a", mode: 0100644, size: 0xffffffff})
	gen.i64(5008, 1<<33)
	h, err := rpmutils.ReadHeader(bytes.NewReader(mkrpm(nil, gen, nil)))
	if err != nil { t.Fatal(err) }
	fs, err := h.GetFiles()
	if err != nil { t.Fatal(err) }
	if fs[0].Size() != 1<<33 { t.Error(fs[0].Size()) }
}
''','a package that has both 32-bit and 64-bit file sizes','the truncated 32-bit size wins')
seed('c08c', [('header.go','			linkName:  linkTos[i],','			linkName:  linkTos[len(linkTos)-n+i],')], r'''
func TestDemo(t *testing.T) {
	gen := files(ident(), pfile{dir: "/", base: "a", mode: 0120777, link: "first"}, pfile{dir: "/", base: "b", mode: 0120777, link: "second"})
	for i := 0; i < len(gen.tags); i += 4 {
		if gen.tags[i] == 1036 { gen.tags = append(gen.tags[:i], gen.tags[i+4:]...) }
	}
	gen.strs(1036, "first", "second", "third")
	h, err := rpmutils.ReadHeader(bytes.NewReader(mkrpm(nil, gen, nil)))
	if err != nil { t.Fatal(err) }
	fs, err := h.GetFiles()
	if err != nil { t.Fatal(err) }
	if fs[0].Linkname() != "first" || fs[1].Linkname() != "second" { t.Error(fs[0].Linkname(), fs[1].Linkname()) }
}
''','a link target table longer than the file list','link targets are paired with the wrong files')
seed('c08d', [('header.go','		Epoch:   strconv.FormatUint(epoch[0], 10),','		Epoch:   strconv.FormatUint(epoch[len(epoch)-1], 10),')], r'''
func TestDemo(t *testing.T) {
	gen := ident()
	gen.i32(1003, 3, 9)
	h, err := rpmutils.ReadHeader(bytes.NewReader(mkrpm(nil, gen, nil)))
	if err != nil { t.Fatal(err) }
	n, err := h.GetNEVRA()
	if err != nil { t.Fatal(err) }
	if n.Epoch != "3" { t.Error(n.Epoch) }
}
''','an epoch tag with two values','the identity carries the second value')

# --- C09
seed('c09a', [('cpio/header.go','Devminor() int { return hdr.devminor }','Devminor() int { return hdr.rdevminor }')] and [('cpio/header.go','func (hdr *Cpio_newc_header) Devminor() int { return hdr.devminor }','func (hdr *Cpio_newc_header) Devminor() int { return hdr.rdevminor }')], r'''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	fmt.Fprintf(&b, "070701%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x", 1, 0100644, 2, 3, 4, 5, 6, 7, 8, 9, 10, 2, 11)
	b.WriteString("a\x00")
	h, err := cpio.NewReader(&b).Next()
	if err != nil { t.Fatal(err) }
	if h.Devmajor() != 7 || h.Devminor() != 8 || h.Rdevmajor() != 9 || h.Rdevminor() != 10 { t.Error(h.Devmajor(), h.Devminor(), h.Rdevmajor(), h.Rdevminor()) }
}
''','an entry with distinct device numbers','device numbers are reported in the wrong fields',pkg='cpio')
seed('c09b', [('cpio/header.go','	} else if string(magic) != newcMagic {','	} else if string(magic[:5]) != newcMagic[:5] {')], r'''
func TestDemo(t *testing.T) {
	for _, m := range []string{"070702", "070700", "070707", "07070x"} {
		b := newc(ent{name: "a", mode: 0100644, nlink: 1})
		copy(b, m)
		if _, err := cpio.NewReader(bytes.NewReader(b)).Next(); err == nil { t.Error("accepted", m) }
	}
}
''','an archive of another cpio variant','its entries are decoded as newc',pkg='cpio')
seed('c09c', [('cpio/header.go','	if err := br.Read16(&hdr.index); err != nil {','	if err := br.Read16(&hdr.ino); err != nil {'),('cpio/header.go','		return nil, err\n	}\n	return hdr, nil\n}','		return nil, err\n	}\n	hdr.index = hdr.ino\n	return hdr, nil\n}')], r'''
func TestDemo(t *testing.T) {
	r := cpio.NewReaderWithSizes(bytes.NewReader([]byte("07070X00000001foo")), []int64{1, 3})
	h, err := r.Next()
	if err != nil { t.Fatal(err) }
	if h.Ino() != 0 || h.Index() != 1 { t.Error(h.Ino(), h.Index()) }
}
''','a stripped entry','the file index is reported as an inode number',pkg='cpio')

# --- C10
seed('c10a', [('cpio/reader.go','	if err != nil {\n		return nil, err\n	} else if ent.Header','	if err == io.ErrUnexpectedEOF && r.cur != nil && r.cur.payload.curr_pos == r.cur.payload.size {\n		// some writers leave out the trailer\n		return nil, io.EOF\n	} else if err != nil {\n		return nil, err\n	} else if ent.Header'),('cpio/reader.go','	return r.cur.payload.Read(p)','	n, err = r.cur.payload.Read(p)\n	return n, err')], r'''
func TestDemo(t *testing.T) {
	b := newc(ent{name: "a", mode: 0100644, nlink: 1, data: "xxxx"}, ent{name: "b", mode: 0100644, nlink: 1, data: "y"})
	r := cpio.NewReader(bytes.NewReader(b[:120+20]))
	if _, err := r.Next(); err != nil { t.Fatal(err) }
	if _, err := io.ReadAll(r); err != nil { t.Fatal(err) }
	if _, err := r.Next(); err == nil || err == io.EOF { t.Error("truncated archive taken for a complete one") }
}
''','an archive cut off after an entry that was read completely','the truncated archive looks complete',pkg='cpio')
seed('c10b', [('cpio/extract.go','		if entry.Header.filename == TRAILER {\n','		if entry.Header.filename == TRAILER || entry.Header.nlink == 0 && entry.Header.mode == 0 {\n')], r'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	err := cpio.Extract(bytes.NewReader(newc(ent{name: "a"}, ent{name: "b", mode: 0100644, nlink: 1, data: "x"})), d)
	if err == nil { t.Error("entries after an odd one are dropped silently") }
}
''','an entry with neither mode nor link count','extraction stops there and reports success',pkg='cpio')
seed('c10c', [('cpio/reader.go','ent.Header.filename == TRAILER {','len(ent.Header.filename) >= len(TRAILER) && ent.Header.filename[:len(TRAILER)] == TRAILER {')], r'''
func TestDemo(t *testing.T) {
	r := cpio.NewReader(bytes.NewReader(newc(ent{name: "TRAILER!!!.txt", mode: 0100644, nlink: 1}, ent{name: "b", mode: 0100644, nlink: 1, data: "x"})))
	if _, err := r.Next(); err != nil { t.Error(err) }
}
''','a file whose name starts with the trailer name','iteration ends before the trailer',pkg='cpio')

# --- C11
seed('c11a', [('cpio/stream.go','	if int64(len(p)) > fs.size-fs.curr_pos {\n','	if int64(len(p)) > pad64(fs.size-fs.curr_pos) {\n')], r'''
func TestDemo(t *testing.T) {
	r := cpio.NewReader(bytes.NewReader(newc(ent{name: "a", mode: 0100644, nlink: 1, data: "0123456789"})))
	if _, err := r.Next(); err != nil { t.Fatal(err) }
	io.ReadFull(r, make([]byte, 4))
	b := make([]byte, 7)
	if n, _ := r.Read(b); n != 6 { t.Errorf("%q", b[:n]) }
}
''','an entry read in several parts','bytes after the entry are delivered as its contents',pkg='cpio')
seed('c11b', [('cpio/stream.go','	if fs.start_pos+fs.curr_pos != pos {','	if fs.start_pos+fs.curr_pos > pos {')], r'''
func TestDemo(t *testing.T) {
	in := newc(ent{name: "a", mode: 0100644, nlink: 1, data: "0123456789"}, ent{name: "bb", mode: 0100644, nlink: 1, data: "b"})
	r := cpio.NewReader(bytes.NewReader(bytes.Replace(in[6:], []byte("070701"), []byte("******"), 1)))
	r = cpio.NewReader(io.MultiReader(strings.NewReader("070701"), bytes.NewReader(bytes.Replace(in[6:], []byte("070701"), []byte("******"), 1))))
	if _, err := r.Next(); err != nil { t.Fatal(err) }
	io.ReadFull(r, make([]byte, 2))
	if _, err := r.Next(); err == nil { t.Fatal("bad magic accepted") }
	// the failed Next left the stream beyond the first entry
	buf := make([]byte, 8)
	if n, err := r.Read(buf); n > 0 || err == nil { t.Errorf("stale entry delivers %q %v", buf[:n], err) }
}
''','reading from an entry after the stream has moved past it','a stale entry delivers bytes of a later one',pkg='cpio')
seed('c11c', [('cpio/cpio.go','	cs.nextPos = pad64(cs.stream.curPos + int64(hdr.filesize))','	cs.nextPos = cs.stream.curPos + int64(pad(int(uint32(hdr.filesize+3)))-3)&^3')], r'''
func TestDemo(t *testing.T) {
	for n := 0; n < 10; n++ {
		r := cpio.NewReader(bytes.NewReader(newc(ent{name: "a", mode: 0100644, nlink: 1, data: strings.Repeat("x", n)}, ent{name: "b", mode: 0100644, nlink: 1, data: "b"})))
		if _, err := r.Next(); err != nil { t.Fatal(err) }
		if _, err := r.Next(); err != nil { t.Error(n, err) }
	}
}
''','an entry whose size is a multiple of four plus one','the next entry is looked for at the wrong place',pkg='cpio')
seed('c11d', [('cpio/cpio.go','	if cs.nextPos != cs.stream.curPos {','	if skip := cs.nextPos - cs.stream.curPos; skip > 0 && skip != 4 {')], r'''
func TestDemo(t *testing.T) {
	for k := 0; k <= 10; k++ {
		r := cpio.NewReader(bytes.NewReader(newc(ent{name: "a", mode: 0100644, nlink: 1, data: "0123456789"}, ent{name: "b", mode: 0100644, nlink: 1, data: "b"})))
		if _, err := r.Next(); err != nil { t.Fatal(err) }
		io.ReadFull(r, make([]byte, k))
		if _, err := r.Next(); err != nil { t.Error(k, err) }
	}
}
''','an entry of which all but exactly four bytes (with padding) were read','the rest of the entry is taken for the next header',pkg='cpio')

# --- C12
seed('c12a', [('cpio/extract.go','			m := os.FileMode(entry.Header.Mode()).Perm()\n			if err := os.Mkdir(target, m); err != nil {\n','			m := os.FileMode(entry.Header.Mode()).Perm() | 0700\n			if err := os.Mkdir(target, m); err != nil {\n				// like mkdir -p -m\n				_ = os.Chmod(target, m)\n')], r'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	out := d + "/outside"
	os.Mkdir(out, 0700)
	cpio.Extract(bytes.NewReader(newc(ent{name: "link", mode: 0120777, nlink: 1, data: out}, ent{name: "link", mode: 040755, nlink: 2})), d+"/dest")
	if st, err := os.Stat(out); err != nil || st.Mode().Perm() != 0700 { t.Error("permissions of an outside directory changed:", st.Mode()) }
}
''','a directory entry with the name of a symlink planted by an earlier entry','permissions outside of the destination are changed',pkg='cpio')
seed('c12b', [('cpio/extract.go','		// Create the parent directory if it doesn\'t exist.\n','		if entry.Header.Mode()&^07777 == S_ISREG && entry.Header.nlink > 1 && entry.Header.filesize == 0 {\n			// hardlinks are made after the target is written\n			linkMap[entry.Header.ino] = append(linkMap[entry.Header.ino], target)\n			continue\n		}\n		// Create the parent directory if it doesn\'t exist.\n'),
 ('cpio/extract.go','''			// save hardlinks until after the taget is written
			if entry.Header.nlink > 1 && entry.Header.filesize == 0 {
				l, ok := linkMap[entry.Header.ino]
				if !ok {
					l = make([]string, 0)
				}
				l = append(l, target)
				linkMap[entry.Header.ino] = l
				continue
			}

''',''),
 ('cpio/extract.go','				for _, t := range l {\n					if err := os.Link(target, t)','				for _, t := range l {\n					if err := os.MkdirAll(filepath.Dir(t), 0755); err != nil {\n						return err\n					}\n					if err := os.Link(target, t)'),
 ('cpio/extract.go','			f, err := createFile(t)\n','			if err := os.MkdirAll(filepath.Dir(t), 0755); err != nil {\n				return err\n			}\n			f, err := createFile(t)\n'),
 ('cpio/extract.go','			if source, ok := contents[ino]; ok {\n','			if source, ok := contents[ino]; ok {\n				if err := os.MkdirAll(filepath.Dir(t), 0755); err != nil {\n					return err\n				}\n')], r'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	out := d + "/outside"
	os.Mkdir(out, 0700)
	cpio.Extract(bytes.NewReader(newc(ent{name: "dir/f", mode: 0100644, nlink: 2, ino: 7}, ent{name: "dir", mode: 0120777, nlink: 1, data: out}, ent{name: "g", mode: 0100644, nlink: 2, ino: 7, data: "evil"})), d+"/dest")
	if l, _ := os.ReadDir(out); len(l) > 0 { t.Error("created outside:", l[0].Name()) }
}
''','a hard link without contents, then a symlink planted over its directory, then the contents','a hard link is created outside of the destination',pkg='cpio')

# --- C13
seed('c13a', [('cpio/extract.go','					if err := os.Link(target, t); err != nil {\n','					if err := os.Link(target, t); err != nil && !os.IsExist(err) {\n')], r'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	os.WriteFile(d+"/a", []byte("old"), 0600)
	err := cpio.Extract(bytes.NewReader(newc(ent{name: "a", mode: 0100644, nlink: 2, ino: 7}, ent{name: "b", mode: 0100644, nlink: 2, ino: 7, data: "new"})), d)
	b, _ := os.ReadFile(d + "/a")
	if err == nil && string(b) != "new" { t.Errorf("success, but a holds %q", b) }
}
''','extracting a hard link over an existing file','the link is not created and no error is reported',pkg='cpio')
seed('c13b', [('cpio/extract.go','		case S_ISBLK:\n','		case S_ISBLK, S_ISSOCK, 0:\n')], r'''
func TestDemo(t *testing.T) {
	for _, m := range []int{0140755, 0644} {
		if err := cpio.Extract(bytes.NewReader(newc(ent{name: "a", mode: m, nlink: 1})), t.TempDir()); err == nil { t.Errorf("an entry of mode %o is skipped silently", m) }
	}
}
''','an entry without or with an unsupported file type','it is skipped and extraction reports success',pkg='cpio')

# --- C14
seed('c14a', [('rpmutils.go','	if c, ok := pld.(io.Closer); ok {\n		defer c.Close()\n	}\n	return cpio.Extract(pld, dest)','	if err := cpio.Extract(pld, dest); err != nil {\n		return err\n	}\n	if c, ok := pld.(io.Closer); ok {\n		return c.Close()\n	}\n	return nil')], r'''
func TestDemo(t *testing.T) {
	var z bytes.Buffer
	w, err := zstd.NewWriter(&z)
	if err != nil { t.Fatal(err) }
	junk := make([]byte, 8<<20)
	for i, x := 0, uint32(1); i < len(junk); i++ {
		x = x*1664525 + 1013904223
		junk[i] = byte(x >> 24)
	}
	w.Write(newc(ent{name: "./a", mode: 0170000, nlink: 1, data: string(junk)}))
	w.Close()
	gen := files(ident(), pfile{dir: "/", base: "a", mode: 0100644, size: 1})
	gen.str(1125, "zstd")
	in := mkrpm(nil, gen, z.Bytes())
	base := runtime.NumGoroutine()
	for i := 0; i < 20; i++ {
		rpm, err := rpmutils.ReadRpm(bytes.NewReader(in))
		if err != nil { t.Fatal(err) }
		if err := rpm.ExpandPayload(t.TempDir()); err == nil { t.Fatal("unknown file type accepted") }
	}
	time.Sleep(50 * time.Millisecond)
	if n := runtime.NumGoroutine(); n > base+10 { t.Error("goroutines:", n, "before:", base) }
}
''','extraction of a zstd payload that fails midway','the decompressor is leaked','.','CGO_ENABLED=0 ',imp='runtime github.com/klauspost/compress/zstd')
seed('c14b', [('rpmutils.go','''	files, err := rpm.Header.GetFiles()
	if err != nil {
		return nil, err
	}
	pld, err := uncompressRpmPayloadReader(rpm.f, rpm.Header)
	if err != nil {
		return nil, err
	}
	return newPayload''','''	pld, err := uncompressRpmPayloadReader(rpm.f, rpm.Header)
	if err != nil {
		return nil, err
	}
	files, err := rpm.Header.GetFiles()
	if err != nil {
		return nil, err
	}
	return newPayload''')], r'''
func TestDemo(t *testing.T) {
	var z bytes.Buffer
	w, err := zstd.NewWriter(&z)
	if err != nil { t.Fatal(err) }
	junk := make([]byte, 8<<20)
	for i, x := 0, uint32(1); i < len(junk); i++ {
		x = x*1664525 + 1013904223
		junk[i] = byte(x >> 24)
	}
	w.Write(junk)
	w.Close()
	gen := files(ident(), pfile{dir: "/", base: "a", mode: 0100644, size: 1})
	gen.tags[1] = 7
	gen.str(1125, "zstd")
	for i := 0; i < len(gen.tags); i += 4 {
		if gen.tags[i] == 1034 { gen.tags[i+1] = 7 }
	}
	in := mkrpm(nil, gen, z.Bytes())
	base := runtime.NumGoroutine()
	for i := 0; i < 20; i++ {
		rpm, err := rpmutils.ReadRpm(bytes.NewReader(in))
		if err != nil { t.Fatal(err) }
		if _, err := rpm.PayloadReaderExtended(); err == nil { t.Fatal("malformed file list accepted") }
	}
	time.Sleep(50 * time.Millisecond)
	if n := runtime.NumGoroutine(); n > base+10 { t.Error("goroutines:", n, "before:", base) }
}
''','opening the payload of a package with a malformed file list','the decompressor is leaked','.','CGO_ENABLED=0 ',imp='runtime github.com/klauspost/compress/zstd')
SEEDS=S
