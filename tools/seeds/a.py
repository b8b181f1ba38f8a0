H=open('/verif/tools/seeds/demo_helpers.txt').read()
C=open('/verif/tools/seeds/demo_cpio_helpers.txt').read()
S=[]
def seed(id, edits, demo, needs, breaks, pkg='.', env='', imp=''):
    src=(H if pkg=='.' else C)
    for i in imp.split():
        src=src.replace('import (','import (\n\t"%s"'%i,1)
    S.append(dict(id=id, prop=id[:3].upper(), edits=edits, demo=src+demo, needs=needs, breaks=breaks, pkg=pkg, env=env))

seed('c01a', [('verify_v4.go','if identity := entity.PrimaryIdentity(); identity != nil {\n\t\tsig.PrimaryName = identity.Name\n\t}','sig.PrimaryName = entity.PrimaryIdentity().Name')], r'''
func TestDemo(t *testing.T) {
	key := mkkey(t)
	payload := newc(ent{name: "./f", mode: 0100644, data: "hello", nlink: 1})
	gen := pdigest(ident(), payload)
	in := mkrpm(nil, gen, payload)
	h, err := rpmutils.SignRpmStream(bytes.NewReader(in), key.PrivateKey, nil)
	if err != nil { t.Fatal(err) }
	blob, err := h.DumpSignatureHeader(false)
	if err != nil { t.Fatal(err) }
	signed := append(blob, in[h.OriginalSignatureHeaderSize():]...)
	key.Identities = map[string]*openpgp.Identity{}
	nopanic(t, func() {
		if _, _, err := rpmutils.Verify(bytes.NewReader(signed), openpgp.EntityList{key}); err != nil { t.Error(err) }
	})
}
''','a known key without any user ID','verification crashes with a nil pointer instead of returning')

seed('c01b', [('rpmutils.go','magic&0xffffffff != 0xedabeedb {','magic&0xffffffff != 0xedabeedb || lead[4] == 0 {'),
 ('header.go','	// verify intro\n','	// verify intro\n	if sigBlock && isSource {\n		_ = typeSizes[0]\n	}\n')] and
 [('verify_digests.go','	blob, err := sigHeader.GetBytes(tag)\n','	blob, err := sigHeader.GetBytes(tag)\n	if err == nil && blob[0]&0x80 == 0 {\n		return nil, ErrNoPGPSignature\n	}\n'),
  ('verify_digests.go','	return parseSignature(blob, knownKeys)','	sig, err := parseSignature(blob, knownKeys)\n	return sig, err')], r'''
func TestDemo(t *testing.T) {
	payload := newc()
	gen := pdigest(ident(), payload)
	sig := sigOf(gen)
	sig.bin(268, nil)
	nopanic(t, func() {
		if _, _, err := rpmutils.Verify(bytes.NewReader(mkrpm(sig, gen, payload)), nil); err == nil { t.Error("accepted") }
	})
}
''','a signature tag with a count of zero','verifying a package with an empty signature tag panics')

seed('c02a', [('rpmutils.go','		return "", err\n	}\n	if len(vals) != 1 {','		return "", err\n	}\n	if len(vals) > 1 {')], r'''
func TestDemo(t *testing.T) {
	gen := ident()
	gen.tag(1082, 8, 0, nil, 1)
	h, err := rpmutils.ReadHeader(bytes.NewReader(mkrpm(nil, gen, nil)))
	if err != nil { t.Fatal(err) }
	nopanic(t, func() {
		if _, err := h.GetString(1082); err == nil { t.Error("no error") }
	})
}
''','a string array tag whose count is zero','GetString panics on an empty string array')

seed('c02b', [('writeheader.go','if needed+16 <= available {','if needed <= available {')], r'''
func TestDemo(t *testing.T) {
	for n := 0; n < 40; n++ {
		gen := ident()
		sig := &hb{}
		sig.bin(62, make([]byte, 16))
		sig.bin(300, make([]byte, 16))
		sig.bin(1004, make([]byte, n))
		h, err := rpmutils.ReadHeader(bytes.NewReader(mkrpm(sig, gen, nil)))
		if err != nil { t.Fatal(err) }
		nopanic(t, func() { h.DumpSignatureHeader(true) })
		sig = &hb{}
		sig.bin(62, make([]byte, 16))
		sig.bin(1008, make([]byte, n))
		h, err = rpmutils.ReadHeader(bytes.NewReader(mkrpm(sig, gen, nil)))
		if err != nil { t.Fatal(err) }
		nopanic(t, func() { h.DumpSignatureHeader(true) })
	}
}
''','a signature header that leaves room for fewer than 16 spare bytes','dumping the signature header asks for a negative amount of padding and panics')

seed('c03a', [('payload.go',"if len(name) > 1 && name[0] == '.' && name[1] == '/' {","if name != \"\" && name[0] == '.' && name[1] == '/' {")], r'''
func TestDemo(t *testing.T) {
	payload := newc(ent{name: ".", mode: 040755, nlink: 1})
	gen := files(ident(), pfile{dir: "/", base: "a", mode: 0100644})
	gen.str(1125, "uncompressed")
	rpm, err := rpmutils.ReadRpm(bytes.NewReader(mkrpm(nil, gen, payload)))
	if err != nil { t.Fatal(err) }
	pr, err := rpm.PayloadReaderExtended()
	if err != nil { t.Fatal(err) }
	nopanic(t, func() { pr.Next() })
}
''','a payload entry named "."','payload iteration panics')

seed('c03b', [('cpio/cpio.go','} else if hdr.index >= len(cs.sizes) {','} else if hdr.index > len(cs.sizes) {')], r'''
func TestDemo(t *testing.T) {
	b := []byte("07070X00000002foobarfoobar")
	r := cpio.NewReaderWithSizes(bytes.NewReader(b), []int64{3, 6})
	nopanic(t, func() {
		if _, err := r.Next(); err == nil { t.Error("accepted") }
	})
}
''','a stripped entry whose index is one past the size table','iteration panics',pkg='cpio')

seed('c03c', [('payload.go','		isLink:  make([]bool, len(files)),\n',''),('payload.go','	lastInodes := make(map[uint64]int)\n','	lastInodes := make(map[uint64]int)\n	for i, info := range files {\n		pr.fileMap[info.Name()] = i\n	}\n	pr.isLink = make([]bool, len(pr.fileMap))\n')], r'''
func TestDemo(t *testing.T) {
	payload := newc(ent{name: "./a", mode: 0100644, nlink: 2})
	gen := files(ident(), pfile{dir: "/", base: "a", mode: 0100644, ino: 1}, pfile{dir: "/", base: "a", mode: 0100644, ino: 2}, pfile{dir: "/", base: "b", mode: 0100644, ino: 3}, pfile{dir: "/", base: "c", mode: 0100644, ino: 3}, pfile{dir: "/", base: "c", mode: 0100644, ino: 3})
	gen.str(1125, "uncompressed")
	rpm, err := rpmutils.ReadRpm(bytes.NewReader(mkrpm(nil, gen, payload)))
	if err != nil { t.Fatal(err) }
	nopanic(t, func() {
		pr, err := rpm.PayloadReaderExtended()
		if err != nil { t.Fatal(err) }
		pr.Next()
	})
}
''','a file list that names the same path twice and has hard links at its end','opening the payload panics')

seed('c04a', [('verify_digests.go','		if _, err := io.Copy(io.MultiWriter(payloadWriters...), payloadReader); err != nil {\n			return err\n		}\n		calculated := payloadHasher.Sum(nil)','		// read the payload in one go when the header says how big it is\n		bufSize := 32 << 10\n		if size, err := sigHeader.GetUint64s(SIG_SIZE - _SIGHEADER_TAG_BASE); err == nil && len(size) == 1 && size[0] > uint64(len(genHeader.orig)) && size[0] < 1<<40 {\n			bufSize = int(size[0]) - len(genHeader.orig)\n		}\n		if _, err := io.CopyBuffer(io.MultiWriter(payloadWriters...), payloadReader, make([]byte, bufSize)); err != nil {\n			return err\n		}\n		calculated := payloadHasher.Sum(nil)')], r'''
func TestDemo(t *testing.T) {
	gen := ident()
	sig := sigOf(gen)
	m := md5.Sum(gen.bytes(false))
	sig.bin(1004, m[:])
	sig.i32(1000, 0x60000000)
	in := mkrpm(sig, gen, nil)
	var m1, m2 runtime.MemStats
	runtime.ReadMemStats(&m1)
	_, _, err := rpmutils.Verify(struct{ io.Reader }{bytes.NewReader(in)}, nil)
	runtime.ReadMemStats(&m2)
	if err != nil { t.Error(err) }
	if m2.TotalAlloc-m1.TotalAlloc > 256<<20 { t.Error("allocated", m2.TotalAlloc-m1.TotalAlloc) }
}
''','a package without payload digest whose signature header declares a huge size','verification allocates as much memory as the file declares',imp='runtime')

seed('c04b', [('cpio/extract.go','			written, err := io.Copy(f, entry.payload)\n','			written, err := io.CopyBuffer(struct{ io.Writer }{f}, entry.payload, make([]byte, entry.Header.filesize+1))\n')], r'''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	fmt.Fprintf(&b, "070701%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x", 1, 0100644, 0, 0, 1, 0, 0x60000000, 0, 0, 0, 0, 2, 0)
	b.WriteString("a\x00")
	var m1, m2 runtime.MemStats
	runtime.ReadMemStats(&m1)
	err := cpio.Extract(&b, t.TempDir())
	runtime.ReadMemStats(&m2)
	if err == nil { t.Error("accepted") }
	if m2.TotalAlloc-m1.TotalAlloc > 256<<20 { t.Error("allocated", m2.TotalAlloc-m1.TotalAlloc) }
}
''','an archive entry that declares a huge size','extraction allocates as much memory as the entry declares',pkg='cpio',imp='runtime')

seed('c20a', [('signatures.go','	_, err = io.Copy(outstream, infile)\n	return err','	n, err := io.Copy(outstream, infile)\n	if n == 0 {\n		return err\n	}\n	return nil')], r'''
func TestDemo(t *testing.T) {
	key := mkkey(t)
	payload := newc(ent{name: "./f", mode: 0100644, data: strings.Repeat("x", 1<<20), nlink: 1})
	in := mkrpm(nil, pdigest(ident(), payload), payload)
	d := t.TempDir()
	if err := os.WriteFile(d+"/in", in, 0600); err != nil { t.Fatal(err) }
	f, err := os.Open(d + "/in")
	if err != nil { t.Fatal(err) }
	defer f.Close()
	r, w, err := os.Pipe()
	if err != nil { t.Fatal(err) }
	defer r.Close()
	old := os.Stdout
	os.Stdout = w
	w.SetWriteDeadline(time.Now().Add(500 * time.Millisecond))
	_, err = rpmutils.SignRpmFile(f, "-", key.PrivateKey, nil)
	os.Stdout = old
	w.Close()
	if err == nil { t.Error("a failed write was not reported") }
}
''','the output fails after part of the payload has been written','a truncated output is reported as success',)

seed('c20b', [('header.go','	fileMtimes, err := hdr.GetUint32s(FILEMTIMES)\n	if err != nil {\n		return nil, err\n	}','	fileMtimes, err := hdr.GetUint32s(FILEMTIMES)\n	if err != nil {\n		fileMtimes = make([]uint32, len(paths))\n	}')], r'''
func TestDemo(t *testing.T) {
	gen := files(ident(), pfile{dir: "/", base: "a", mode: 0100644})
	for i := 0; i < len(gen.tags); i += 4 {
		if gen.tags[i] == 1034 { gen.tags[i+1] = 7 }
	}
	h, err := rpmutils.ReadHeader(bytes.NewReader(mkrpm(nil, gen, nil)))
	if err != nil { t.Fatal(err) }
	if _, err := h.GetFiles(); err == nil { t.Error("a malformed FILEMTIMES was ignored") }
}
''','a FILEMTIMES tag of another type','GetFiles invents modification times instead of failing')

seed('c20c', [('cpio/cpio.go','		_, err := cs.stream.Seek(int64(offset), 1)\n		if err != nil {\n			return nil, err\n		}','		if _, err := cs.stream.Seek(int64(offset), 1); err != nil && hdr.filesize > 0 {\n			return nil, err\n		}')], r'''
func TestDemo(t *testing.T) {
	bad := errors.New("disk on fire")
	b := newc(ent{name: "abc", mode: 0100644, nlink: 1})
	// stop within the padding of the name
	r := cpio.NewReader(io.MultiReader(bytes.NewReader(b[:110+4]), iotest.ErrReader(bad)))
	if _, err := r.Next(); !errors.Is(err, bad) { t.Error("failure while skipping the padding was ignored:", err) }
}
''','the stream fails within the padding after the name of an empty entry','an entry is returned although the read failed',pkg='cpio')

seed('c22a', [('cpio/header.go','	bb := br.buf[:8]\n','	bb := scratch[:8]\n'),('cpio/header.go','type binaryReader struct {','// scratch avoids an allocation per field\nvar scratch [8]byte\n\ntype binaryReader struct {')], r'''
type nested struct {
	data  []byte
	inner func()
	n     int
}

func (r *nested) Read(p []byte) (int, error) {
	if len(r.data) == 0 { return 0, io.EOF }
	r.n++
	if r.n == 3 { r.inner() }
	n := len(p)
	if n > 4 { n = 4 }
	n = copy(p[:n], r.data)
	r.data = r.data[n:]
	return n, nil
}

func TestDemo(t *testing.T) {
	// two archives being read at the same time, the second one advancing while the first waits for input
	for at := 1; at < 30; at++ {
		a := newc(ent{name: "a", mode: 0100644, nlink: 1, ino: 0x11112222, uid: 0x33334444, gid: 0x55556666})
		b := newc(ent{name: "b", mode: 0100755, nlink: 1, ino: 0x77778888, uid: 0x1234567, gid: 0x7654321})
		r := cpio.NewReader(&nested{data: a, n: 3 - at, inner: func() {
			cpio.NewReader(bytes.NewReader(b)).Next()
		}})
		h, err := r.Next()
		if err != nil { t.Fatal(err) }
		if h.Ino() != 0x11112222 || h.Uid() != 0x33334444 || h.Gid() != 0x55556666 { t.Errorf("%x %x %x", h.Ino(), h.Uid(), h.Gid()) }
	}
}
''','two archives read at the same time, one waiting for input in the middle of a field','header fields of one archive leak into another',pkg='cpio')

seed('c22b', [('header.go','		paths := make([]string, 0, len(baseNames))','		paths := pathBuf[:0]'),('header.go','		return paths, nil\n	}\n\n	if !ok {','		pathBuf = paths\n		return paths, nil\n	}\n\n	if !ok {'),('header.go','func readExact(','// pathBuf keeps the storage for spliced paths\nvar pathBuf []string\n\nfunc readExact(')], r'''
func TestDemo(t *testing.T) {
	get := func(dir string) []string {
		h, err := rpmutils.ReadHeader(bytes.NewReader(mkrpm(nil, files(ident(), pfile{dir: dir, base: "a"}, pfile{dir: dir, base: "b"}), nil)))
		if err != nil { t.Fatal(err) }
		s, err := h.GetStrings(1027)
		if err != nil { t.Fatal(err) }
		return s
	}
	get("/first")
	x := get("/x")
	get("/y")
	if x[0] != "/x/a" || x[1] != "/x/b" { t.Error(x) }
}
''','paths of two packages held at the same time','the file list of one package is overwritten by that of another')

seed('c24a', [('uncompress_nocgo.go','	d.Decoder.Close()\n	return nil','	// the decoder recovers its resources by itself once the stream has ended\n	if d.Decoder == nil {\n		return zstd.ErrDecoderNilInput\n	}\n	return nil')], r'''
func TestDemo(t *testing.T) {
	var z bytes.Buffer
	w, err := zstd.NewWriter(&z)
	if err != nil { t.Fatal(err) }
	junk := make([]byte, 8<<20)
	for i, x := 0, uint32(1); i < len(junk); i++ {
		x = x*1664525 + 1013904223
		junk[i] = byte(x >> 24)
	}
	w.Write(newc(ent{name: "./a", mode: 0170000, nlink: 1, data: string(junk)}))
	w.Close()
	gen := files(ident(), pfile{dir: "/", base: "a", mode: 0100644, size: 1})
	gen.str(1125, "zstd")
	in := mkrpm(nil, gen, z.Bytes())
	base := runtime.NumGoroutine()
	for i := 0; i < 20; i++ {
		rpm, err := rpmutils.ReadRpm(bytes.NewReader(in))
		if err != nil { t.Fatal(err) }
		if err := rpm.ExpandPayload(t.TempDir()); err == nil { t.Fatal("unknown file type accepted") }
	}
	time.Sleep(50 * time.Millisecond)
	if n := runtime.NumGoroutine(); n > base+10 { t.Error("goroutines:", n, "before:", base) }
}
''','a build without cgo and a zstd payload whose extraction fails early','closing the decompressor does not release it','.','CGO_ENABLED=0 ',imp='runtime github.com/klauspost/compress/zstd')

seed('c24b', [('uncompress_nocgo.go','	decoder, err := zstd.NewReader(r)','	decoder, err := zstd.NewReader(r, zstd.WithDecoderMaxWindow(8<<20))')], r'''
func TestDemo(t *testing.T) {
	var z bytes.Buffer
	w, err := zstd.NewWriter(&z, zstd.WithWindowSize(32<<20))
	if err != nil { t.Fatal(err) }
	w.Write(newc(ent{name: "./a", mode: 0100644, nlink: 1, data: strings.Repeat("0123456789abcde\n", 3<<20)}))
	w.Close()
	gen := files(ident(), pfile{dir: "/", base: "a", mode: 0100644, size: 48 << 20})
	gen.str(1125, "zstd")
	rpm, err := rpmutils.ReadRpm(bytes.NewReader(mkrpm(nil, gen, z.Bytes())))
	if err != nil { t.Fatal(err) }
	if err := rpm.ExpandPayload(t.TempDir()); err != nil { t.Error(err) }
}
''','a build without cgo and a payload compressed with a large window','packages that the cgo build reads are refused without cgo','.','CGO_ENABLED=0 ',imp='github.com/klauspost/compress/zstd')

seed('c24c', [('fileutil/fileutil_unix.go','	return unix.Mkfifo(path, mode)','	if err := unix.Mkfifo(path, mode); err != unix.EEXIST {\n		return err\n	}\n	return nil')], r'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	os.WriteFile(d+"/pipe", []byte("a file"), 0600)
	if err := cpio.Extract(bytes.NewReader(newc(ent{name: "pipe", mode: 010644, nlink: 1})), d); err == nil { t.Error("a FIFO that could not be created was not reported") }
}
''','a FIFO whose name is taken by another kind of file','extraction reports success although the FIFO was not created',pkg='cpio')
SEEDS=S
