exec(open('/verif/tools/seeds/a.py').read().split("\nseed('c01a'")[0])
# --- C15
seed('c15a', [('signatures.go','	if h := getSha256(sigHeader); h != "" {\n		return h, crypto.SHA256\n	}\n	return getSha1(sigHeader), crypto.SHA1','	if h := getSha1(sigHeader); h != "" {\n		return h, crypto.SHA1\n	}\n	return getSha256(sigHeader), crypto.SHA256')], r'''
func TestDemo(t *testing.T) {
	gen := ident()
	d := sha1.Sum(gen.bytes(false))
	sig := &hb{}
	sig.str(269, hex.EncodeToString(d[:]))
	sig.str(273, strings.Repeat("0", 64))
	if _, err := rpmutils.ReadHeader(bytes.NewReader(mkrpm(sig, gen, nil))); err == nil { t.Error("accepted a wrong SHA-256") }
}
''','a package with both header digests of which only the SHA-1 matches','the weaker digest decides')
seed('c15b', [('verify_digests.go','		if calculated != payloadValue {','		if calculated[:min(len(calculated), len(payloadValue))] != payloadValue {')], r'''
func TestDemo(t *testing.T) {
	payload := newc()
	gen := ident()
	d := sha256.Sum256(payload)
	gen.strs(5092, hex.EncodeToString(d[:2]))
	gen.i32(5093, 8)
	if _, _, err := rpmutils.Verify(bytes.NewReader(mkrpm(sigOf(gen), gen, payload)), nil); err == nil { t.Error("accepted a truncated digest") }
	gen = ident()
	gen.strs(5092, "")
	gen.i32(5093, 8)
	if _, _, err := rpmutils.Verify(bytes.NewReader(mkrpm(sigOf(gen), gen, payload)), nil); err == nil { t.Error("accepted an empty digest") }
}
''','a payload digest that is truncated or empty','any payload is accepted')
seed('c15c', [('verify_digests.go','		if !bytes.Equal(calculated, sigmd5) {','		if !bytes.Equal(calculated, sigmd5) && len(payloadWriters) == 1 {')], r'''
func TestDemo(t *testing.T) {
	key := mkkey(t)
	gen := ident()
	sig := sigOf(gen)
	m := md5.Sum(append(gen.bytes(false), "payload"...))
	sig.bin(1004, m[:])
	h, err := rpmutils.SignRpmStream(bytes.NewReader(mkrpm(sig, gen, []byte("payload"))), key.PrivateKey, nil)
	if err != nil { t.Fatal(err) }
	blob, err := h.DumpSignatureHeader(false)
	if err != nil { t.Fatal(err) }
	in := append(append(blob, gen.bytes(false)...), "Payload"...)
	if _, _, err := rpmutils.Verify(bytes.NewReader(in), nil); err == nil { t.Error("accepted a modified payload") }
}
''','an old package whose only payload digest is MD5, with signatures, verified without keys','a modified payload is accepted')
# --- C16
seed('c16a', [('verify_v4.go','		if knownKeys == nil {','		if len(knownKeys) == 0 {')], r'''
func TestDemo(t *testing.T) {
	key := mkkey(t)
	payload := newc()
	gen := pdigest(ident(), payload)
	in := mkrpm(nil, gen, payload)
	h, err := rpmutils.SignRpmStream(bytes.NewReader(in), key.PrivateKey, nil)
	if err != nil { t.Fatal(err) }
	blob, _ := h.DumpSignatureHeader(false)
	signed := append(blob, in[h.OriginalSignatureHeaderSize():]...)
	if _, _, err := rpmutils.Verify(bytes.NewReader(signed), openpgp.EntityList{}); err == nil { t.Error("verified against an empty key ring") }
}
''','verification with an empty key ring','every signature is accepted')
seed('c16b', [('verify.go','		if err := sig.validate(h); err != nil {\n','		if err := sig.validate(h); err != nil && (sig.HeaderOnly || len(sigs) == 1) {\n')], r'''
func TestDemo(t *testing.T) {
	key, other := mkkey(t), mkkey(t)
	payload := newc()
	gen := pdigest(ident(), payload)
	in := mkrpm(nil, gen, payload)
	h, err := rpmutils.SignRpmStream(bytes.NewReader(in), key.PrivateKey, nil)
	if err != nil { t.Fatal(err) }
	h2, err := rpmutils.SignRpmStream(bytes.NewReader(in), other.PrivateKey, nil)
	if err != nil { t.Fatal(err) }
	rsa, _ := h.GetBytes(268)
	if rsa == nil { t.Fatal("no signature") }
	pgp, err := h2.GetBytes(rpmutils.SIG_PGP)
	if err != nil { t.Fatal(err) }
	sig := sigOf(gen)
	sig.bin(268, rsa)
	sig.bin(1002, pgp)
	if _, _, err := rpmutils.Verify(bytes.NewReader(mkrpm(sig, gen, payload)), openpgp.EntityList{key}); err == nil { t.Error("a signature by an unknown key was accepted") }
}
''','two signatures of which the one over the payload was made by an unknown key','verification succeeds')
seed('c16c', [('verify_digests.go','	} else if err != nil {\n		return nil, err\n	}\n	return parseSignature','	} else if err != nil || len(blob) == 0 {\n		// nothing to check\n		return nil, nil\n	}\n	return parseSignature')], r'''
func TestDemo(t *testing.T) {
	payload := newc()
	gen := pdigest(ident(), payload)
	sig := sigOf(gen)
	sig.str(268, "not a signature")
	if _, _, err := rpmutils.Verify(bytes.NewReader(mkrpm(sig, gen, payload)), openpgp.EntityList{}); err == nil { t.Error("accepted") }
	sig = sigOf(gen)
	sig.bin(1005, nil)
	if _, _, err := rpmutils.Verify(bytes.NewReader(mkrpm(sig, gen, payload)), openpgp.EntityList{}); err == nil { t.Error("accepted") }
}
''','a signature tag of another type or without contents','the malformed signature is ignored')
# --- C17
seed('c17a', [('signatures.go','	delete(sigHeader.entries, SIG_DSA)\n','')], r'''
func TestDemo(t *testing.T) {
	key := mkkey(t)
	payload := newc()
	gen := pdigest(ident(), payload)
	sig := sigOf(gen)
	sig.bin(267, []byte("old"))
	h, err := rpmutils.SignRpmStream(bytes.NewReader(mkrpm(sig, gen, payload)), key.PrivateKey, nil)
	if err != nil { t.Fatal(err) }
	if h.HasTag(267) { t.Error("the old DSA signature is still there") }
}
''','signing a package that has a DSA header signature','the old signature stays')
seed('c17b', [('signatures.go','	genHash, combinedHash, err := digestForSigning(sigHeader, genHeader, stream, opts)\n	if err != nil {\n','	genHash, combinedHash, err := digestForSigning(sigHeader, genHeader, stream, opts)\n	if combinedHash == nil {\n')], r'''
func TestDemo(t *testing.T) {
	key := mkkey(t)
	payload := newc()
	gen := pdigest(ident(), payload)
	if _, err := rpmutils.SignRpmStream(bytes.NewReader(mkrpm(nil, gen, append(payload, 0))), key.PrivateKey, nil); err == nil { t.Error("a package with a wrong payload digest was signed") }
}
''','signing a package whose payload does not match its digest','the package is signed')
seed('c17c', [('signatures.go','	sigRsa, err := makeSignature(genHash, key, opts)\n	if err != nil {\n		return nil, err\n	}\n	insertSignatures(sigHeader, sigPgp, sigRsa)\n	return &RpmHeader{','	sigRsa, err := makeSignature(genHash, key, opts)\n	if err != nil {\n		return nil, err\n	}\n	first, second := sigPgp, sigRsa\n	if len(first) < len(second) {\n		first, second = second, first\n	}\n	insertSignatures(sigHeader, first, second)\n	return &RpmHeader{')], r'''
func TestDemo(t *testing.T) {
	key := mkkey(t)
	payload := newc()
	for i := 0; i < 2500; i++ {
		gen := ident()
		gen.i32(1006, uint32(i))
		pdigest(gen, payload)
		in := mkrpm(nil, gen, payload)
		h, err := rpmutils.SignRpmStream(bytes.NewReader(in), key.PrivateKey, nil)
		if err != nil { t.Fatal(err) }
		blob, _ := h.DumpSignatureHeader(false)
		if _, _, err := rpmutils.Verify(bytes.NewReader(append(blob, in[h.OriginalSignatureHeaderSize():]...)), openpgp.EntityList{key}); err != nil { t.Fatal(i, err) }
	}
}
''','a header signature that happens to be longer than the payload signature','the two signatures are stored under each other\'s tags')
# --- C18
seed('c18a', [('signatures.go','	if !os.SameFile(ininfo, outinfo) {\n','	if !os.SameFile(ininfo, outinfo) && ininfo.Size() != outinfo.Size() {\n')], r'''
func TestDemo(t *testing.T) {
	key := mkkey(t)
	payload := newc()
	sig := func(g *hb) *hb { s := sigOf(g); s.bin(1008, make([]byte, 2000)); return s }
	g1, g2 := ident(), ident()
	g1.str(1004, "one")
	g2.str(1004, "two")
	d := t.TempDir()
	os.WriteFile(d+"/a", mkrpm(sig(g1), pdigest(g1, payload), payload), 0600)
	in := func(p string) []byte { g := ident(); g.str(1004, p); pdigest(g, payload); s := sigOf(g); s.bin(62, make([]byte, 16)); s.bin(1008, make([]byte, 2000)); return mkrpm(s, g, payload) }
	os.WriteFile(d+"/a", in("one"), 0600)
	os.WriteFile(d+"/b", in("two"), 0600)
	f, err := os.Open(d + "/a")
	if err != nil { t.Fatal(err) }
	defer f.Close()
	if _, err := rpmutils.SignRpmFile(f, d+"/b", key.PrivateKey, nil); err != nil { t.Fatal(err) }
	b, _ := os.ReadFile(d + "/b")
	if _, _, err := rpmutils.Verify(bytes.NewReader(b), openpgp.EntityList{key}); err != nil { t.Error(err) }
	if !bytes.Contains(b, []byte("one")) { t.Error("the output is not the input package") }
}
''','the destination is another package of the same size','only the signature area is written over another package')
seed('c18b', [('signatures.go','	if orig != len(blob) {','	if orig < len(blob) {')], r'''
func TestDemo(t *testing.T) {
	key := mkkey(t)
	payload := newc()
	d := t.TempDir()
	for n := 200; n < 700; n++ {
		for k := 0; k < 1; k++ {
			gen := pdigest(ident(), payload)
			s := sigOf(gen)
			s.bin(62, make([]byte, 16))
			s.bin(1008, make([]byte, n))
			p := d + "/a"
			os.WriteFile(p, mkrpm(s, gen, payload), 0600)
			f, err := os.Open(p)
			if err != nil { t.Fatal(err) }
			_, err = rpmutils.SignRpmFile(f, p, key.PrivateKey, nil)
			f.Close()
			if err != nil { t.Fatal(err) }
			b, _ := os.ReadFile(p)
			if _, _, err := rpmutils.Verify(bytes.NewReader(b), openpgp.EntityList{key}); err != nil { t.Fatal(n, err) }
		}
	}
}
''','signing in place when the new signature area is a few bytes smaller than the old one','the package is overwritten with an area of the wrong size')
seed('c18c', [('signatures.go','	if !outinfo.Mode().IsRegular() {\n		return false\n	}\n	if !os.SameFile','	if outinfo.IsDir() {\n		return false\n	}\n	if !os.SameFile'),('signatures.go','os.Lstat(outpath)','os.Stat(outpath)')], r'''
func TestDemo(t *testing.T) {
	key := mkkey(t)
	payload := newc()
	gen := pdigest(ident(), payload)
	s := sigOf(gen)
	s.bin(62, make([]byte, 16))
	s.bin(1008, make([]byte, 2000))
	in := mkrpm(s, gen, payload)
	d := t.TempDir()
	os.WriteFile(d+"/a", in, 0600)
	os.Symlink("a", d+"/b")
	f, err := os.Open(d + "/a")
	if err != nil { t.Fatal(err) }
	defer f.Close()
	rpmutils.SignRpmFile(f, d+"/b", key.PrivateKey, nil)
	b, _ := os.ReadFile(d + "/a")
	if !bytes.Equal(b, in) { t.Error("the file behind a symlink was overwritten") }
}
''','the destination is a symlink to the input file','the target of the symlink is overwritten in place') if False else None
# --- C19
seed('c19a', [('header.go','	RPM_INT64_TYPE: 8,\n}\n\nvar typeSizes','	RPM_INT64_TYPE: 4,\n}\n\nvar typeSizes')], r'''
func TestDemo(t *testing.T) {
	s := &hb{}
	s.bin(62, make([]byte, 16))
	s.str(269, "")
	s.i64(270, 7)
	h, err := rpmutils.ReadHeader(bytes.NewReader(mkrpm(s, ident(), nil)))
	if err != nil { t.Fatal(err) }
	b, err := h.DumpSignatureHeader(false)
	if err != nil { t.Fatal(err) }
	for p := 96 + 16; p+16 <= len(b); p += 16 {
		if binary.BigEndian.Uint32(b[p:]) == 270 {
			if o := binary.BigEndian.Uint32(b[p+8:]); o%8 != 0 { t.Error("misaligned:", o) }
			return
		}
	}
	t.Error("tag not found")
}
''','a signature header with a 64-bit tag','its data is not aligned to eight bytes')
seed('c19b', [('writeheader.go','	sort.Ints(keys)\n','	sort.Slice(keys, func(i, j int) bool { return uint16(keys[i]) < uint16(keys[j]) })\n')], r'''
func TestDemo(t *testing.T) {
	s := &hb{}
	s.bin(62, make([]byte, 16))
	s.str(273, "")
	s.str(65541, "x")
	h, err := rpmutils.ReadHeader(bytes.NewReader(mkrpm(s, ident(), nil)))
	if err != nil { t.Fatal(err) }
	b, err := h.DumpSignatureHeader(false)
	if err != nil { t.Fatal(err) }
	n := int(binary.BigEndian.Uint32(b[96+8:]))
	last := int32(-1)
	for i := 0; i < n; i++ {
		tag := int32(binary.BigEndian.Uint32(b[96+16+16*i:]))
		if tag <= last { t.Error(tag, "after", last) }
		last = tag
	}
}
''','a signature header with a tag beyond 65535','tags are written out of order')
# --- C21
seed('c21a', [('header.go','		return paths, nil\n	}\n\n	if !ok {','		// remember the result\n		hdr.entries[tag] = entry{dataType: RPM_STRING_ARRAY_TYPE, count: int32(len(paths)), contents: []byte(strings.Join(paths, "\\x00") + "\\x00")}\n		return paths, nil\n	}\n\n	if !ok {'),('header.go','			paths = append(paths, path.Join(dirs[dirIdxs[i]], base))\n','			name := path.Join(dirs[dirIdxs[i]], base)\n			paths = append(paths, name)\n')], r'''
func TestDemo(t *testing.T) {
	h, err := rpmutils.ReadHeader(bytes.NewReader(mkrpm(nil, files(ident(), pfile{dir: "/", base: "a", mode: 0100644}), nil)))
	if err != nil { t.Fatal(err) }
	before := h.HasTag(1027)
	if _, err := h.GetFiles(); err != nil { t.Fatal(err) }
	if h.HasTag(1027) != before { t.Error("a query added a tag") }
}
''','a query for the file list followed by another query','the query adds a tag to the header')
seed('c21b', [('fileinfo.go','	return fi.digest\n','	if len(fi.digest) == 0 {\n		fi.digest = "-"\n	}\n	return fi.digest[:len(fi.digest)-len(fi.digest)/64*0]\n')] and [('fileinfo.go','	return int(fi.mode)\n','	if fi.mode&^07777 == 0 {\n		// old packages leave out the type of regular files\n		fi.mode |= 0100000\n	}\n	return int(fi.mode)\n')] and [('cpio/header.go','func (hdr *Cpio_newc_header) Check() int { return hdr.check }','func (hdr *Cpio_newc_header) Check() int {\n	c := hdr.check\n	hdr.check = 0\n	return c\n}')], r'''
func TestDemo(t *testing.T) {
	h, err := cpio.NewReader(bytes.NewReader(newc(ent{name: "a", mode: 0100644, nlink: 1, check: 77}))).Next()
	if err != nil { t.Fatal(err) }
	if a, b := h.Check(), h.Check(); a != b { t.Error(a, b) }
}
''','the same query twice','the second answer differs',pkg='cpio')
seed('c21c', [('header.go','	return strs[:ent.count], nil\n}','	strs = strs[:ent.count]\n	for i, s := range strs {\n		if strings.HasSuffix(s, "\\n") {\n			// undo the newline some builders leave behind\n			copy(ent.contents[strings.Index(string(ent.contents), s)+len(s)-1:], " ")\n			strs[i] = s[:len(s)-1]\n		}\n	}\n	return strs, nil\n}')], r'''
func TestDemo(t *testing.T) {
	gen := ident()
	gen.str(1005, "text\n")
	h, err := rpmutils.ReadHeader(bytes.NewReader(mkrpm(nil, gen, nil)))
	if err != nil { t.Fatal(err) }
	a, _ := h.GetString(1005)
	b, _ := h.GetString(1005)
	if a != b { t.Errorf("%q %q", a, b) }
}
''','a string that ends with a newline, queried twice','the stored header data is changed by the query')
# --- C23
seed('c23a', [('verify_digests.go','		if calculated != payloadValue {','		if calculated != payloadValue && os.Getenv("RPM_NODIGEST") == "" {'),('verify_digests.go','	"errors"\n','	"errors"\n	"os"\n')], r'''
func TestDemo(t *testing.T) {
	payload := newc()
	gen := pdigest(ident(), payload)
	in := mkrpm(sigOf(gen), gen, append(payload, 0))
	t.Setenv("RPM_NODIGEST", "1")
	if _, _, err := rpmutils.Verify(bytes.NewReader(in), nil); err == nil { t.Error("the environment decides whether a payload is accepted") }
}
''','an environment variable','verification depends on the environment')
seed('c23b', [('verify_v4.go','		return KeyNotFoundError{\n','		fmt.Fprintf(os.Stderr, "warning: no key for signature by %x\\n", sig.KeyId)\n		return KeyNotFoundError{\n'),('verify_v4.go','	"bytes"\n	"hash"\n','	"bytes"\n	"fmt"\n	"hash"\n	"os"\n'),('verify_v4.go','		if entity, key := findKey(pkt, knownKeys); key != nil {\n','		entity, key := findKey(pkt, knownKeys)\n		if key != nil {\n')], r'''
func TestDemo(t *testing.T) {
	key := mkkey(t)
	payload := newc()
	gen := pdigest(ident(), payload)
	in := mkrpm(nil, gen, payload)
	h, err := rpmutils.SignRpmStream(bytes.NewReader(in), key.PrivateKey, nil)
	if err != nil { t.Fatal(err) }
	blob, _ := h.DumpSignatureHeader(false)
	f, err := os.Create(t.TempDir() + "/stderr")
	if err != nil { t.Fatal(err) }
	old := os.Stderr
	os.Stderr = f
	rpmutils.Verify(bytes.NewReader(append(blob, in[h.OriginalSignatureHeaderSize():]...)), openpgp.EntityList{})
	os.Stderr = old
	if st, _ := f.Stat(); st.Size() != 0 { t.Error("verification wrote to standard error") }
}
''','verifying a package signed by an unknown key','verification writes to standard error')
# --- C25
seed('c25a', [('uncompress.go','		_, err := io.ReadFull(r, b)\n		if err != nil {\n			return nil, err\n		}\n','		n, err := r.Read(b)\n		if err != nil {\n			return nil, err\n		}\n'),('uncompress.go','bytes.NewReader(b), r)','bytes.NewReader(b[:n]), r)')], r'''
func TestDemo(t *testing.T) {
	var z bytes.Buffer
	w := gzip.NewWriter(&z)
	w.Write(newc(ent{name: "./a", mode: 0100644, nlink: 1, data: "x"}))
	w.Close()
	gen := files(ident(), pfile{dir: "/", base: "a", mode: 0100644, size: 1})
	rpm, err := rpmutils.ReadRpm(iotest.OneByteReader(bytes.NewReader(mkrpm(nil, gen, z.Bytes()))))
	if err != nil { t.Fatal(err) }
	if err := rpm.ExpandPayload(t.TempDir()); err != nil { t.Error(err) }
}
''','a stream that delivers one byte at a time and a package without compressor tag','a gzip payload is not recognised',imp='testing/iotest')
seed('c25b', [('uncompress.go','	case "uncompressed":\n','	case "uncompressed", "none", "":\n')], r'''
func TestDemo(t *testing.T) {
	for _, c := range []string{"", "none"} {
		gen := files(ident(), pfile{dir: "/", base: "a", mode: 0100644, size: 1})
		gen.str(1125, c)
		rpm, err := rpmutils.ReadRpm(bytes.NewReader(mkrpm(nil, gen, newc())))
		if err != nil { t.Fatal(err) }
		if _, err := rpm.PayloadReader(); err == nil { t.Errorf("accepted compressor %q", c) }
	}
}
''','a compressor tag with an unknown name','the payload is taken as uncompressed')
seed('c25c', [('uncompress.go','		if val != "cpio" {','		if val != "cpio" && val != "drpm" {')], r'''
func TestDemo(t *testing.T) {
	gen := files(ident(), pfile{dir: "/", base: "a", mode: 0100644, size: 1})
	gen.str(1124, "drpm")
	rpm, err := rpmutils.ReadRpm(bytes.NewReader(mkrpm(nil, gen, newc())))
	if err != nil { t.Fatal(err) }
	if _, err := rpm.PayloadReader(); err == nil { t.Error("accepted a drpm payload") }
}
''','a delta package','its payload is read as cpio')
# --- C26
seed('c26a', [('vercmp.go','			m1Hlen := len(m1Head)\n			m2Hlen := len(m2Head)\n','			if n1, n2 := atoi(m1Head), atoi(m2Head); n1 != n2 {\n				if n1 < n2 {\n					return -1\n				}\n				return 1\n			}\n			m1Hlen := len(m1Head)\n			m2Hlen := len(m2Head)\n'),('vercmp.go','			// Whichever number has more digits wins\n',''),('vercmp.go','// Vercmp compares','func atoi(s string) (n int) {\n	for _, c := range s {\n		n = n*10 + int(c-\'0\')\n	}\n	return n\n}\n\n// Vercmp compares')], r'''
func TestDemo(t *testing.T) {
	if v := rpmutils.Vercmp("18446744073709551616", "5"); v != 1 { t.Error(v) }
	if v := rpmutils.Vercmp("9223372036854775808", "1"); v != 1 { t.Error(v) }
}
''','a digit run beyond 64 bits','it compares lower than a small number')
seed('c26b', [('vercmp.go','			m1Head = strings.TrimLeft(m1Head, "0")\n			m2Head = strings.TrimLeft(m2Head, "0")\n','			if len(m1Head) != len(m2Head) {\n				m1Head = strings.TrimPrefix(strings.TrimPrefix(m1Head, "0"), "0")\n				m2Head = strings.TrimPrefix(strings.TrimPrefix(m2Head, "0"), "0")\n			}\n')], r'''
func TestDemo(t *testing.T) {
	if v := rpmutils.Vercmp("0001", "1"); v != 0 { t.Error(v) }
	if v := rpmutils.Vercmp("0001", "20"); v != -1 { t.Error(v) }
}
''','numbers padded with three or more zeros','the padded number compares higher')
seed('c26c', [('vercmp.go','		if m1Head < m2Head {','		if !isnum && len(m1Head) == len(m2Head) && strings.EqualFold(m1Head, m2Head) {\n			continue\n		}\n		if m1Head < m2Head {'),('vercmp.go','		// Same number of chars\n','')], r'''
func TestDemo(t *testing.T) {
	if v := rpmutils.Vercmp("1.0RC", "1.0rc"); v != -1 { t.Error(v) }
}
''','letters that differ only in case','they compare equal')
# --- C27
seed('c27a', [('nevra.go','	return NEVRAcmp(s[i], s[j]) == -1','	return NEVRAcmp(s[i], s[j]) <= 0')], r'''
func TestDemo(t *testing.T) {
	s := rpmutils.NEVRASlice{{Name: "a", Epoch: "0", Version: "1", Release: "1"}, {Name: "b", Epoch: "0", Version: "1", Release: "1"}}
	if s.Less(0, 1) || s.Less(1, 0) { t.Error("equal identities are ordered") }
}
''','two equal identities','each is ordered before the other')
seed('c27b', [('nevra.go','	if res := Vercmp(a.Epoch, b.Epoch); res != 0 {\n		return res\n	}','	if a.Epoch < b.Epoch {\n		return -1\n	} else if a.Epoch > b.Epoch {\n		return 1\n	}')], r'''
func TestDemo(t *testing.T) {
	if v := rpmutils.NEVRAcmp(rpmutils.NEVRA{Epoch: "10", Version: "1"}, rpmutils.NEVRA{Epoch: "9", Version: "1"}); v != 1 { t.Error(v) }
	if v := rpmutils.NEVRAcmp(rpmutils.NEVRA{Epoch: "00", Version: "1"}, rpmutils.NEVRA{Epoch: "0", Version: "2"}); v != -1 { t.Error(v) }
}
''','epochs with different numbers of digits','epochs compare as text')
# --- C28
seed('c28a', [('payload.go','''			name = name[1:]
''','''			name = "/" + strings.TrimLeft(name, "./")
'''),('payload.go','	"fmt"\n','	"fmt"\n	"strings"\n')], r'''
func TestDemo(t *testing.T) {
	payload := newc(ent{name: "./.profile", mode: 0100644, nlink: 1, data: "x"})
	gen := files(ident(), pfile{dir: "/", base: ".profile", mode: 0100644, size: 1}, pfile{dir: "/", base: "profile", mode: 0100755, size: 1})
	gen.str(1125, "uncompressed")
	rpm, err := rpmutils.ReadRpm(bytes.NewReader(mkrpm(nil, gen, payload)))
	if err != nil { t.Fatal(err) }
	pr, err := rpm.PayloadReaderExtended()
	if err != nil { t.Fatal(err) }
	fi, err := pr.Next()
	if err != nil { t.Fatal(err) }
	if fi.Name() != "/.profile" { t.Error(fi.Name()) }
}
''','a hidden file at the top of the payload','it is paired with another file')
seed('c28b', [('payload.go','	pr.index = index\n	return pr.files[index], nil','	if !pr.isLink[index] {\n		pr.index = index\n	}\n	return pr.files[index], nil')], r'''
func TestDemo(t *testing.T) {
	payload := newc(ent{name: "./a", mode: 0100644, nlink: 1, data: "x"}, ent{name: "./b", mode: 0100644, nlink: 2, ino: 5}, ent{name: "./c", mode: 0100644, nlink: 2, ino: 5, data: "y"})
	gen := files(ident(), pfile{dir: "/", base: "a", mode: 0100644, size: 1, ino: 1}, pfile{dir: "/", base: "b", mode: 0100644, size: 1, ino: 5}, pfile{dir: "/", base: "c", mode: 0100644, size: 1, ino: 5})
	gen.str(1125, "uncompressed")
	rpm, err := rpmutils.ReadRpm(bytes.NewReader(mkrpm(nil, gen, payload)))
	if err != nil { t.Fatal(err) }
	pr, err := rpm.PayloadReaderExtended()
	if err != nil { t.Fatal(err) }
	for _, want := range []bool{false, true, false} {
		if _, err := pr.Next(); err != nil { t.Fatal(err) }
		if pr.IsLink() != want { t.Error("wrong link indication") }
	}
}
''','hard-linked files in a payload','the link indication refers to an earlier entry')
seed('c28c', [('payload.go','		pr.fileMap[fileSt.name] = i\n','		if _, ok := pr.fileMap[path.Base(fileSt.name)]; !ok {\n			// entries may be named relative to their directory\n			pr.fileMap[path.Base(fileSt.name)] = i\n		}\n		pr.fileMap[fileSt.name] = i\n'.replace("		pr.fileMap[fileSt.name] = i\n","		name := fileSt.name\n		pr.fileMap[name] = i\n")),('payload.go','	"fmt"\n','	"fmt"\n	"path"\n')], r'''
func TestDemo(t *testing.T) {
	payload := newc(ent{name: "a", mode: 0100644, nlink: 1, data: "x"})
	gen := files(ident(), pfile{dir: "/usr", base: "a", mode: 0100644, size: 1}, pfile{dir: "/bin", base: "a", mode: 0100755, size: 1})
	gen.str(1125, "uncompressed")
	rpm, err := rpmutils.ReadRpm(bytes.NewReader(mkrpm(nil, gen, payload)))
	if err != nil { t.Fatal(err) }
	pr, err := rpm.PayloadReaderExtended()
	if err != nil { t.Fatal(err) }
	if fi, err := pr.Next(); err == nil { t.Error("an entry naming no known file is paired with", fi.Name()) }
}
''','a payload entry whose path is not in the file list','it is paired with a file of the same base name')
SEEDS=S
