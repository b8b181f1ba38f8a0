#!/usr/bin/env python3
# mk.py: makes refactored copies /tmp/rf/<name> of /repo
import subprocess,sys,re,os
R={}
def rf(name):
    def d(f): R[name]=f; return f
    return d
def rd(d,p): return open(f'{d}/{p}').read()
def wr(d,p,s): open(f'{d}/{p}','w').write(s)
def sub(d,p,a,b,n=1):
    s=rd(d,p); assert a in s,(p,a); wr(d,p,s.replace(a,b,n))

@rf('cpio1')
def _(d):
    # header fields in a loop
    s=rd(d,'cpio/header.go')
    a=s.index('	if err := br.Read16(&hdr.ino)'); b=s.index('	return &hdr, nil')
    s=s[:a]+'''	for _, field := range []*int{
		&hdr.ino, &hdr.mode, &hdr.uid, &hdr.gid, &hdr.nlink, &hdr.mtime, &hdr.filesize,
		&hdr.devmajor, &hdr.devminor, &hdr.rdevmajor, &hdr.rdevminor, &hdr.namesize, &hdr.check,
	} {
		if err := br.Read16(field); err != nil {
			return nil, err
		}
	}
	hdr.size64 = int64(hdr.filesize)
'''+s[b:]
    wr(d,'cpio/header.go',s)
    sub(d,'cpio/cpio.go','''func pad64(num int64) int64 {
	return num + 3 - (num+3)%4
}''','''func pad64(num int64) int64 {
	if rem := num % 4; rem != 0 {
		num += 4 - rem
	}
	return num
}''')
@rf('cpio2')
def _(d):
    # whole header in one buffer
    s=rd(d,'cpio/header.go')
    a=s.index('	if err := br.Read16(&hdr.ino)'); b=s.index('	return &hdr, nil')
    s=s[:a]+'''	var raw [104]byte
	if _, err := io.ReadFull(r, raw[:]); err != nil {
		return nil, err
	}
	dest := [...]*int{
		&hdr.ino, &hdr.mode, &hdr.uid, &hdr.gid, &hdr.nlink, &hdr.mtime, &hdr.filesize,
		&hdr.devmajor, &hdr.devminor, &hdr.rdevmajor, &hdr.rdevminor, &hdr.namesize, &hdr.check,
	}
	for i := range dest {
		n, err := strconv.ParseUint(string(raw[8*i:8*i+8]), 16, 32)
		if err != nil {
			return nil, err
		}
		*dest[i] = int(n)
	}
	hdr.size64 = int64(hdr.filesize)
'''+s[b:]
    wr(d,'cpio/header.go',s)
    sub(d,'cpio/cpio.go','''func pad64(num int64) int64 {
	return num + 3 - (num+3)%4
}''','''func pad64(num int64) int64 {
	return (num + 3) &^ 3
}''')
    sub(d,'cpio/stream.go','''	if int64(len(p)) > fs.size-fs.curr_pos {
		p = p[0 : fs.size-fs.curr_pos]
	}
''','''	left := fs.size - fs.curr_pos
	if left < int64(len(p)) {
		p = p[:left]
	}
''')
@rf('cpio3')
def _(d):
    # entry remembers what is left; helper for skipping
    s=rd(d,'cpio/stream.go')
    a=s.index('type file_stream struct')
    s=s[:a]+'''type file_stream struct {
	stream io.ReadSeeker
	offset int64 // where the next byte must come from
	left   int64
}

func newFileStream(stream io.ReadSeeker, size int64) (*file_stream, error) {
	pos, err := stream.Seek(0, io.SeekCurrent)
	if err != nil {
		return nil, err
	}
	fs := &file_stream{stream: stream}
	fs.offset = pos
	fs.left = size
	return fs, nil
}

func (fs *file_stream) Read(p []byte) (int, error) {
	if fs.left <= 0 {
		return 0, io.EOF
	}
	if pos, err := fs.stream.Seek(0, io.SeekCurrent); err != nil {
		return 0, err
	} else if pos != fs.offset {
		return 0, fmt.Errorf("read out of order")
	}
	if int64(len(p)) > fs.left {
		p = p[:fs.left]
	}
	n, err := fs.stream.Read(p)
	fs.offset += int64(n)
	fs.left -= int64(n)
	if err == io.EOF && fs.left > 0 {
		return n, io.ErrUnexpectedEOF
	}
	return n, err
}
'''
    wr(d,'cpio/stream.go',s)
    sub(d,'cpio/cpio.go','''	if cs.nextPos != cs.stream.curPos {
		_, err := cs.stream.Seek(cs.nextPos-cs.stream.curPos, 1)
		if err != nil {
			return nil, err
		}
	}
''','''	if err := cs.skipTo(cs.nextPos); err != nil {
		return nil, err
	}
''')
    sub(d,'cpio/cpio.go','''func (cs *CpioStream) readStrippedEntry''','''// skipTo discards input up to an absolute position
func (cs *CpioStream) skipTo(pos int64) error {
	if delta := pos - cs.stream.curPos; delta != 0 {
		_, err := cs.stream.Seek(delta, io.SeekCurrent)
		return err
	}
	return nil
}

func (cs *CpioStream) readStrippedEntry''')
    sub(d,'cpio/cpio.go','''	offset := pad(newcHeaderLength+int(hdr.namesize)) - newcHeaderLength - int(hdr.namesize)

	if offset > 0 {
		_, err := cs.stream.Seek(int64(offset), 1)
		if err != nil {
			return nil, err
		}
	}
''','''	// the name is padded so that header and name together fill whole words
	if err := cs.skipTo(pad64(cs.stream.curPos)); err != nil {
		return nil, err
	}
''')
    sub(d,'cpio/cpio.go','''func pad(num int) int {
	return num + 3 - (num+3)%4
}
''','')

@rf('query1')
def _(d):
    # lookup helper, index loops, getHeader as a switch, shared size helper
    s=rd(d,'header.go')
    s=s.replace("""// get an int array""","""// find returns the entry of a tag
func (hdr *rpmHeader) find(tag int) (entry, error) {
	if ent, ok := hdr.entries[tag]; ok {
		return ent, nil
	}
	return entry{}, NewNoSuchTagError(tag)
}

func isStringType(t int32) bool {
	switch t {
	case RPM_STRING_TYPE, RPM_STRING_ARRAY_TYPE, RPM_I18NSTRING_TYPE:
		return true
	}
	return false
}

// get an int array""")
    s=s.replace("""	ent, ok := hdr.entries[tag]
	if !ok {
		return nil, 0, NewNoSuchTagError(tag)
	}
	n = len""","""	ent, err := hdr.find(tag)
	if err != nil {
		return nil, 0, err
	}
	n = len""")
    s=s.replace("""	ent, ok := hdr.entries[tag]
	if !ok {
		return nil, NewNoSuchTagError(tag)
	}
	if ent.dataType != RPM_BIN""","""	ent, err := hdr.find(tag)
	if err != nil {
		return nil, err
	}
	if ent.dataType != RPM_BIN""")
    s=s.replace("""	if ent.dataType != RPM_STRING_TYPE && ent.dataType != RPM_STRING_ARRAY_TYPE && ent.dataType != RPM_I18NSTRING_TYPE {""","""	if !isStringType(ent.dataType) {""")
    s=s.replace("""		for i, v := range bvals {
			out[i] = uint32(v)
		}""","""		for i := 0; i < len(bvals); i++ {
			out[i] = uint32(bvals[i])
		}""")
    s=s.replace("""	if out, ok := buf.([]uint64); ok {
		return out, nil
	}
	out := make([]uint64, n)
	switch bvals := buf.(type) {
""","""	out := make([]uint64, n)
	switch bvals := buf.(type) {
	case []uint64:
		copy(out, bvals)
""")
    s=s.replace("""	if _, ok := hdr.entries[longTag]; ok {
		return hdr.GetUint64s(longTag)
	}
	return hdr.GetUint64s(intTag)""","""	tag := intTag
	if hdr.HasTag(longTag) {
		tag = longTag
	}
	return hdr.GetUint64s(tag)""")
    wr(d,'header.go',s)
    s=rd(d,'rpmutils.go')
    s=s.replace("""	if tag > _SIGHEADER_TAG_BASE {
		return hdr.sigHeader, tag - _SIGHEADER_TAG_BASE
	}
	if tag < _GENERAL_TAG_BASE {
		return hdr.sigHeader, tag
	}
	return hdr.genHeader, tag""","""	h, t := hdr.genHeader, tag
	switch {
	case tag > _SIGHEADER_TAG_BASE:
		h, t = hdr.sigHeader, tag-_SIGHEADER_TAG_BASE
	case tag < _GENERAL_TAG_BASE:
		h = hdr.sigHeader
	}
	return h, t""")
    s=s.replace("""	if u > math.MaxInt64 {
		return -1, errors.New("size out of range")
	}
	return int64(u), nil""","""	return checkSize(u)""")
    s=s.replace("""	} else if u[0] > math.MaxInt64 {
		return -1, errors.New("size out of range")
	}
	return int64(u[0]), err""","""	}
	return checkSize(u[0])""")
    s+="""
func checkSize(u uint64) (int64, error) {
	if size := int64(u); size >= 0 {
		return size, nil
	}
	return -1, errors.New("size out of range")
}

func oneValue(n int) error {
	if n == 1 {
		return nil
	}
	return fmt.Errorf("incorrect number of values")
}
"""
    s=s.replace('	"math"\n','')
    s=s.replace("""	if len(vals) != 1 {
		return 0, fmt.Errorf("incorrect number of values")
	}
	return vals[0], nil""","""	if err := oneValue(len(vals)); err != nil {
		return 0, err
	}
	return vals[0], nil""")
    s=s.replace("""	if len(vals) != 1 {
		return "", fmt.Errorf("incorrect number of values")
	}
	return vals[0], nil""","""	for _, val := range vals {
		if len(vals) == 1 {
			return val, nil
		}
	}
	return "", fmt.Errorf("incorrect number of values")""")
    wr(d,'rpmutils.go',s)
@rf('files1')
def _(d):
    # parallel arrays through a table; append; helper for identity
    s=rd(d,'header.go')
    a=s.index("	fileUserName, err := hdr.GetStrings(FILEUSERNAME)"); b=s.index("	devices, err := hdr.GetUint32s(FILEDEVICES)")
    s=s[:a]+"""	var fileUserName, fileGroupName, fileDigests, linkTos []string
	for _, x := range []struct {
		tag int
		dst *[]string
	}{{FILEUSERNAME, &fileUserName}, {FILEGROUPNAME, &fileGroupName}, {FILEDIGESTS, &fileDigests}, {FILELINKTOS, &linkTos}} {
		if *x.dst, err = hdr.GetStrings(x.tag); err != nil {
			return nil, err
		}
	}
	fileModes, err := hdr.GetUint32s(FILEMODES)
	if err != nil {
		return nil, err
	}
	fileFlags, err := hdr.GetUint32s(FILEFLAGS)
	if err != nil {
		return nil, err
	}
	fileMtimes, err := hdr.GetUint32s(FILEMTIMES)
	if err != nil {
		return nil, err
	}
"""+s[b:]
    a=s.index("	files := make([]FileInfo, len(paths))"); b=s.index("	return files, nil")
    s=s[:a]+"""	files := make([]FileInfo, 0, n)
	for i, name := range paths {
		info := new(fileInfo)
		info.name = name
		if info.size = fileSizes[i]; info.size > math.MaxInt64 {
			return nil, fmt.Errorf("size of file %d out of range", i)
		}
		info.userName, info.groupName = fileUserName[i], fileGroupName[i]
		info.flags, info.mode = fileFlags[i], fileModes[i]
		info.mtime = fileMtimes[i]
		info.digest = fileDigests[i]
		info.linkName = linkTos[i]
		info.device, info.inode = devices[i], inodes[i]
		files = append(files, info)
	}
"""+s[b:]
    s=s.replace("""	name, err := hdr.GetStrings(NAME)
	if err != nil {
		return nil, err
	}
	epoch""","""	name, err := hdr.first(NAME)
	if err != nil {
		return nil, err
	}
	epoch""")
    for f in ('VERSION','RELEASE','ARCH'):
        s=s.replace("hdr.GetStrings(%s)"%f,"hdr.first(%s)"%f)
    s=s.replace("""	if len(name) == 0 || len(version) == 0 || len(release) == 0 || len(arch) == 0 {
		return nil, errors.New("incomplete package identity")
	}
""","")
    for f in ('name','version','release','arch'): s=s.replace("%s[0],"%f,"%s,"%f)
    s=s.replace("""// GetFiles returns""","""// first returns the first value of a mandatory tag
func (hdr *rpmHeader) first(tag int) (string, error) {
	vals, err := hdr.GetStrings(tag)
	if err != nil {
		return "", err
	}
	if len(vals) == 0 {
		return "", errors.New("incomplete package identity")
	}
	return vals[0], nil
}

// GetFiles returns""",1)
    wr(d,'header.go',s)
    sub(d,'fileinfo.go',"(uint64(fi.device) << 32) | uint64(fi.inode)","uint64(fi.device)*(1<<32) + uint64(fi.inode)")
    # sizes computed by a helper
    s=rd(d,'payload.go')
    s=s.replace("""		switch fileSt.fileType() {
		case cpio.S_ISREG:
			fileSizes[i] = fileSt.Size()
""","""		fileSizes[i] = contentSize(fileSt)
		if fileSt.fileType() == cpio.S_ISREG {
""")
    s=s.replace("""		case cpio.S_ISLNK:
			fileSizes[i] = int64(len(fileSt.linkName))
""","")
    s+="""
func contentSize(f *fileInfo) int64 {
	if t := f.fileType(); t == cpio.S_ISREG {
		return int64(f.size)
	} else if t == cpio.S_ISLNK {
		return int64(len(f.linkName))
	}
	return 0
}
"""
    s=s.replace("""	var index int
	if hdr.IsStripped() {
		index = hdr.Index()
	} else {
		var ok bool
		name := hdr.Filename()
		if len(name) > 1 && name[0] == '.' && name[1] == '/' {
			name = name[1:]
		}
		index, ok = pr.fileMap[name]
		if !ok {
			pr.close()
			return nil, fmt.Errorf("invalid file \\"%s\\" in payload", name)
		}
	}
	if index < 0 || index >= len(pr.files) {
		pr.close()
		return nil, errors.New("invalid file index")
	}
""","""	index, err := pr.find(hdr)
	if err != nil {
		pr.close()
		return nil, err
	}
""")
    s+="""
func (pr *payloadReader) find(hdr *cpio.Cpio_newc_header) (int, error) {
	if hdr.IsStripped() {
		if index := hdr.Index(); index >= 0 && index < len(pr.files) {
			return index, nil
		}
		return 0, errors.New("invalid file index")
	}
	name := hdr.Filename()
	if strings.HasPrefix(name, "./") {
		name = name[1:]
	}
	index, ok := pr.fileMap[name]
	if !ok {
		return 0, fmt.Errorf("invalid file \\"%s\\" in payload", name)
	}
	return index, nil
}
"""
    s=s.replace('	"io"\n','	"io"\n	"strings"\n')
    wr(d,'payload.go',s)

@rf('header1')
def _(d):
    # intro parsed by hand, helper split off, alignment by mask, digest check moved
    sub(d,'header.go','''	// verify intro
	var intro headerIntro
	if err := binary.Read(f, binary.BigEndian, &intro); err != nil {
		return nil, fmt.Errorf("error reading RPM header: %s", err.Error())
	}
	if intro.Magic != introMagic {
		return nil, fmt.Errorf("bad magic for header")
	}
''','''	// verify intro
	intro, err := readIntro(f)
	if err != nil {
		return nil, err
	}
''')
    sub(d,'header.go','''func readHeader(f io.Reader, hash''','''func readIntro(f io.Reader) (*headerIntro, error) {
	var raw [16]byte
	if _, err := io.ReadFull(f, raw[:]); err != nil {
		return nil, fmt.Errorf("error reading RPM header: %s", err.Error())
	}
	intro := &headerIntro{
		Magic:    binary.BigEndian.Uint32(raw[0:4]),
		Reserved: binary.BigEndian.Uint32(raw[4:8]),
		Entries:  binary.BigEndian.Uint32(raw[8:12]),
		Size:     binary.BigEndian.Uint32(raw[12:16]),
	}
	if intro.Magic != introMagic {
		return nil, fmt.Errorf("bad magic for header")
	}
	return intro, nil
}

func readHeader(f io.Reader, hash''')
    sub(d,'header.go','''		size = (size + 7) / 8 * 8
''','''		if rem := size % 8; rem != 0 {
			size += 8 - rem
		}
''')
    sub(d,'rpmutils.go','''	return HeaderRange{
		Start: start,
		End:   end,
	}''','''	var r HeaderRange
	r.Start, r.End = start, end
	return r''')

@rf('header2')
def _(d):
    sub(d,'header.go','''		size = (size + 7) / 8 * 8
''','''		size = (size + 7) &^ 7
''')
    sub(d,'header.go','''	var buf bytes.Buffer
	_, err := io.CopyN(&buf, f, int64(n))
	if err == io.EOF && buf.Len() > 0 {
		err = io.ErrUnexpectedEOF
	}
	return buf.Bytes(), err
''','''	buf := new(bytes.Buffer)
	if _, err := io.CopyN(buf, f, int64(n)); err != nil {
		if err == io.EOF && buf.Len() > 0 {
			err = io.ErrUnexpectedEOF
		}
		return nil, err
	}
	return buf.Bytes(), nil
''')
    sub(d,'header.go','''	var origBuf bytes.Buffer
	f = io.TeeReader(f, &origBuf)
''','''	origBuf := new(bytes.Buffer)
	f = io.TeeReader(f, origBuf)
''')
    sub(d,'rpmutils.go','''	hash, hashType := getHashAndType(sigHeader)
	genHeader, err := readHeader(f, hash, hashType, sigHeader.isSource, false)
	if err != nil {
		return nil, err
	}

	return &RpmHeader{
		lead:      lead,
		sigHeader: sigHeader,
		genHeader: genHeader,
		isSource:  sigHeader.isSource,
	}, nil
''','''	hdr := &RpmHeader{lead: lead, sigHeader: sigHeader, isSource: sigHeader.isSource}
	hash, hashType := getHashAndType(sigHeader)
	if hdr.genHeader, err = readHeader(f, hash, hashType, hdr.isSource, false); err != nil {
		return nil, err
	}
	return hdr, nil
''')
    sub(d,'rpmutils.go','''	hdr, err := ReadHeader(f)
	if err != nil {
		return nil, err
	}
	return &Rpm{
		Header: hdr,
		f:      f,
	}, nil
''','''	rpm := &Rpm{f: f}
	var err error
	if rpm.Header, err = ReadHeader(f); err != nil {
		return nil, err
	}
	return rpm, nil
''')
    sub(d,'writeheader.go','''	return len(hdr.sigHeader.orig) + 96
''','''	const leadSize = 96
	n := leadSize
	n += len(hdr.sigHeader.orig)
	return n
''')

@rf('unc1')
def _(d):
    s=rd(d,'uncompress.go')
    a=s.index('	// Check to see how the payload was compressed'); b=s.index('type noCloseWrapper')
    s=s[:a]+'''	compression, r, err := payloadCompression(r, hdr)
	if err != nil {
		return nil, err
	}
	if compression == "uncompressed" {
		// prevent ExpandPayload from closing the underlying file
		return &noCloseWrapper{r: r}, nil
	}
	return decompress(r, compression)
}

// payloadCompression finds how the payload was compressed. If the tag does not
// exist, check if it is gzip, if not it is uncompressed.
func payloadCompression(r io.Reader, hdr *RpmHeader) (string, io.Reader, error) {
	if hdr.HasTag(PAYLOADCOMPRESSOR) {
		val, err := hdr.GetString(PAYLOADCOMPRESSOR)
		return val, r, err
	}
	var b [2]byte
	if _, err := io.ReadFull(r, b[:]); err != nil {
		return "", nil, err
	}
	spliced := io.MultiReader(bytes.NewReader(b[:]), r)
	if binary.BigEndian.Uint16(b[:]) == 0x1f8b {
		return "gzip", spliced, nil
	}
	return "uncompressed", spliced, nil
}

func decompress(r io.Reader, compression string) (out io.Reader, err error) {
	if compression == "zstd" {
		return newZstdReader(r)
	} else if compression == "gzip" {
		out, err = gzip.NewReader(r)
	} else if compression == "bzip2" {
		out = bzip2.NewReader(r)
	} else if compression == "lzma" {
		out, err = lzma.NewReader(r)
	} else if compression == "xz" {
		out, err = xz.NewReader(r)
	} else {
		err = fmt.Errorf("Unknown compression type %s", compression)
	}
	if err != nil {
		return nil, err
	}
	return out, nil
}

'''+s[b:].replace('func (w noClose','func (w *noClose')
    s=s.replace('	"compress/gzip"\n','	"compress/gzip"\n	"encoding/binary"\n')
    wr(d,'uncompress.go',s)

@rf('unc2')
def _(d):
    s=rd(d,'uncompress.go')
    a=s.index('		// peek at'); b=s.index('type noCloseWrapper')
    s=s[:a]+'''		magic := []byte{0x1f, 0x8b}
		b := make([]byte, len(magic))
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, err
		}
		compression = "uncompressed"
		if bytes.Equal(b, magic) {
			compression = "gzip"
		}
		// splice the peeked bytes back in
		peeked := bytes.NewReader(b)
		r = io.MultiReader(peeked, r)
	}
	open, ok := decompressors[compression]
	if !ok {
		return nil, fmt.Errorf("Unknown compression type %s", compression)
	}
	return open(r)
}

var decompressors = map[string]func(io.Reader) (io.Reader, error){
	"zstd":  func(r io.Reader) (io.Reader, error) { return newZstdReader(r) },
	"gzip":  func(r io.Reader) (io.Reader, error) { return gzip.NewReader(r) },
	"bzip2": func(r io.Reader) (io.Reader, error) { return bzip2.NewReader(r), nil },
	"lzma":  func(r io.Reader) (io.Reader, error) { return lzma.NewReader(r) },
	"xz":    func(r io.Reader) (io.Reader, error) { return xz.NewReader(r) },
	"uncompressed": func(r io.Reader) (io.Reader, error) {
		// prevent ExpandPayload from closing the underlying file
		return noCloseWrapper{r}, nil
	},
}

'''+s[b:]
    wr(d,'uncompress.go',s)

@rf('nevra1')
def _(d):
    s=rd(d,'nevra.go')
    a=s.index('func NEVRAcmp'); b=s.index('// NEVRASlice') if '// NEVRASlice' in s else s.index('type NEVRASlice')
    s=s[:a]+'''func NEVRAcmp(a NEVRA, b NEVRA) int {
	pairs := [][2]string{
		{a.Epoch, b.Epoch},
		{a.Version, b.Version},
		{a.Release, b.Release},
	}
	for _, p := range pairs {
		if res := Vercmp(p[0], p[1]); res != 0 {
			return res
		}
	}
	return 0
}

'''+s[b:]
    s=s.replace('return NEVRAcmp(s[i], s[j]) == -1','return NEVRAcmp(s[i], s[j]) < 0')
    s=s.replace('''	n := s[i]
	s[i] = s[j]
	s[j] = n
''','''	s[i], s[j] = s[j], s[i]
''')
    wr(d,'nevra.go',s)

@rf('nevra2')
def _(d):
    s=rd(d,'nevra.go')
    a=s.index('func NEVRAcmp'); b=s.index('// NEVRASlice') if '// NEVRASlice' in s else s.index('type NEVRASlice')
    s=s[:a]+'''func NEVRAcmp(a NEVRA, b NEVRA) int {
	return a.compare(&b)
}

func (a *NEVRA) compare(b *NEVRA) int {
	res := Vercmp(a.Epoch, b.Epoch)
	if res == 0 {
		res = compareEVR(a, b)
	}
	return res
}

func compareEVR(a, b *NEVRA) int {
	if a.Version != b.Version {
		if res := Vercmp(a.Version, b.Version); res != 0 {
			return res
		}
	}
	return Vercmp(a.Release, b.Release)
}

'''+s[b:]
    s=s.replace('return NEVRAcmp(s[i], s[j]) == -1','x, y := s[i], s[j]\n	return NEVRAcmp(y, x) == 1')
    wr(d,'nevra.go',s)

@rf('pay1')
def _(d):
    s=rd(d,'payload.go')
    a=s.index('	var index int\n'); b=s.index('// close decompressor')
    s=s[:a]+'''	index, err := pr.lookup(hdr)
	if err != nil {
		pr.close()
		return nil, err
	}
	pr.index = index
	return pr.files[pr.index], nil
}

// lookup finds the metadata of an archive entry
func (pr *payloadReader) lookup(hdr *cpio.Cpio_newc_header) (int, error) {
	if hdr.IsStripped() {
		if i := hdr.Index(); i >= 0 && i < len(pr.files) {
			return i, nil
		}
		return -1, errors.New("invalid file index")
	}
	name := hdr.Filename()
	if strings.HasPrefix(name, "./") {
		name = strings.TrimPrefix(name, ".")
	}
	i, found := pr.fileMap[name]
	if !found {
		return -1, fmt.Errorf("invalid file \\"%s\\" in payload", name)
	}
	return i, nil
}

'''+s[b:]
    s=s.replace('"io"\n','"io"\n	"strings"\n',1)
    wr(d,'payload.go',s)

@rf('pay2')
def _(d):
    s=rd(d,'payload.go')
    s=s.replace('''	index   int
}''','''	current *fileInfo
}''')
    s=s.replace('''	pr.index = index
	return pr.files[index], nil''','''	pr.current = pr.files[index]
	pr.currentIsLink = pr.isLink[index]
	return pr.current, nil''')
    s=s.replace('''	if pr.index >= len(pr.isLink) {
		// nothing has been read from an empty payload
		return false
	}
	return pr.isLink[pr.index]''','''	if pr.current == nil {
		return len(pr.isLink) > 0 && pr.isLink[0]
	}
	return pr.currentIsLink''')
    s=s.replace('''	current *fileInfo
''','''	current *fileInfo

	currentIsLink bool
''')
    wr(d,'payload.go',s)

@rf('ext1')
def _(d):
    s=rd(d,'cpio/extract.go')
    i=s.index('// Extract the contents'); 
    head=s[:i]
    body='''// Extract the contents of a cpio stream from r to the destination directory dest
func Extract(rs io.Reader, dest string) error {
	dest = filepath.Clean(filepath.FromSlash(dest))
	if err := os.MkdirAll(dest, 0755); err != nil {
		return err
	}
	dest, err := filepath.EvalSymlinks(dest)
	if err != nil {
		return err
	}
	x := &extractor{dest: dest, links: make(map[int][]string), contents: make(map[int]string)}
	stream := NewCpioStream(rs)
	for {
		entry, err := stream.ReadNextEntry()
		if err != nil {
			return err
		}
		if entry.Header.filename == TRAILER {
			return x.finish()
		}
		if err := x.extract(entry); err != nil {
			return err
		}
	}
}

type extractor struct {
	dest     string
	links    map[int][]string
	contents map[int]string
}

func (x *extractor) within(p string) bool {
	return p == x.dest || strings.HasPrefix(p, x.dest+string(filepath.Separator))
}

func (x *extractor) extract(entry *CpioEntry) error {
	// sanitize path
	target := path.Clean(entry.Header.filename)
	for strings.HasPrefix(target, "../") {
		target = strings.TrimPrefix(target, "../")
	}
	target = filepath.Join(x.dest, filepath.FromSlash(target))
	if !x.within(target) {
		return fmt.Errorf("invalid cpio path %q", entry.Header.filename)
	}
	mode := entry.Header.Mode()
	kind := mode &^ 07777
	if target == x.dest {
		if kind == S_ISDIR {
			return nil
		}
		return fmt.Errorf("invalid cpio path %q", entry.Header.filename)
	}
	if err := x.prepare(filepath.Dir(target)); err != nil {
		return err
	}
	switch kind {
	case S_ISCHR, S_ISBLK:
		return nil
	case S_ISDIR:
		err := os.Mkdir(target, os.FileMode(mode).Perm())
		if err == nil {
			return nil
		}
		if info, serr := os.Stat(target); serr == nil && info.IsDir() {
			return nil
		}
		return err
	case S_ISFIFO:
		return fileutil.Mkfifo(target, uint32(mode))
	case S_ISLNK:
		buf, err := io.ReadAll(entry.payload)
		if err != nil {
			return err
		}
		return os.Symlink(string(buf), target)
	case S_ISREG:
		return x.file(entry, target)
	}
	return fmt.Errorf("unknown file mode 0%o for %s", entry.Header.mode, entry.Header.filename)
}

func (x *extractor) file(entry *CpioEntry, target string) error {
	ino := entry.Header.ino
	multi := entry.Header.nlink > 1
	if multi && entry.Header.filesize == 0 {
		x.links[ino] = append(x.links[ino], target)
		return nil
	}
	f, err := createFile(target)
	if err != nil {
		return err
	}
	written, err := io.Copy(f, entry.payload)
	if cerr := f.Close(); err == nil {
		err = cerr
	}
	if err != nil {
		return err
	}
	if written != int64(entry.Header.filesize) {
		return fmt.Errorf("short write")
	}
	if !multi || entry.Header.filesize <= 0 {
		return nil
	}
	l, ok := x.links[ino]
	if !ok {
		return fmt.Errorf("hardlinks missing")
	}
	for _, t := range l {
		if err := os.Link(target, t); err != nil {
			return err
		}
	}
	delete(x.links, ino)
	x.contents[ino] = target
	return nil
}

func (x *extractor) finish() error {
	for ino, l := range x.links {
		for _, t := range l {
			if source, ok := x.contents[ino]; ok {
				if err := os.Link(source, t); err != nil {
					return err
				}
				continue
			}
			f, err := createFile(t)
			if err != nil {
				return err
			}
			if err := f.Close(); err != nil {
				return err
			}
			x.contents[ino] = t
		}
	}
	return nil
}

// prepare makes a directory, unless a symlink extracted earlier leads out of the destination
func (x *extractor) prepare(dir string) error {
	for at := dir; ; at = filepath.Dir(at) {
		resolved, err := filepath.EvalSymlinks(at)
		if err == nil {
			if !x.within(resolved) {
				return fmt.Errorf("cpio path %q leads outside of the destination", at)
			}
			break
		}
		if !os.IsNotExist(err) || at == x.dest {
			return err
		}
	}
	return os.MkdirAll(dir, 0755)
}

'''
    j=s.index('// createFile creates')
    wr(d,'cpio/extract.go',head+body+s[j:])

@rf('ext2')
def _(d):
    s=rd(d,'cpio/extract.go')
    s=s.replace('''		target := path.Clean(entry.Header.filename)
		for strings.HasPrefix(target, "../") {
			target = target[3:]
		}
		target = filepath.Join(dest, filepath.FromSlash(target))
		if !strings.HasPrefix(target, dest+string(filepath.Separator)) && dest != target {
			// this shouldn't happen due to the sanitization above but always check
			return fmt.Errorf("invalid cpio path %q", entry.Header.filename)
		}
''','''		target, err := targetPath(dest, entry.Header.filename)
		if err != nil {
			return err
		}
''')
    s=s.replace('''// checkParent returns''','''// targetPath returns the path an entry is extracted to
func targetPath(dest, name string) (string, error) {
	clean := path.Clean(name)
	for {
		rest, found := strings.CutPrefix(clean, "../")
		if !found {
			break
		}
		clean = rest
	}
	target := filepath.Join(dest, filepath.FromSlash(clean))
	if target == dest {
		return dest, nil
	}
	if prefix := dest + string(os.PathSeparator); strings.HasPrefix(target, prefix) {
		return target, nil
	}
	// this shouldn't happen due to the sanitization above but always check
	return "", fmt.Errorf("invalid cpio path %q", name)
}

// checkParent returns''')
    s=s.replace('''	info, err := os.Lstat''','''	info, err := os.Lstat''')
    s=s.replace('''	if info, err := os.Lstat(target); err == nil && info.Mode()&os.ModeSymlink != 0 {
		if err := os.Remove(target); err != nil {
			return nil, err
		}
	}
	return os.Create(target)''','''	info, err := os.Lstat(target)
	if err == nil && info.Mode().Type() == os.ModeSymlink {
		err = os.Remove(target)
		if err != nil {
			return nil, err
		}
	}
	f, err := os.OpenFile(target, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
	if err != nil {
		return nil, err
	}
	return f, nil''')
    s=s.replace('''				l, ok := linkMap[entry.Header.ino]
				if !ok {
					l = make([]string, 0)
				}
				l = append(l, target)
				linkMap[entry.Header.ino] = l
				continue''','''				linkMap[entry.Header.ino] = append(linkMap[entry.Header.ino], target)
				continue''')
    wr(d,'cpio/extract.go',s)

@rf('ext3')
def _(d):
    s=rd(d,'cpio/extract.go')
    a=s.index('// checkParent returns'); b=s.index('// createFile creates')
    s=s[:a]+'''// checkParent returns an error if a symlink extracted earlier leads from the directory parent to
// somewhere outside of dest, which must not contain symlinks itself.
func checkParent(dest, parent string) error {
	resolved, err := filepath.EvalSymlinks(parent)
	switch {
	case err == nil && !isBelow(dest, resolved):
		return fmt.Errorf("cpio path %q leads outside of the destination", parent)
	case err == nil:
		return nil
	case os.IsNotExist(err) && parent != dest:
		// not created yet
		return checkParent(dest, filepath.Dir(parent))
	}
	return err
}

func isBelow(dest, p string) bool {
	if dest == p {
		return true
	}
	return strings.HasPrefix(p, dest+string(filepath.Separator))
}

'''+s[b:]
    wr(d,'cpio/extract.go',s)

@rf('ver1')
def _(d):
    s=rd(d,'verify_v4.go')
    s=s.replace('''	sig.validate = func(h hash.Hash) error {
		if knownKeys == nil {
			return nil
		}
		if entity, key := findKey(pkt, knownKeys); key != nil {
			setEntity(sig, entity)
			return key.VerifySignature(h, pkt)
		}
		return KeyNotFoundError{
			KeyID:       sig.KeyId,
			Fingerprint: sig.KeyFingerprint,
		}
	}
	return sig, nil
}
''','''	sig.pkt = pkt
	return sig, nil
}

func (sig *Signature) validate(h hash.Hash, knownKeys openpgp.EntityList) error {
	if knownKeys == nil {
		return nil
	}
	entity, key := findKey(sig.pkt, knownKeys)
	if key == nil {
		return KeyNotFoundError{
			KeyID:       sig.KeyId,
			Fingerprint: sig.KeyFingerprint,
		}
	}
	setEntity(sig, entity)
	return key.VerifySignature(h, sig.pkt)
}
''')
    s=s.replace('''func findKey(sig *packet.Signature, knownKeys openpgp.EntityList) (*openpgp.Entity, *packet.PublicKey) {
	for _, entity := range knownKeys {
		if sig.CheckKeyIdOrFingerprint(entity.PrimaryKey) {
			return entity, entity.PrimaryKey
		}
		for _, sub := range entity.Subkeys {
			if sig.CheckKeyIdOrFingerprint(sub.PublicKey) {
				return entity, sub.PublicKey
			}
		}
	}
	return nil, nil
}''','''func findKey(sig *packet.Signature, knownKeys openpgp.EntityList) (*openpgp.Entity, *packet.PublicKey) {
	for _, entity := range knownKeys {
		candidates := []*packet.PublicKey{entity.PrimaryKey}
		for i := range entity.Subkeys {
			candidates = append(candidates, entity.Subkeys[i].PublicKey)
		}
		for _, key := range candidates {
			if sig.CheckKeyIdOrFingerprint(key) {
				return entity, key
			}
		}
	}
	return nil, nil
}''')
    s=s.replace('func parseSignature(blob []byte, knownKeys openpgp.EntityList)','func parseSignature(blob []byte)').replace('parseSignatureMaybeV3(genpkt, knownKeys)','parseSignatureMaybeV3(genpkt)').replace('func parseSignatureV4(genpkt packet.Packet, knownKeys openpgp.EntityList)','func parseSignatureV4(genpkt packet.Packet)')
    wr(d,'verify_v4.go',s)
    for f in ('verify_nov3.go',):
        t=rd(d,f)
        t=t.replace('genpkt packet.Packet, knownKeys openpgp.EntityList','genpkt packet.Packet').replace('parseSignatureV4(genpkt, knownKeys)','parseSignatureV4(genpkt)').replace('	"github.com/ProtonMail/go-crypto/openpgp"\n','')
        wr(d,f,t)
    s=rd(d,'verify.go')
    s=s.replace('	validate func(hash.Hash) error','	pkt *packet.Signature').replace('''	for i, sig := range sigs {
		h := hashes[i]
		if err := sig.validate(h); err != nil {
			return nil, nil, err
		}
	}
''','''	for i := range sigs {
		if err := sigs[i].validate(hashes[i], knownKeys); err != nil {
			return nil, nil, err
		}
	}
''').replace('	"hash"\n','').replace('	"github.com/ProtonMail/go-crypto/openpgp"\n','	"github.com/ProtonMail/go-crypto/openpgp"\n	"github.com/ProtonMail/go-crypto/openpgp/packet"\n').replace('digestAndVerify(sigHeader, genHeader, stream, knownKeys)','digestAndVerify(sigHeader, genHeader, stream)')
    wr(d,'verify.go',s)
    s=rd(d,'verify_digests.go')
    s=s.replace('tag int, knownKeys openpgp.EntityList','tag int').replace('parseSignature(blob, knownKeys)','parseSignature(blob)').replace('tag, knownKeys)','tag)').replace('payloadReader io.Reader, knownKeys openpgp.EntityList','payloadReader io.Reader').replace('\n	"github.com/ProtonMail/go-crypto/openpgp"\n','')
    wr(d,'verify_digests.go',s)

@rf('ver2')
def _(d):
    s=rd(d,'verify_digests.go')
    a=s.index('var headerSigTags'); b=s.index('// Try to parse a PGP'); c=s.index('// Parse signatures from the header'); e=s.index('func digestPayload')
    s=s[:a]+'''// where signatures are found, and what they cover
var signatureTags = []struct {
	tag        int
	headerOnly bool
}{
	{SIG_RSA, true},
	{SIG_DSA, true},
	{SIG_PGP - _SIGHEADER_TAG_BASE, false},
	{SIG_GPG - _SIGHEADER_TAG_BASE, false},
}

type pendingSignature struct {
	*Signature
	digest hash.Hash
}

'''+'''// Parse signatures from the header and digest the RPM for each.
func digestAndVerify(sigHeader, genHeader *rpmHeader, payloadReader io.Reader, knownKeys openpgp.EntityList) ([]pendingSignature, error) {
	var pending []pendingSignature
	var payloadWriters []io.Writer
	for _, where := range signatureTags {
		if !sigHeader.HasTag(where.tag) {
			continue
		}
		blob, err := sigHeader.GetBytes(where.tag)
		if err != nil {
			return nil, err
		}
		sig, err := parseSignature(blob, knownKeys)
		if err != nil {
			return nil, err
		}
		sig.HeaderOnly = where.headerOnly
		p := pendingSignature{sig, sig.Hash.New()}
		p.digest.Write(genHeader.orig)
		if !where.headerOnly {
			payloadWriters = append(payloadWriters, p.digest)
		}
		pending = append(pending, p)
	}
	if err := digestPayload(sigHeader, genHeader, payloadReader, payloadWriters); err != nil {
		return nil, err
	}
	return pending, nil
}

'''+s[e:]
    s=s.replace('''		if _, err := io.Copy(io.MultiWriter(payloadWriters...), payloadReader); err != nil {
			return err
		}
		calculated := hex''','''		dest := io.MultiWriter(payloadWriters...)
		_, err := io.Copy(dest, payloadReader)
		if err != nil {
			return err
		}
		calculated := hex''')
    wr(d,'verify_digests.go',s)
    s=rd(d,'verify.go')
    a=s.index('	sigs, hashes, err := '); b=s.index('	hdr := &RpmHeader{')
    s=s[:a]+'''	pending, err := digestAndVerify(sigHeader, genHeader, stream, knownKeys)
	if err != nil {
		return nil, nil, err
	}
	// verify PGP signatures
	for _, p := range pending {
		err = p.validate(p.digest)
		if err != nil {
			return nil, nil, err
		}
		sigs = append(sigs, p.Signature)
	}
'''+s[b:]
    wr(d,'verify.go',s)
    s=rd(d,'verify_v4.go')
    s=s.replace('''		if knownKeys == nil {
			return nil
		}
		if entity, key := findKey(pkt, knownKeys); key != nil {
			setEntity(sig, entity)
			return key.VerifySignature(h, pkt)
		}
		return KeyNotFoundError{
			KeyID:       sig.KeyId,
			Fingerprint: sig.KeyFingerprint,
		}''','''		if knownKeys != nil {
			entity, key := findKey(pkt, knownKeys)
			if key == nil {
				return KeyNotFoundError{KeyID: sig.KeyId, Fingerprint: sig.KeyFingerprint}
			}
			setEntity(sig, entity)
			if err := key.VerifySignature(h, pkt); err != nil {
				return err
			}
		}
		return nil''')
    wr(d,'verify_v4.go',s)

# signing and digests: one comparison for both payload digests, table of algorithms, loops over tags
@rf('sign1')
def _(d):
    s=rd(d,'verify_digests.go')
    a=s.index('func digestPayload(')
    s=s[:a]+'''// what the payload has to hash to
func expectedPayload(sigHeader, genHeader *rpmHeader) (h hash.Hash, want []byte, err error) {
	value, kind := getPayloadDigest(genHeader)
	if kind != 0 {
		if !kind.Available() {
			return nil, nil, fmt.Errorf("unknown payload digest %s", kind)
		}
		want, err = hex.DecodeString(value)
		return kind.New(), want, err
	}
	// legacy digest over header and payload
	want, _ = sigHeader.GetBytes(SIG_MD5 - _SIGHEADER_TAG_BASE)
	if len(want) == 0 {
		return nil, nil, errors.New("no usable payload digest found")
	}
	h = md5.New()
	h.Write(genHeader.orig)
	return h, want, nil
}

func digestPayload(sigHeader, genHeader *rpmHeader, payloadReader io.Reader, payloadWriters []io.Writer) error {
	h, want, err := expectedPayload(sigHeader, genHeader)
	if err != nil {
		return err
	}
	w := io.MultiWriter(append(payloadWriters, h)...)
	if _, err := io.Copy(w, payloadReader); err != nil {
		return err
	}
	if got := h.Sum(nil); !bytes.Equal(got, want) {
		return fmt.Errorf("payload digest mismatch: %x instead of %x", got, want)
	}
	return nil
}
'''
    wr(d,'verify_digests.go',s)
    s=rd(d,'signatures.go')
    a=s.index('func getHashAndType('); b=s.index('func digestForSigning(')
    s=s[:a]+'''func getHashAndType(sigHeader *rpmHeader) (string, crypto.Hash) {
	// RPM v4 introduced SHA256 header signatures, prefer them over the
	// previous SHA1
	value, kind := getSha256(sigHeader), crypto.SHA256
	if value == "" {
		value, kind = getSha1(sigHeader), crypto.SHA1
	}
	return value, kind
}

'''+s[b:]
    a=s.index('	switch algos[0] {'); b=s.index('func canOverwrite(')
    s=s[:a]+'''	kind, ok := payloadHashes[algos[0]]
	if !ok {
		return "", 0
	}
	return digest, kind
}

var payloadHashes = map[uint32]crypto.Hash{
	HASH_MD5:    crypto.MD5,
	HASH_SHA1:   crypto.SHA1,
	HASH_SHA256: crypto.SHA256,
	HASH_SHA384: crypto.SHA384,
	HASH_SHA512: crypto.SHA512,
	HASH_SHA224: crypto.SHA224,
}

'''+s[b:]
    a=s.index('func insertSignatures('); b=s.index('func getSha1(')
    s=s[:a]+'''func insertSignatures(sigHeader *rpmHeader, sigPgp, sigRsa []byte) {
	for _, tag := range []int{SIG_DSA, SIG_GPG - _SIGHEADER_TAG_BASE} {
		delete(sigHeader.entries, tag)
	}
	for _, s := range []struct {
		tag   int
		value []byte
	}{{SIG_RSA, sigRsa}, {SIG_PGP - _SIGHEADER_TAG_BASE, sigPgp}} {
		insertSignature(sigHeader, s.tag, s.value)
	}
}

'''+s[b:]
    wr(d,'signatures.go',s)
    sub(d,'header.go','''		h := hashType.New()
		h.Write(origBuf.Bytes())
		calculated := hex.EncodeToString(h.Sum(nil))
		if calculated != hash {
			return nil, fmt.Errorf("%s mismatch in signature header", hashType)
		}
''','''		if err := checkDigest(origBuf.Bytes(), hash, hashType); err != nil {
			return nil, err
		}
''')
    s=rd(d,'header.go')
    s+='''
func checkDigest(raw []byte, want string, kind crypto.Hash) error {
	h := kind.New()
	h.Write(raw)
	if hex.EncodeToString(h.Sum(nil)) == want {
		return nil
	}
	return fmt.Errorf("%s mismatch in signature header", kind)
}
'''
    wr(d,'header.go',s)

# options with defaults as a value, signing both in a helper, digest made while reading
@rf('sign2')
def _(d):
    s=rd(d,'signatures.go')
    a=s.index('func (opts *SignatureOptions) hash()'); b=s.index('func insertSignature(')
    s=s[:a]+'''// withDefaults fills in what is not set
func (opts *SignatureOptions) withDefaults() (o SignatureOptions) {
	if opts != nil {
		o = *opts
	}
	if o.Hash == 0 {
		o.Hash = crypto.SHA256
	}
	if o.CreationTime.IsZero() {
		o.CreationTime = time.Now()
	}
	return o
}

func makeSignature(h hash.Hash, key *packet.PrivateKey, opts SignatureOptions) ([]byte, error) {
	sig := new(packet.Signature)
	sig.SigType = packet.SigTypeBinary
	sig.CreationTime = opts.CreationTime
	sig.PubKeyAlgo = key.PubKeyAlgo
	sig.Hash = opts.Hash
	sig.IssuerKeyId = &key.KeyId
	if err := sig.Sign(h, key, nil); err != nil {
		return nil, err
	}
	buf := new(bytes.Buffer)
	if err := sig.Serialize(buf); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}

'''+s[b:]
    a=s.index('func digestForSigning('); b=s.index('func getPayloadDigest(')
    s=s[:a]+'''// SignRpmStream reads an RPM and signs it, returning the set of headers updated with the new signature.
func SignRpmStream(stream io.Reader, key *packet.PrivateKey, opts *SignatureOptions) (header *RpmHeader, err error) {
	header, err = ReadHeader(stream)
	if err != nil {
		return nil, err
	}
	if err := header.sign(stream, key, opts.withDefaults()); err != nil {
		return nil, err
	}
	return header, nil
}

func (hdr *RpmHeader) sign(payload io.Reader, key *packet.PrivateKey, opts SignatureOptions) error {
	if !opts.Hash.Available() {
		return fmt.Errorf("unavailable signature hash %s", opts.Hash)
	}
	headerHash := opts.Hash.New()
	packageHash := opts.Hash.New()
	both := io.MultiWriter(headerHash, packageHash)
	both.Write(hdr.genHeader.orig)
	if err := digestPayload(hdr.sigHeader, hdr.genHeader, payload, []io.Writer{packageHash}); err != nil {
		return err
	}
	sigRsa, err := makeSignature(headerHash, key, opts)
	if err != nil {
		return err
	}
	sigPgp, err := makeSignature(packageHash, key, opts)
	if err != nil {
		return err
	}
	insertSignatures(hdr.sigHeader, sigPgp, sigRsa)
	return nil
}

'''+s[b:]
    wr(d,'signatures.go',s)
    sub(d,'header.go','''	var origBuf bytes.Buffer
	f = io.TeeReader(f, &origBuf)
''','''	var origBuf bytes.Buffer
	keep := io.Writer(&origBuf)
	var digest gohash.Hash
	if hash != "" {
		digest = hashType.New()
		keep = io.MultiWriter(&origBuf, digest)
	}
	f = io.TeeReader(f, keep)
''')
    sub(d,'header.go','''		h := hashType.New()
		h.Write(origBuf.Bytes())
		calculated := hex.EncodeToString(h.Sum(nil))
''','''		calculated := hex.EncodeToString(digest.Sum(nil))
''')
    sub(d,'header.go','	"fmt"\n','	"fmt"\n	gohash "hash"\n')
