From 3d17231d325e6d53b3fe823652ddf2c7028c9731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:34 +0000
Subject: [PATCH 01/26] fix: refuse header entries that lie outside the header
 data

A negative or out of range offset or count in a header entry made reading
the header, or a later GetStrings, panic.
---
 header.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/header.go b/header.go
index 5894a58..4f4cb4d 100644
--- a/header.go
+++ b/header.go
@@ -116,9 +116,15 @@ func readHeader(f io.Reader, hash string, hashType crypto.Hash, isSource bool, s
 		if err := binary.Read(buf, binary.BigEndian, &tag); err != nil {
 			return nil, err
 		}
+		if tag.Offset < 0 || int(tag.Offset) > len(data) || tag.Count < 0 {
+			return nil, fmt.Errorf("tag %d is out of range", tag.Tag)
+		}
 		typeSize, ok := typeSizes[tag.DataType]
 		var end int
 		if ok {
+			if int64(typeSize)*int64(tag.Count) > int64(len(data)-int(tag.Offset)) {
+				return nil, fmt.Errorf("tag %d is truncated", tag.Tag)
+			}
 			end = int(tag.Offset) + typeSize*int(tag.Count)
 		} else {
 			// String types are null-terminated
@@ -208,6 +214,9 @@ func (hdr *rpmHeader) GetStrings(tag int) ([]string, error) {
 		return nil, fmt.Errorf("unsupported datatype for string: %d, tag: %d", ent.dataType, tag)
 	}
 	strs := strings.Split(string(ent.contents), "\x00")
+	if ent.count < 0 || int(ent.count) > len(strs) {
+		return nil, fmt.Errorf("tag %d is truncated", tag)
+	}
 	return strs[:ent.count], nil
 }
 
-- 
2.43.0


From 68c96058340f0efcc993f92ebf735f15225215db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:34 +0000
Subject: [PATCH 02/26] fix: refuse inconsistent directory indexes, file
 attributes and identities

GetStrings(OLDFILENAMES), GetFiles and GetNEVRA panicked when the parallel
arrays of a header were shorter than the file list or empty.
---
 header.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/header.go b/header.go
index 4f4cb4d..2e4d079 100644
--- a/header.go
+++ b/header.go
@@ -202,6 +202,9 @@ func (hdr *rpmHeader) GetStrings(tag int) ([]string, error) {
 		}
 		paths := make([]string, 0, len(baseNames))
 		for i, base := range baseNames {
+			if i >= len(dirIdxs) || uint64(dirIdxs[i]) >= uint64(len(dirs)) {
+				return nil, fmt.Errorf("invalid directory index for file %d", i)
+			}
 			paths = append(paths, path.Join(dirs[dirIdxs[i]], base))
 		}
 		return paths, nil
@@ -380,6 +383,9 @@ func (hdr *rpmHeader) GetNEVRA() (*NEVRA, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(name) == 0 || len(version) == 0 || len(release) == 0 || len(arch) == 0 {
+		return nil, errors.New("incomplete package identity")
+	}
 	return &NEVRA{
 		Name:    name[0],
 		Epoch:   strconv.FormatUint(epoch[0], 10),
@@ -443,6 +449,12 @@ func (hdr *rpmHeader) GetFiles() ([]FileInfo, error) {
 		inodes = make([]uint32, len(paths))
 	}
 
+	n := len(paths)
+	if len(fileSizes) < n || len(fileUserName) < n || len(fileGroupName) < n ||
+		len(fileFlags) < n || len(fileMtimes) < n || len(fileDigests) < n ||
+		len(fileModes) < n || len(linkTos) < n || len(devices) < n || len(inodes) < n {
+		return nil, errors.New("file attributes do not match the number of files")
+	}
 	files := make([]FileInfo, len(paths))
 	for i := 0; i < len(paths); i++ {
 		files[i] = &fileInfo{
-- 
2.43.0


From fc7bb2218e1e7e2168b1fa8b5dffe731bae9ab78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:34 +0000
Subject: [PATCH 03/26] fix: do not panic on a header digest tag without a
 value

---
 signatures.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/signatures.go b/signatures.go
index 4678155..58858cc 100644
--- a/signatures.go
+++ b/signatures.go
@@ -90,7 +90,7 @@ func insertSignatures(sigHeader *rpmHeader, sigPgp, sigRsa []byte) {
 
 func getSha1(sigHeader *rpmHeader) string {
 	vals, err := sigHeader.GetStrings(SIG_SHA1)
-	if err != nil {
+	if err != nil || len(vals) == 0 {
 		return ""
 	}
 	return vals[0]
@@ -98,7 +98,7 @@ func getSha1(sigHeader *rpmHeader) string {
 
 func getSha256(sigHeader *rpmHeader) string {
 	vals, err := sigHeader.GetStrings(SIG_SHA256)
-	if err != nil {
+	if err != nil || len(vals) == 0 {
 		return ""
 	}
 	return vals[0]
-- 
2.43.0


From fc3fa6bf097d39d3d99925b37e8c6f343e873f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:34 +0000
Subject: [PATCH 04/26] fix: enforce header digests of any length

A one-character header digest was silently ignored.
---
 header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/header.go b/header.go
index 2e4d079..8bc3711 100644
--- a/header.go
+++ b/header.go
@@ -100,7 +100,7 @@ func readHeader(f io.Reader, hash string, hashType crypto.Hash, isSource bool, s
 		return nil, fmt.Errorf("error reading RPM header data: %s", err.Error())
 	}
 	// Check hash if it was specified
-	if len(hash) > 1 {
+	if hash != "" {
 		h := hashType.New()
 		h.Write(origBuf.Bytes())
 		calculated := hex.EncodeToString(h.Sum(nil))
-- 
2.43.0


From 5c62d34fe33746afb3b4a1b91836441770bcb9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:34 +0000
Subject: [PATCH 05/26] fix: do not allocate header areas by their declared
 size

A tiny file could make the library allocate up to 4 GiB per area. The sizes
are also no longer computed in 32 bits, where they could wrap around.
---
 header.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/header.go b/header.go
index 8bc3711..1de0ba0 100644
--- a/header.go
+++ b/header.go
@@ -67,9 +67,14 @@ var typeSizes = map[int32]int{
 }
 
 func readExact(f io.Reader, n int) ([]byte, error) {
-	buf := make([]byte, n)
-	_, err := io.ReadFull(f, buf)
-	return buf, err
+	// n may come from the file itself, so let the buffer grow with the data
+	// actually received
+	var buf bytes.Buffer
+	_, err := io.CopyN(&buf, f, int64(n))
+	if err == io.EOF && buf.Len() > 0 {
+		err = io.ErrUnexpectedEOF
+	}
+	return buf.Bytes(), err
 }
 
 func readHeader(f io.Reader, hash string, hashType crypto.Hash, isSource bool, sigBlock bool) (*rpmHeader, error) {
@@ -85,12 +90,12 @@ func readHeader(f io.Reader, hash string, hashType crypto.Hash, isSource bool, s
 		return nil, fmt.Errorf("bad magic for header")
 	}
 	// read entries
-	entryTable, err := readExact(f, int(intro.Entries*16))
+	entryTable, err := readExact(f, int(intro.Entries)*16)
 	if err != nil {
 		return nil, fmt.Errorf("error reading RPM header table: %s", err.Error())
 	}
 	// read data
-	size := intro.Size
+	size := int64(intro.Size)
 	if sigBlock {
 		// signature block is padded to 8 byte alignment
 		size = (size + 7) / 8 * 8
-- 
2.43.0


From 5755e66b252eb79f7f6cd0cb058d63a6dfa5b72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:45 +0000
Subject: [PATCH 06/26] fix: do not panic on crafted cpio headers or a
 premature Read

Header fields with a sign decoded as negative numbers, and an empty name, a
negative external size and reading before the first Next were not expected.
---
 cpio/cpio.go   | 9 +++++++++
 cpio/header.go | 2 +-
 cpio/reader.go | 8 +++++++-
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/cpio/cpio.go b/cpio/cpio.go
index 8e4bba1..fc0d749 100644
--- a/cpio/cpio.go
+++ b/cpio/cpio.go
@@ -81,6 +81,10 @@ func (cs *CpioStream) ReadNextEntry() (*CpioEntry, error) {
 		return cs.readStrippedEntry(hdr)
 	}
 
+	if hdr.namesize < 1 {
+		return nil, errors.New("invalid cpio header: missing filename")
+	}
+
 	// Read filename
 	buf := make([]byte, hdr.namesize)
 	if _, err = io.ReadFull(cs.stream, buf); err != nil {
@@ -125,6 +129,9 @@ func (cs *CpioStream) readStrippedEntry(hdr *Cpio_newc_header) (*CpioEntry, erro
 		return nil, fmt.Errorf("stripped cpio refers to invalid file index %d", hdr.index)
 	}
 	size := cs.sizes[hdr.index]
+	if size < 0 {
+		return nil, fmt.Errorf("invalid size of file index %d", hdr.index)
+	}
 	cs.nextPos = pad64(cs.stream.curPos + size)
 	payload, err := newFileStream(cs.stream, size)
 	if err != nil {
@@ -145,6 +152,8 @@ func (cr *countingReader) Seek(offset int64, whence int) (int64, error) {
 	}
 	if offset == 0 {
 		return cr.curPos, nil
+	} else if offset < 0 {
+		return 0, errors.New("seeking backwards is not supported")
 	}
 	b := make([]byte, offset)
 	n, err := io.ReadFull(cr, b)
diff --git a/cpio/header.go b/cpio/header.go
index 89af114..a510e57 100644
--- a/cpio/header.go
+++ b/cpio/header.go
@@ -63,7 +63,7 @@ func (br *binaryReader) Read16(buf *int) error {
 	if _, err := io.ReadFull(br.r, bb); err != nil {
 		return err
 	}
-	i, err := strconv.ParseInt(string(bb), 16, 0)
+	i, err := strconv.ParseUint(string(bb), 16, 32)
 	if err != nil {
 		return err
 	}
diff --git a/cpio/reader.go b/cpio/reader.go
index d78879e..9fa1315 100644
--- a/cpio/reader.go
+++ b/cpio/reader.go
@@ -16,7 +16,10 @@
 
 package cpio
 
-import "io"
+import (
+	"errors"
+	"io"
+)
 
 // Reader accesses a cpio archive stream using a simple interface similar to the archive/tar package
 type Reader struct {
@@ -58,5 +61,8 @@ func (r *Reader) Next() (*Cpio_newc_header, error) {
 //
 // Returns io.EOF when the current file has been read in its entirety.
 func (r *Reader) Read(p []byte) (n int, err error) {
+	if r.cur == nil {
+		return 0, errors.New("cpio: read before the first entry")
+	}
 	return r.cur.payload.Read(p)
 }
-- 
2.43.0


From b220c3bb94c43a052e63ed61e1400dcf9c52d065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:46 +0000
Subject: [PATCH 07/26] fix: do not panic on invalid payload file indexes

IsLink panicked for packages without files.
---
 payload.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/payload.go b/payload.go
index ca489b2..b3790f7 100644
--- a/payload.go
+++ b/payload.go
@@ -104,7 +104,7 @@ func (pr *payloadReader) Next() (FileInfo, error) {
 			return nil, fmt.Errorf("invalid file \"%s\" in payload", name)
 		}
 	}
-	if index >= len(pr.files) {
+	if index < 0 || index >= len(pr.files) {
 		return nil, errors.New("invalid file index")
 	}
 	pr.index = index
@@ -120,5 +120,9 @@ func (pr *payloadReader) Read(d []byte) (int, error) {
 // subsequent file with the same FileInfo.Inode and for which IsLink() returns
 // false will have the contents.
 func (pr *payloadReader) IsLink() bool {
+	if pr.index >= len(pr.isLink) {
+		// nothing has been read from an empty payload
+		return false
+	}
 	return pr.isLink[pr.index]
 }
-- 
2.43.0


From 59c803f8e2d061d6bdb1dca8edf16ae17f934d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:46 +0000
Subject: [PATCH 08/26] fix: do not allocate cpio names and skipped contents by
 their declared size

---
 cpio/cpio.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cpio/cpio.go b/cpio/cpio.go
index fc0d749..94f8928 100644
--- a/cpio/cpio.go
+++ b/cpio/cpio.go
@@ -17,6 +17,7 @@
 package cpio
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"io"
@@ -86,12 +87,12 @@ func (cs *CpioStream) ReadNextEntry() (*CpioEntry, error) {
 	}
 
 	// Read filename
-	buf := make([]byte, hdr.namesize)
-	if _, err = io.ReadFull(cs.stream, buf); err != nil {
+	var buf bytes.Buffer
+	if _, err = io.CopyN(&buf, cs.stream, int64(hdr.namesize)); err != nil {
 		return nil, err
 	}
 
-	filename := string(buf[:len(buf)-1])
+	filename := string(buf.Bytes()[:hdr.namesize-1])
 
 	offset := pad(newcHeaderLength+int(hdr.namesize)) - newcHeaderLength - int(hdr.namesize)
 
@@ -155,12 +156,11 @@ func (cr *countingReader) Seek(offset int64, whence int) (int64, error) {
 	} else if offset < 0 {
 		return 0, errors.New("seeking backwards is not supported")
 	}
-	b := make([]byte, offset)
-	n, err := io.ReadFull(cr, b)
+	n, err := io.CopyN(io.Discard, cr, offset)
 	if err != nil && err != io.EOF {
 		return 0, err
 	}
-	return int64(n), nil
+	return n, nil
 }
 
 func pad(num int) int {
-- 
2.43.0


From 466e0ac3b1903d0df44879b9f8f78f293946e827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:46 +0000
Subject: [PATCH 09/26] fix: read symlink targets completely

A single Read may return less than the whole target, and the buffer was
allocated by the declared size.
---
 cpio/extract.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpio/extract.go b/cpio/extract.go
index ec4931c..5184926 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -92,8 +92,8 @@ func Extract(rs io.Reader, dest string) error {
 				return err
 			}
 		case S_ISLNK:
-			buf := make([]byte, entry.Header.filesize)
-			if _, err := entry.payload.Read(buf); err != nil {
+			buf, err := io.ReadAll(entry.payload)
+			if err != nil {
 				return err
 			}
 			if err := os.Symlink(string(buf), target); err != nil {
-- 
2.43.0


From ef08a8040e2fec750b685b6b875219be7e321c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:47 +0000
Subject: [PATCH 10/26] fix: report truncated archives instead of a clean end
 of file

Next returned io.EOF, which callers take for the end of the archive, when the
stream ended before the trailer, and reading an entry ended with io.EOF when
its contents were cut short.
---
 cpio/cpio.go   | 16 ++++++++++++----
 cpio/stream.go |  3 +++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/cpio/cpio.go b/cpio/cpio.go
index 94f8928..09b5375 100644
--- a/cpio/cpio.go
+++ b/cpio/cpio.go
@@ -77,7 +77,7 @@ func (cs *CpioStream) ReadNextEntry() (*CpioEntry, error) {
 	// Read header
 	hdr, err := readHeader(cs.stream)
 	if err != nil {
-		return nil, err
+		return nil, unexpectedEOF(err)
 	} else if hdr.stripped {
 		return cs.readStrippedEntry(hdr)
 	}
@@ -89,7 +89,7 @@ func (cs *CpioStream) ReadNextEntry() (*CpioEntry, error) {
 	// Read filename
 	var buf bytes.Buffer
 	if _, err = io.CopyN(&buf, cs.stream, int64(hdr.namesize)); err != nil {
-		return nil, err
+		return nil, unexpectedEOF(err)
 	}
 
 	filename := string(buf.Bytes()[:hdr.namesize-1])
@@ -157,12 +157,20 @@ func (cr *countingReader) Seek(offset int64, whence int) (int64, error) {
 		return 0, errors.New("seeking backwards is not supported")
 	}
 	n, err := io.CopyN(io.Discard, cr, offset)
-	if err != nil && err != io.EOF {
-		return 0, err
+	if err != nil {
+		return 0, unexpectedEOF(err)
 	}
 	return n, nil
 }
 
+// unexpectedEOF is used where the stream must not end yet: only the trailer ends an archive
+func unexpectedEOF(err error) error {
+	if err == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
+	return err
+}
+
 func pad(num int) int {
 	return num + 3 - (num+3)%4
 }
diff --git a/cpio/stream.go b/cpio/stream.go
index 44a8619..a5547a2 100644
--- a/cpio/stream.go
+++ b/cpio/stream.go
@@ -59,5 +59,8 @@ func (fs *file_stream) Read(p []byte) (n int, err error) {
 	}
 	n, err = fs.stream.Read(p)
 	fs.curr_pos += int64(n)
+	if err == io.EOF && fs.curr_pos < fs.size {
+		err = io.ErrUnexpectedEOF
+	}
 	return
 }
-- 
2.43.0


From 72ba8d7026f88c6e159559e36ae76aa847b5986b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:47 +0000
Subject: [PATCH 11/26] fix: report the size of stripped entries

Filesize64 is documented to return the size supplied by SetFileSizes.
---
 cpio/cpio.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpio/cpio.go b/cpio/cpio.go
index 09b5375..b61f1af 100644
--- a/cpio/cpio.go
+++ b/cpio/cpio.go
@@ -133,6 +133,7 @@ func (cs *CpioStream) readStrippedEntry(hdr *Cpio_newc_header) (*CpioEntry, erro
 	if size < 0 {
 		return nil, fmt.Errorf("invalid size of file index %d", hdr.index)
 	}
+	hdr.size64 = size
 	cs.nextPos = pad64(cs.stream.curPos + size)
 	payload, err := newFileStream(cs.stream, size)
 	if err != nil {
-- 
2.43.0


From b0c5bc6e5c67cdd1d778822e5081332b56f72b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:22 +0000
Subject: [PATCH 12/26] fix: close extracted files when writing them fails

---
 cpio/extract.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpio/extract.go b/cpio/extract.go
index 5184926..74bf0a8 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -117,15 +117,15 @@ func Extract(rs io.Reader, dest string) error {
 				return err
 			}
 			written, err := io.Copy(f, entry.payload)
+			if cerr := f.Close(); err == nil {
+				err = cerr
+			}
 			if err != nil {
 				return err
 			}
 			if written != int64(entry.Header.filesize) {
 				return fmt.Errorf("short write")
 			}
-			if err := f.Close(); err != nil {
-				return err
-			}
 
 			// Create hardlinks after the file content is written.
 			if entry.Header.nlink > 1 && entry.Header.filesize > 0 {
-- 
2.43.0


From 9fe46202c1e95beff769783b5b07e1a56fa5d58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:22 +0000
Subject: [PATCH 13/26] fix: extract hardlinked files without contents

A set of hardlinks to an empty file was never created, nor were links that
follow the contents.
---
 cpio/extract.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/cpio/extract.go b/cpio/extract.go
index 74bf0a8..9744722 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -45,6 +45,7 @@ const (
 func Extract(rs io.Reader, dest string) error {
 	dest = filepath.Clean(filepath.FromSlash(dest))
 	linkMap := make(map[int][]string)
+	contents := make(map[int]string)
 
 	stream := NewCpioStream(rs)
 
@@ -139,6 +140,8 @@ func Extract(rs io.Reader, dest string) error {
 						return err
 					}
 				}
+				delete(linkMap, entry.Header.ino)
+				contents[entry.Header.ino] = target
 			}
 		default:
 			return fmt.Errorf("unknown file mode 0%o for %s",
@@ -146,5 +149,25 @@ func Extract(rs io.Reader, dest string) error {
 		}
 	}
 
+	// Hardlinks that are left over have no contents, or came after them.
+	for ino, l := range linkMap {
+		for _, t := range l {
+			if source, ok := contents[ino]; ok {
+				if err := os.Link(source, t); err != nil {
+					return err
+				}
+				continue
+			}
+			f, err := os.Create(t)
+			if err != nil {
+				return err
+			}
+			if err := f.Close(); err != nil {
+				return err
+			}
+			contents[ino] = t
+		}
+	}
+
 	return nil
 }
-- 
2.43.0


From 178daffe40dff5056b3d735a976d79bdfdacc50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:22 +0000
Subject: [PATCH 14/26] fix: report a directory that cannot be extracted over
 another kind of file

---
 cpio/extract.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cpio/extract.go b/cpio/extract.go
index 9744722..349b3bc 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -85,8 +85,10 @@ func Extract(rs io.Reader, dest string) error {
 			continue
 		case S_ISDIR:
 			m := os.FileMode(entry.Header.Mode()).Perm()
-			if err := os.Mkdir(target, m); err != nil && !os.IsExist(err) {
-				return err
+			if err := os.Mkdir(target, m); err != nil {
+				if info, serr := os.Stat(target); serr != nil || !info.IsDir() {
+					return err
+				}
 			}
 		case S_ISFIFO:
 			if err := fileutil.Mkfifo(target, uint32(entry.Header.Mode())); err != nil {
-- 
2.43.0


From 70b5dd00fa4baa5d825757512161a8b18137e97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:23 +0000
Subject: [PATCH 15/26] fix: do not extract through symlinks that lead out of
 the destination

An archive could plant a symlink and then name entries below it, or over it,
to create or overwrite files anywhere.
---
 cpio/extract.go | 50 +++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/cpio/extract.go b/cpio/extract.go
index 349b3bc..122c8bc 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -44,6 +44,13 @@ const (
 // Extract the contents of a cpio stream from r to the destination directory dest
 func Extract(rs io.Reader, dest string) error {
 	dest = filepath.Clean(filepath.FromSlash(dest))
+	if err := os.MkdirAll(dest, 0755); err != nil {
+		return err
+	}
+	dest, err := filepath.EvalSymlinks(dest)
+	if err != nil {
+		return err
+	}
 	linkMap := make(map[int][]string)
 	contents := make(map[int]string)
 
@@ -69,8 +76,18 @@ func Extract(rs io.Reader, dest string) error {
 			// this shouldn't happen due to the sanitization above but always check
 			return fmt.Errorf("invalid cpio path %q", entry.Header.filename)
 		}
+		if target == dest {
+			// the destination itself can't be replaced
+			if entry.Header.Mode()&^07777 != S_ISDIR {
+				return fmt.Errorf("invalid cpio path %q", entry.Header.filename)
+			}
+			continue
+		}
 		// Create the parent directory if it doesn't exist.
 		parent := filepath.Dir(target)
+		if err := checkParent(dest, parent); err != nil {
+			return err
+		}
 		if err := os.MkdirAll(parent, 0755); err != nil {
 			return err
 		}
@@ -115,7 +132,7 @@ func Extract(rs io.Reader, dest string) error {
 			}
 
 			// FIXME: Set permissions on files when creating.
-			f, err := os.Create(target)
+			f, err := createFile(target)
 			if err != nil {
 				return err
 			}
@@ -160,7 +177,7 @@ func Extract(rs io.Reader, dest string) error {
 				}
 				continue
 			}
-			f, err := os.Create(t)
+			f, err := createFile(t)
 			if err != nil {
 				return err
 			}
@@ -173,3 +190,32 @@ func Extract(rs io.Reader, dest string) error {
 
 	return nil
 }
+
+// checkParent returns an error if a symlink extracted earlier leads from the directory parent to
+// somewhere outside of dest, which must not contain symlinks itself.
+func checkParent(dest, parent string) error {
+	for {
+		resolved, err := filepath.EvalSymlinks(parent)
+		if err == nil {
+			if resolved != dest && !strings.HasPrefix(resolved, dest+string(filepath.Separator)) {
+				return fmt.Errorf("cpio path %q leads outside of the destination", parent)
+			}
+			return nil
+		}
+		if !os.IsNotExist(err) || parent == dest {
+			return err
+		}
+		// not created yet
+		parent = filepath.Dir(parent)
+	}
+}
+
+// createFile creates a file, replacing an existing symlink instead of following it.
+func createFile(target string) (*os.File, error) {
+	if info, err := os.Lstat(target); err == nil && info.Mode()&os.ModeSymlink != 0 {
+		if err := os.Remove(target); err != nil {
+			return nil, err
+		}
+	}
+	return os.Create(target)
+}
-- 
2.43.0


From c42d163bf6818b25e79390962f4a1f220e63b9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:23 +0000
Subject: [PATCH 16/26] fix: release the decompressor when payload iteration
 fails

It was left running when the file list could not be read, and when the
payload named a file unknown to the header.
---
 payload.go  | 14 ++++++++++----
 rpmutils.go |  4 ++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/payload.go b/payload.go
index b3790f7..9674435 100644
--- a/payload.go
+++ b/payload.go
@@ -84,10 +84,7 @@ func newPayloadReader(r io.Reader, files []FileInfo) *payloadReader {
 func (pr *payloadReader) Next() (FileInfo, error) {
 	hdr, err := pr.cr.Next()
 	if err != nil {
-		// close decompressor on EOF, zstd in particular leaks goroutines otherwise
-		if c, ok := pr.stream.(io.Closer); ok {
-			c.Close()
-		}
+		pr.close()
 		return nil, err
 	}
 	var index int
@@ -101,16 +98,25 @@ func (pr *payloadReader) Next() (FileInfo, error) {
 		}
 		index, ok = pr.fileMap[name]
 		if !ok {
+			pr.close()
 			return nil, fmt.Errorf("invalid file \"%s\" in payload", name)
 		}
 	}
 	if index < 0 || index >= len(pr.files) {
+		pr.close()
 		return nil, errors.New("invalid file index")
 	}
 	pr.index = index
 	return pr.files[index], nil
 }
 
+// close decompressor at the end, zstd in particular leaks goroutines otherwise
+func (pr *payloadReader) close() {
+	if c, ok := pr.stream.(io.Closer); ok {
+		c.Close()
+	}
+}
+
 // Read bytes from the file returned by the preceding call to Next()
 func (pr *payloadReader) Read(d []byte) (int, error) {
 	return pr.cr.Read(d)
diff --git a/rpmutils.go b/rpmutils.go
index cbe3100..25fcfc8 100644
--- a/rpmutils.go
+++ b/rpmutils.go
@@ -80,11 +80,11 @@ func (rpm *Rpm) PayloadReader() (*cpio.Reader, error) {
 
 // PayloadReaderExtended accesses payload file contents sequentially
 func (rpm *Rpm) PayloadReaderExtended() (PayloadReader, error) {
-	pld, err := uncompressRpmPayloadReader(rpm.f, rpm.Header)
+	files, err := rpm.Header.GetFiles()
 	if err != nil {
 		return nil, err
 	}
-	files, err := rpm.Header.GetFiles()
+	pld, err := uncompressRpmPayloadReader(rpm.f, rpm.Header)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From e7d30b045276221f126abcb5002a298c2caf8e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:23 +0000
Subject: [PATCH 17/26] fix: apply the documented defaults for unset signature
 options

An unset Hash panicked and an unset CreationTime was written as is.
---
 signatures.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/signatures.go b/signatures.go
index 58858cc..80378bf 100644
--- a/signatures.go
+++ b/signatures.go
@@ -19,6 +19,7 @@ package rpmutils
 import (
 	"bytes"
 	"crypto"
+	"fmt"
 	"hash"
 	"io"
 	"os"
@@ -39,14 +40,14 @@ type SignatureOptions struct {
 }
 
 func (opts *SignatureOptions) hash() crypto.Hash {
-	if opts != nil {
+	if opts != nil && opts.Hash != 0 {
 		return opts.Hash
 	}
 	return crypto.SHA256
 }
 
 func (opts *SignatureOptions) creationTime() time.Time {
-	if opts != nil {
+	if opts != nil && !opts.CreationTime.IsZero() {
 		return opts.CreationTime
 	}
 	return time.Now()
@@ -114,7 +115,11 @@ func getHashAndType(sigHeader *rpmHeader) (string, crypto.Hash) {
 }
 
 func digestForSigning(sigHeader, genHeader *rpmHeader, payloadReader io.Reader, opts *SignatureOptions) (genHash, combinedHash hash.Hash, err error) {
-	genHash, combinedHash = opts.hash().New(), opts.hash().New()
+	hashType := opts.hash()
+	if !hashType.Available() {
+		return nil, nil, fmt.Errorf("unavailable signature hash %s", hashType)
+	}
+	genHash, combinedHash = hashType.New(), hashType.New()
 	// write header
 	genHash.Write(genHeader.orig)
 	combinedHash.Write(genHeader.orig)
-- 
2.43.0


From c6abe35411722501a82dcd9e9acdd778bc700f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:23 +0000
Subject: [PATCH 18/26] fix: do not replace the destination when rewriting a
 package fails

The deferred cleanup looked at the wrong error variable, so a temporary file
that could not be written completely was still renamed over the destination,
and failures to close or rename it were not reported.
---
 signatures.go | 45 +++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/signatures.go b/signatures.go
index 80378bf..aee2657 100644
--- a/signatures.go
+++ b/signatures.go
@@ -230,7 +230,7 @@ func RewriteWithSignatures(infile *os.File, outpath string, sigPgp, sigRsa []byt
 	return header, nil
 }
 
-func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) error {
+func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) (err error) {
 	delete(header.sigHeader.entries, SIG_RESERVEDSPACE-_SIGHEADER_TAG_BASE)
 	ininfo, err := infile.Stat()
 	if err != nil {
@@ -240,37 +240,42 @@ func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) error {
 	if outpath == "-" {
 		outstream = os.Stdout
 	} else {
-		outinfo, err := os.Lstat(outpath)
-		if err == nil && canOverwrite(ininfo, outinfo) {
+		outinfo, serr := os.Lstat(outpath)
+		if serr == nil && canOverwrite(ininfo, outinfo) {
 			ok, err := writeInPlace(outpath, header)
 			if err != nil || ok {
 				return err
 			}
 			// in-place didn't work; fallback to rewrite
-		} else if err == nil && !outinfo.Mode().IsRegular() {
+		} else if serr == nil && !outinfo.Mode().IsRegular() {
 			// pipe or something else. open for writing.
-			outfile, err := os.Create(outpath)
-			if err != nil {
-				return err
+			outfile, oerr := os.Create(outpath)
+			if oerr != nil {
+				return oerr
 			}
-			defer outfile.Close()
+			defer func() {
+				if cerr := outfile.Close(); err == nil {
+					err = cerr
+				}
+			}()
 			outstream = outfile
 		}
 		if outstream == nil {
 			// write-rename
-			tempfile, err := os.CreateTemp(path.Dir(outpath), path.Base(outpath))
-			if err != nil {
-				return err
+			tempfile, terr := os.CreateTemp(path.Dir(outpath), path.Base(outpath))
+			if terr != nil {
+				return terr
 			}
 			defer func() {
+				_ = tempfile.Chmod(0644)
+				if cerr := tempfile.Close(); err == nil {
+					err = cerr
+				}
+				if err == nil {
+					err = os.Rename(tempfile.Name(), outpath)
+				}
 				if err != nil {
 					os.Remove(tempfile.Name())
-				} else {
-					_ = tempfile.Chmod(0644)
-					if err = tempfile.Close(); err != nil {
-						return
-					}
-					err = os.Rename(tempfile.Name(), outpath)
 				}
 			}()
 			outstream = tempfile
@@ -293,7 +298,11 @@ func writeInPlace(path string, header *RpmHeader) (ok bool, err error) {
 	if err != nil {
 		return
 	}
-	defer outfile.Close()
+	defer func() {
+		if cerr := outfile.Close(); err == nil && cerr != nil {
+			ok, err = false, cerr
+		}
+	}()
 	n, err := outfile.Write(blob)
 	if err != nil {
 		return false, err
-- 
2.43.0


From 56a6e6bdb5afcdbe25b9d69460ada1673b21a8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:23 +0000
Subject: [PATCH 19/26] fix: do not ignore a malformed 64-bit tag in
 GetUint64Fallback

The 32-bit tag is the fallback for an absent tag only.
---
 rpmutils.go | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/rpmutils.go b/rpmutils.go
index 25fcfc8..6eb0251 100644
--- a/rpmutils.go
+++ b/rpmutils.go
@@ -253,19 +253,10 @@ func (hdr *RpmHeader) GetUint64s(tag int) ([]uint64, error) {
 // the value as an array of uint64s. This can accomodate all int types and is
 // normally used when a int32 tag was later replaced with a int64 tag.
 func (hdr *RpmHeader) GetUint64Fallback(intTag, longTag int) (uint64, error) {
-	h, t := hdr.getHeader(longTag)
-	vals, err := h.GetUint64s(t)
-	if err == nil && len(vals) == 1 {
-		return vals[0], nil
+	if hdr.HasTag(longTag) {
+		return hdr.GetUint64(longTag)
 	}
-	h, t = hdr.getHeader(intTag)
-	vals, err = h.GetUint64s(t)
-	if err != nil {
-		return 0, err
-	} else if len(vals) != 1 {
-		return 0, errors.New("incorrect number of values")
-	}
-	return vals[0], nil
+	return hdr.GetUint64(intTag)
 }
 
 // GetBytes gets a tag as a byte array.
-- 
2.43.0


From 9d2c0b4f96de8d484974c722b1ba81ab5135ca61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:24 +0000
Subject: [PATCH 20/26] fix: refuse sizes that do not fit an int64

They were returned as negative numbers.
---
 header.go   | 4 ++++
 rpmutils.go | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/header.go b/header.go
index 1de0ba0..ad17cb4 100644
--- a/header.go
+++ b/header.go
@@ -24,6 +24,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"path"
 	"strconv"
 	"strings"
@@ -462,6 +463,9 @@ func (hdr *rpmHeader) GetFiles() ([]FileInfo, error) {
 	}
 	files := make([]FileInfo, len(paths))
 	for i := 0; i < len(paths); i++ {
+		if fileSizes[i] > math.MaxInt64 {
+			return nil, fmt.Errorf("size of file %d out of range", i)
+		}
 		files[i] = &fileInfo{
 			name:      paths[i],
 			size:      fileSizes[i],
diff --git a/rpmutils.go b/rpmutils.go
index 6eb0251..d71b2af 100644
--- a/rpmutils.go
+++ b/rpmutils.go
@@ -21,6 +21,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/sassoftware/go-rpmutils/cpio"
 )
@@ -295,6 +296,9 @@ func (hdr *RpmHeader) InstalledSize() (int64, error) {
 	if err != nil {
 		return -1, err
 	}
+	if u > math.MaxInt64 {
+		return -1, errors.New("size out of range")
+	}
 	return int64(u), nil
 }
 
@@ -305,6 +309,8 @@ func (hdr *RpmHeader) PayloadSize() (int64, error) {
 		return -1, err
 	} else if len(u) != 1 {
 		return -1, errors.New("incorrect number of values")
+	} else if u[0] > math.MaxInt64 {
+		return -1, errors.New("size out of range")
 	}
 	return int64(u[0]), err
 }
-- 
2.43.0


From 034efc0c68b59fd52f0698a786b973774e0c45e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:24 +0000
Subject: [PATCH 21/26] fix: compare versions that contain a newline

They compared equal to everything, as "." does not match a newline.
---
 vercmp.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vercmp.go b/vercmp.go
index e9cba8c..2ebb21f 100644
--- a/vercmp.go
+++ b/vercmp.go
@@ -22,9 +22,9 @@ import (
 )
 
 var (
-	R_NONALNUMTILDE = regexp.MustCompile(`^([^a-zA-Z0-9~]*)(.*)$`)
-	R_NUM           = regexp.MustCompile(`^([\d]+)(.*)$`)
-	R_ALPHA         = regexp.MustCompile(`^([a-zA-Z]+)(.*)$`)
+	R_NONALNUMTILDE = regexp.MustCompile(`(?s)^([^a-zA-Z0-9~]*)(.*)$`)
+	R_NUM           = regexp.MustCompile(`(?s)^([\d]+)(.*)$`)
+	R_ALPHA         = regexp.MustCompile(`(?s)^([a-zA-Z]+)(.*)$`)
 )
 
 // VersionSlice provides the Sort interface for sorting version strings.
-- 
2.43.0


From deb25a76d3d511342541a9d9df2e2d59af08610a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:24 +0000
Subject: [PATCH 22/26] fix: compare versions with a caret like rpm does

A caret was skipped like any other separator.
---
 vercmp.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/vercmp.go b/vercmp.go
index 2ebb21f..64baee2 100644
--- a/vercmp.go
+++ b/vercmp.go
@@ -22,7 +22,7 @@ import (
 )
 
 var (
-	R_NONALNUMTILDE = regexp.MustCompile(`(?s)^([^a-zA-Z0-9~]*)(.*)$`)
+	R_NONALNUMTILDE = regexp.MustCompile(`(?s)^([^a-zA-Z0-9~^]*)(.*)$`)
 	R_NUM           = regexp.MustCompile(`(?s)^([\d]+)(.*)$`)
 	R_ALPHA         = regexp.MustCompile(`(?s)^([a-zA-Z]+)(.*)$`)
 )
@@ -80,6 +80,25 @@ func Vercmp(first, second string) int {
 			return 1
 		}
 
+		// Handle the caret separator: like the tilde, except that a string
+		// that ends here (the base version) sorts before the caret.
+		if strings.HasPrefix(first, "^") || strings.HasPrefix(second, "^") {
+			if first == "" {
+				return -1
+			}
+			if second == "" {
+				return 1
+			}
+			if !strings.HasPrefix(first, "^") {
+				return 1
+			}
+			if !strings.HasPrefix(second, "^") {
+				return -1
+			}
+			first, second = first[1:], second[1:]
+			continue
+		}
+
 		// If we ran to the end of either, we are finished with the loop.
 		if first == "" || second == "" {
 			break
-- 
2.43.0


From 9b31081aef82cbf7cb8de459ea0159ea5b0e7ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:47 +0000
Subject: [PATCH 23/26] fix: notice other hard links of a file

os.FileInfo.Sys returns a *syscall.Stat_t, so HasLinks was always false and
signing in place rewrote every hard link of the file.
---
 fileutil/fileutil_unix.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fileutil/fileutil_unix.go b/fileutil/fileutil_unix.go
index e5a0f72..45bbce9 100644
--- a/fileutil/fileutil_unix.go
+++ b/fileutil/fileutil_unix.go
@@ -20,13 +20,14 @@
 package fileutil
 
 import (
-	"os"
 	"golang.org/x/sys/unix"
+	"os"
+	"syscall"
 )
 
 // HasLinks returns true if the given file has Nlink > 1
 func HasLinks(info os.FileInfo) bool {
-	stat, ok := info.Sys().(*unix.Stat_t)
+	stat, ok := info.Sys().(*syscall.Stat_t)
 	if !ok {
 		return false
 	}
-- 
2.43.0


From f383d1242c7690a54b437403a211ac129f2b3e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:47 +0000
Subject: [PATCH 24/26] fix: put the temporary file beside a destination given
 with backslashes

---
 signatures.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/signatures.go b/signatures.go
index aee2657..c24ce2f 100644
--- a/signatures.go
+++ b/signatures.go
@@ -23,7 +23,7 @@ import (
 	"hash"
 	"io"
 	"os"
-	"path"
+	"path/filepath"
 	"time"
 
 	"github.com/ProtonMail/go-crypto/openpgp/packet"
@@ -262,7 +262,7 @@ func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) (err error)
 		}
 		if outstream == nil {
 			// write-rename
-			tempfile, terr := os.CreateTemp(path.Dir(outpath), path.Base(outpath))
+			tempfile, terr := os.CreateTemp(filepath.Dir(outpath), filepath.Base(outpath))
 			if terr != nil {
 				return terr
 			}
-- 
2.43.0


From 0f886da6adc12536165f0776483540cd8d47ba6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:51 +0000
Subject: [PATCH 25/26] fix: a payload cut off before its first byte is not the
 end of an archive

Opening the decompressor of an RPM whose payload is missing returned io.EOF from
ExpandPayload and the payload readers, which callers take for the regular end.
---
 uncompress.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/uncompress.go b/uncompress.go
index 90b8622..1dbc900 100644
--- a/uncompress.go
+++ b/uncompress.go
@@ -30,6 +30,18 @@ import (
 // Wrap RPM payload with uncompress reader, assumes that header has
 // already been read.
 func uncompressRpmPayloadReader(r io.Reader, hdr *RpmHeader) (io.Reader, error) {
+	pld, err := openRpmPayload(r, hdr)
+	if err == io.EOF {
+		// even an empty payload holds the archive's trailer
+		err = io.ErrUnexpectedEOF
+	}
+	if err != nil {
+		return nil, err
+	}
+	return pld, nil
+}
+
+func openRpmPayload(r io.Reader, hdr *RpmHeader) (io.Reader, error) {
 	// Check to make sure payload format is a cpio archive. If the tag does
 	// not exist, assume archive is cpio.
 	if hdr.HasTag(PAYLOADFORMAT) {
-- 
2.43.0


From 3679a1022447e24c60d94010115868760abc3bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:29 +0000
Subject: [PATCH 26/26] fix: rewriting a package through a symlink to itself
 truncated it before it was read

---
 signatures.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signatures.go b/signatures.go
index c24ce2f..085b541 100644
--- a/signatures.go
+++ b/signatures.go
@@ -240,6 +240,10 @@ func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) (err error)
 	if outpath == "-" {
 		outstream = os.Stdout
 	} else {
+		// write to what a symlink leads to, which may be the input itself
+		if target, lerr := filepath.EvalSymlinks(outpath); lerr == nil {
+			outpath = target
+		}
 		outinfo, serr := os.Lstat(outpath)
 		if serr == nil && canOverwrite(ininfo, outinfo) {
 			ok, err := writeInPlace(outpath, header)
-- 
2.43.0

