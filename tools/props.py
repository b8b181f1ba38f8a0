import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=None
    P.append(d)

p("C01","A crafted or damaged RPM file never crashes reading, verifying or signing",
"For every byte stream, opening an RPM, reading its headers, verifying it, signing it or inserting signatures into it either succeeds or returns an error; it never panics (no index or slice out of range, negative allocation size, nil dereference, failed type assertion or unavailable hash).",
["inputs"],"every byte stream given as an RPM (arbitrary lead, index entries with any offset/count/type, truncated or inconsistent data)",
"The tests read a handful of well-formed RPMs; the claim is over all malformed index entries and sizes.",
["rpmutils.go","header.go","signatures.go","verify.go","verify_digests.go","verify_v4.go","writeheader.go"],
[("header parser bounds checks","header.go readHeader"),("digest and signature setup","verify_digests.go, signatures.go"),("signature/hash pairing","verify.go Verify")],
observe=["ReadRpm","ReadHeader","Verify","SignRpmStream","SignRpmFile","RewriteWithSignatures"])

p("C02","Querying any parsed header never crashes",
"For every header that was read successfully and every tag number, all query methods (presence, typed getters, file list, NEVRA, sizes, byte ranges, dumping the signature header) return a value or an error and never panic, even when the stored counts, lengths, directory indexes or parallel arrays disagree with each other.",
["inputs","programs"],"every parsed header, every tag argument, every order of queries",
"The tests query well-formed headers whose parallel arrays agree.",
["header.go","rpmutils.go","writeheader.go","nevra.go"],
[("parallel-array and count checks","header.go GetFiles/GetStrings/GetNEVRA"),("query forwarding","rpmutils.go")],
observe=["RpmHeader.Get*","RpmHeader.HasTag","RpmHeader.GetFiles","RpmHeader.GetNEVRA","RpmHeader.DumpSignatureHeader"])

p("C03","A crafted cpio archive or payload never crashes iteration or extraction",
"For every byte stream and every size table, iterating a cpio archive or an RPM payload, reading entry contents, asking whether an entry is a link, and extracting to a directory return data or an error and never panic, in whatever order the methods are called (including before the first entry and after the last).",
["inputs","histories"],"every archive byte stream, every supplied size table, every order of Next/Read/IsLink calls",
"The tests iterate three well-formed archives in the canonical call order.",
["cpio/cpio.go","cpio/header.go","cpio/stream.go","cpio/reader.go","cpio/extract.go","payload.go"],
[("entry header validation","cpio/cpio.go ReadNextEntry"),("index validation","payload.go Next, IsLink"),("skip with a bounded, non-negative distance","cpio/cpio.go Seek")],
observe=["cpio.Reader","cpio.CpioStream","cpio.Extract","PayloadReader"])

p("C04","Memory use is driven by data received, not by sizes the input declares",
"While reading headers or archives, no single allocation is sized by a number taken from the input unless that number is bounded by a fixed limit or by data already received; a tiny file cannot make the library allocate gigabytes.",
["inputs"],"every size, count or length field an input can declare",
"Tests use honest inputs whose declared sizes match what follows.",
["header.go","cpio/cpio.go","cpio/extract.go"],
[("exact-length reader","header.go readExact"),("name and skip handling","cpio/cpio.go"),("symlink target buffer","cpio/extract.go")],
observe=["every make/grow reached from a reading entry point"])

p("C05","Reading the headers consumes exactly the headers and reports their extent",
"After the headers of an RPM have been read, the stream is positioned on the first payload byte: everything is read from the caller's stream in exact, declared lengths, with no look-ahead and nothing left behind. The reported header range and original signature-area size equal the number of bytes consumed, and the retained raw copy of each header is exactly the bytes consumed for it.",
["inputs","schedules"],"every RPM and every way the underlying reader fragments its reads",
"Tests check one range on one file.",
["rpmutils.go","header.go","writeheader.go"],
[("exact reads through a recording tee","header.go readHeader/readExact"),("range arithmetic","rpmutils.go GetRange, writeheader.go OriginalSignatureHeaderSize")],
observe=["ReadHeader","ReadRpm","RpmHeader.GetRange","RpmHeader.OriginalSignatureHeaderSize"])

p("C06","A tag query reads that tag, from the right header, with the right form",
"Every public query for a tag looks up exactly that tag: tags offset into the signature range, and tags below the general range, come from the signature header under their raw number, all others from the general header. Single-value queries return the only value and fail when there is not exactly one, typed queries refuse values of another type, and a missing tag is always reported as the no-such-tag error.",
["inputs","programs"],"every tag number and every stored data type and count",
"Tests query four tags.",
["rpmutils.go","header.go","tags.go"],
[("tag routing","rpmutils.go getHeader"),("typed getters","header.go"),("forwarders","rpmutils.go")],
observe=["RpmHeader.Get*","RpmHeader.HasTag","RpmHeader.PayloadSize","RpmHeader.InstalledSize"])

p("C07","Integer values are returned exactly or refused, never wrapped",
"Every integer the library reports from a header or archive entry equals the stored unsigned value; where the result type cannot represent it the query fails instead of truncating, wrapping or changing sign. Every stored integer width is decoded with its own width.",
["inputs"],"every stored integer of every width",
"Tests only see small values.",
["header.go","rpmutils.go","fileinfo.go","cpio/header.go"],
[("width dispatch and range checks","header.go getInts/GetInts/GetUint32s/GetUint64s"),("size accessors","rpmutils.go, fileinfo.go")],
observe=["GetInt(s)","GetUint32(s)","GetUint64(s)","InstalledSize","PayloadSize","FileInfo.Size"])

p("C08","Package identity and file metadata come from their own tags at the same index",
"Each field of the package identity is the first value of the tag of that name, with a missing epoch meaning 0; each attribute of the i-th file is the i-th value of the tag that defines that attribute (64-bit size tag preferred over the 32-bit one, full path from directory table and base name), and its accessor returns that attribute unchanged. Hard-link marking and content sizes used for payload iteration derive from those same attributes.",
["inputs"],"every header, every file index",
"Tests check one NEVRA and the number of files; swapped owner/group, flags/mtime or device/inode columns pass.",
["header.go","fileinfo.go","nevra.go","payload.go"],
[("column assembly","header.go GetFiles, GetNEVRA"),("accessors","fileinfo.go"),("link marking","payload.go newPayloadReader")],
observe=["GetFiles","GetNEVRA","FileInfo accessors","PayloadReader.IsLink"])

p("C09","cpio entry metadata reports the archive's own header fields",
"For every archive entry each reported attribute (inode, mode, owner, group, link count, time, size, device numbers, name length, check, name, and for stripped entries index and size) is the value of that field of the entry's header in the order the newc format defines, decoded as unsigned hexadecimal.  Anything but the two known magics is refused.",
["inputs"],"every entry of every archive",
"The one test entry has uid=gid=rdev=check=0, so swapped or dropped fields are invisible.",
["cpio/header.go","cpio/cpio.go"],
[("field order","cpio/header.go readHeader"),("accessors","cpio/header.go"),("stripped entries","cpio/cpio.go readStrippedEntry")],
observe=["Cpio_newc_header accessors"])

p("C10","A truncated archive is never mistaken for a complete one",
"End of archive is reported only after the trailer entry was actually read, and end of file only after every declared byte of the entry was delivered; input that stops anywhere else yields a different, non-EOF error from iteration, reading and extraction.",
["inputs","fault_sequences"],"every archive and every point at which its stream can end",
"Tests use complete archives only.",
["cpio/cpio.go","cpio/stream.go","cpio/reader.go","cpio/extract.go","payload.go"],
[("trailer test","cpio/reader.go Next"),("content bound","cpio/stream.go Read"),("entry header read","cpio/cpio.go ReadNextEntry")],
observe=["cpio.Reader.Next","cpio.Reader.Read","PayloadReader.Next","PayloadReader.Read","cpio.Extract"])

p("C11","Entry contents never cross entry boundaries",
"Reading an entry delivers at most the declared number of bytes and only bytes of that entry: a read never asks the stream for more than remains, a stale entry read out of order fails, and moving on always resumes at the next four-byte boundary after the current entry's declared contents regardless of how much was read. A wrapper over hdr size supplied externally applies to the entry index named in the archive.",
["inputs","histories","schedules"],"every archive, every interleaving of partial reads and Next, every read fragmentation",
"Tests read everything or nothing of each entry.",
["cpio/cpio.go","cpio/stream.go","cpio/reader.go"],
[("remaining-bytes clamp and position check","cpio/stream.go Read"),("next entry position and padding","cpio/cpio.go ReadNextEntry, pad64"),("position counter","cpio/cpio.go countingReader")],
observe=["cpio.Reader.Read","CpioStream.ReadNextEntry"])

p("C12","Extraction never touches anything outside the destination directory",
"Whatever names, link targets and entry order an archive contains, every file system object that extraction creates, opens, links or replaces lies inside the destination directory, both lexically and after resolving symbolic links that earlier entries may have planted.",
["inputs","histories"],"every archive: names with .., absolute names, symlinks followed by entries below or at them, hard links",
"One test covers one ../ name; symlink chains and hard-link targets are not exercised.",
["cpio/extract.go"],
[("name sanitising and containment check","cpio/extract.go Extract"),("symlink resolution check","cpio/extract.go")],
observe=["file system calls made by cpio.Extract and Rpm.ExpandPayload"])

p("C13","A successful extraction materialised every entry in full",
"When extraction returns success, every directory, FIFO, symbolic link, regular file and hard link of the archive was created (device nodes excepted, and FIFOs on platforms without them), with every regular file holding exactly its declared number of bytes and every symbolic link its complete target; unknown entry kinds and failures to create or write are reported.",
["inputs","schedules","fault_sequences"],"every archive, every fragmentation of the decompressor's reads, every failing file system call",
"Tests do not look at the extracted contents and never use hard links or fragmented symlink targets.",
["cpio/extract.go"],
[("per-kind dispatch","cpio/extract.go Extract"),("written-size check","cpio/extract.go"),("deferred hard links","cpio/extract.go linkMap")],
observe=["cpio.Extract","Rpm.ExpandPayload"])

p("C14","Files and decompressors are released on every path",
"Every file the library opens is closed before the call returns, whether it succeeds or fails, and every decompressor it starts is closed when the call that started it fails, when extraction finishes, or when payload iteration ends or fails; no temporary file is left behind after a failed rewrite.",
["inputs","fault_sequences"],"every path through extraction, rewriting and payload iteration, including every failing call",
"Only the success path is checked for leaks, for one entry.",
["cpio/extract.go","signatures.go","rpmutils.go","payload.go","uncompress_cgo.go","uncompress_nocgo.go"],
[("close on all exits","cpio/extract.go, signatures.go"),("decompressor close","rpmutils.go ExpandPayload, payload.go Next")],
observe=["os.Create/OpenFile/CreateTemp handles","zstd readers"])

p("C15","Digests present in a package are always enforced",
"Reading headers fails when the package carries a header digest that does not match the header as read, preferring SHA-256 over SHA-1. Verification and signing additionally fail unless the payload as read matches the payload digest (or, lacking a usable one, the legacy MD5 over header and payload), and a package with no usable payload digest is refused.",
["inputs"],"every tampered or truncated header or payload and every combination of digest tags",
"Tests only verify intact packages.",
["header.go","signatures.go","verify.go","verify_digests.go","rpmutils.go"],
[("header digest comparison","header.go readHeader"),("digest selection","signatures.go getHashAndType/getPayloadDigest"),("payload digest comparison","verify_digests.go digestPayload")],
observe=["ReadHeader","Verify","SignRpmStream"])

p("C16","Verification succeeds only if every signature validates against a known key",
"With a key ring, verification succeeds only if every PGP signature found under the four signature tags validated over its own bytes - header-only signatures over the raw header, the others over header plus payload - against a key in the ring that matches the signature's issuer; an unknown key, a malformed or trailing-garbage signature packet or a failed validation is an error. Without a key ring signatures are parsed and reported but not validated, and each reported signature states correctly whether it covers the payload.",
["inputs"],"every set of signatures, keys and corruptions",
"Tests verify two good signatures by one key.",
["verify.go","verify_digests.go","verify_v4.go","verify_nov3.go"],
[("validation loop","verify.go Verify"),("signature setup and digesting","verify_digests.go digestAndVerify"),("key lookup and check","verify_v4.go")],
observe=["Verify"])

p("C17","Signing covers exactly the bytes, tags and options it promises",
"A signing call succeeds only after the package's own digests checked out, and the result carries one signature over the raw header and one over header plus payload, each stored under its own tag with its exact length, with older signatures of the other kind removed. The hash and creation time are those requested, and unset options mean SHA-256 and the current time.",
["inputs","configurations"],"every package, key and option combination",
"Tests sign with nil options only and rely on the same library to verify.",
["signatures.go"],
[("digest set-up","signatures.go digestForSigning"),("signature construction","signatures.go makeSignature"),("tag replacement","signatures.go insertSignatures"),("option defaults","signatures.go SignatureOptions")],
observe=["SignRpmStream","SignRpmFile","RewriteWithSignatures"])

p("C18","A failed rewrite leaves the destination untouched and is always reported",
"When rewriting a package through a temporary file, the destination is replaced only after the complete output was written and closed without error, the temporary is created beside the destination and removed on failure, and any failure to write, close or rename is returned. In-place rewriting happens only when the destination is the very input file, regular, without other hard links where the platform reports link counts, and the new header area has exactly the old size.",
["fault_sequences","crash_points"],"every failing write/close/rename and every kind of destination",
"No test rewrites a file.",
["signatures.go"],
[("write-then-rename","signatures.go rewriteRpm"),("in-place conditions","signatures.go canOverwrite/writeInPlace"),("output composition","signatures.go writeRpm")],
observe=["SignRpmFile","RewriteWithSignatures"])

p("C19","A written signature header is structurally what the reader expects",
"A dumped or rewritten signature area is the 96-byte lead, then the intro whose entry count and data size match what follows, the region tag, the remaining tags in ascending order with each offset pointing at that tag's aligned data, the data, and padding to eight bytes. The reader's and the writer's notion of each data type's size and alignment agree, and a rewritten file continues with the original header and payload bytes unchanged.",
["inputs"],"every header content that can be written",
"Tests re-read two written headers.",
["writeheader.go","header.go","signatures.go"],
[("serialiser","writeheader.go WriteTo/writeTag/writeRegion"),("type tables","header.go typeSizes/typeAlign"),("file composition","signatures.go writeRpm")],
observe=["DumpSignatureHeader","SignRpmFile"])

p("C20","No failure is swallowed",
"Whenever an underlying read, write, parse, file system or cryptographic operation performed on behalf of a call fails, the call does not report success; the only tolerated failures are the documented optional ones (absent or unusable optional tags, directories that already exist, closing after an error).",
["fault_sequences","inputs"],"every operation that can fail, at every call site and on every path",
"Tests never inject a failing operation.",
["cpio/cpio.go","cpio/extract.go","cpio/header.go","cpio/stream.go","header.go","signatures.go","verify.go","verify_digests.go","writeheader.go","uncompress.go","payload.go"],
[("error returns","all files")],
observe=["every exported function returning an error"])

p("C21","Queries do not modify what they query",
"No query on a parsed header, file entry, archive entry header, version or identity changes any state reachable from it or from another object, so concurrent queries on a shared header are safe and repeated queries give the same answer (dumping the signature header is not a query: it may adjust its padding tag).",
["schedules","histories"],"all interleavings and repetitions of query calls",
"No test runs queries concurrently or repeatedly.",
["header.go","rpmutils.go","fileinfo.go","nevra.go","vercmp.go","cpio/header.go"],
[("read-only methods","header.go, rpmutils.go, fileinfo.go, cpio/header.go")],
observe=["RpmHeader.Get*/HasTag/GetRange/...","FileInfo","NEVRA","Vercmp"])

p("C22","Independent packages and archives share no mutable state",
"Working on different packages or archives at the same time from different goroutines is safe: no operation writes a package-level variable, table or shared default after initialisation, no object hands out such shared storage, and the library starts no goroutine of its own.",
["schedules"],"all interleavings of operations on distinct objects",
"Tests are sequential.",
["header.go","vercmp.go","verify.go","verify_digests.go","cpio/cpio.go"],
[("package-level tables are read-only","header.go typeSizes/typeAlign, verify_digests.go tag lists, vercmp.go patterns")],
observe=["every package-level variable"])

p("C23","Only extraction and rewriting have side effects",
"Reading, querying, verifying, stream signing, comparing and iterating never touch the file system, environment, network, standard streams or process state; only extraction creates file system objects and only the file rewriting calls write files (or standard output when the output name is a dash).",
["programs","inputs"],"every call of every exported function",
"Tests cannot observe the absence of side effects.",
["cpio/extract.go","signatures.go","fileutil/fileutil_unix.go","rpmutils.go"],
[("layering: file system calls only in extraction and rewriting","cpio/extract.go, signatures.go, fileutil")],
observe=["call graph from every exported function"])

p("C24","All build configurations provide the same library",
"With and without cgo, on Linux and Windows, the module compiles to the same exported API, and platform- or cgo-specific variants of a function agree on signature, and a variant that performs an operation reports its failure; each way of decompressing zstd returns a closable decompressor bound to the given stream.",
["configurations"],"cgo on/off, Linux/Windows",
"Tests run on one platform and compare nothing across configurations.",
["uncompress_cgo.go","uncompress_nocgo.go","fileutil/fileutil_unix.go","fileutil/fileutil_windows.go","verify_nov3.go"],
[("build-constrained siblings","uncompress_*.go, fileutil_*.go")],
observe=["exported API of each configuration"])

p("C25","Payloads are decompressed by their declared compressor, losing no byte",
"Only cpio payloads are accepted; each declared compressor name selects its own decompressor over the payload stream, an unknown name is refused, and when no compressor is declared the leading bytes are inspected for gzip and put back before anything is decoded, so the archive reader sees the whole payload. Every way of opening the payload uses the same selection.",
["inputs","configurations"],"every payload format/compressor tag value, and its absence",
"Tests cover declared compressors only, never an absent or unknown one.",
["uncompress.go","rpmutils.go"],
[("compressor dispatch and peek","uncompress.go uncompressRpmPayloadReader")],
observe=["ExpandPayload","PayloadReader","PayloadReaderExtended"])

p("C26","Version comparison is rpm's total order on any strings",
"For all strings, version comparison returns -1, 0 or 1, is antisymmetric, and follows rpm's segment rules: a tilde sorts before everything including the end, a caret after the end but before any other segment, letters before digits, digit runs by numeric value however long or zero-padded, letter runs by byte order, and separators only delimit segments.",
["inputs"],"all pairs of strings, including control, non-ASCII and invalid UTF-8 bytes and arbitrarily long digit runs",
"Tests compare about 25 pairs.",
["vercmp.go"],
[("segment comparison loop","vercmp.go Vercmp")],
observe=["Vercmp"])

p("C27","Identity comparison and sorting are consistent with version comparison",
"Identities compare by epoch, then version, then release, each by version comparison and with the same sign; the sortable lists order element i before j exactly when it compares lower, and swapping exchanges exactly those two elements.",
["inputs"],"all identities and lists",
"Tests do not sort or compare identities.",
["nevra.go","vercmp.go"],
[("lexicographic comparison","nevra.go NEVRAcmp"),("sort interfaces","nevra.go NEVRASlice, vercmp.go VersionSlice")],
observe=["NEVRAcmp","NEVRASlice","VersionSlice"])

p("C28","Payload iteration pairs each archive entry with its own metadata",
"Each step of payload iteration returns the metadata of exactly the file the archive entry names (by header index for stripped entries, otherwise by path with a leading ./ ignored), an entry naming no known file or an index out of range is an error, and the link indication always refers to the entry last returned.",
["inputs","histories"],"every archive/header pairing, every sequence of calls",
"Tests only count entries.",
["payload.go","cpio/reader.go"],
[("index lookup","payload.go Next"),("current index","payload.go IsLink")],
observe=["PayloadReader.Next","PayloadReader.IsLink"])

p("C29","What is signed verifies, for every package and key",
"For every package and signing key, the package written by the signing call verifies successfully against the matching public key and differs from the input only in its signature area.",
["inputs"],"every package, key type and option combination",
"Tests round-trip two packages with one RSA key.",
["signatures.go","verify.go","writeheader.go"],
[("sign and verify share digesting","signatures.go, verify_digests.go")],
observe=["SignRpmFile then Verify"])

p("C30","A same-size dump has exactly the original size whenever it fits",
"Dumping the signature header with padding yields exactly the number of bytes originally read whenever the new tags plus a padding tag fit.",
["inputs"],"every header content",
"Tests dump without padding.",
["writeheader.go"],
[("reserved-space arithmetic","writeheader.go DumpSignatureHeader")],
observe=["DumpSignatureHeader(true)"])

p("C31","Compressed payload bytes decode to the packaged file contents",
"For every payload the bytes delivered for each file equal the file's contents as packaged, for every supported compressor.",
["inputs"],"every payload and compressor",
"Tests decompress six small payloads and discard the bytes.",
["uncompress.go","payload.go"],
[("third-party decompressors","uncompress.go")],
observe=["PayloadReader.Read"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
print(len(P))
