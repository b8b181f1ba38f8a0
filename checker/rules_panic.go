package main

import "strings"

var panicKinds = []string{"nil", "index", "slice", "make", "assert", "div", "hash", "bytes", "nilmap", "panic", "repeat", "ifacecmp", "slice2arr", "mapkey", "shift"}

func rootName(r string) string {
	return strings.TrimPrefix(strings.ReplaceAll(r, modulePath, "rpmutils"), "")
}

func isPayloadRoot(r string) bool {
	r = rootName(r)
	for _, s := range []string{"rpmutils/cpio.", "rpmutils/fileutil.", "PayloadReader", "ExpandPayload", "payloadReader", "fileInfo", "noCloseWrapper", "byteCountSink"} {
		if strings.Contains(r, s) {
			return true
		}
	}
	return false
}

func isQueryRoot(r string) bool {
	if isPayloadRoot(r) && !strings.Contains(r, "ileInfo") {
		return false
	}
	r = rootName(r)
	if strings.HasPrefix(r, "(") {
		return true
	}
	for _, s := range []string{"NEVRAcmp", "Vercmp", "GetFileAlgoName", "NewNoSuchTagError"} {
		if strings.HasSuffix(r, "."+s) {
			return true
		}
	}
	return false
}

func isReadRoot(r string) bool { return !isPayloadRoot(r) && !isQueryRoot(r) }

const panicWhat = "Abstract interpretation of the SSA form of every entry point with unknown arguments and unknown input bytes: facts about nilness, linear integer relations, map contents, dynamic types and field invariants decide at every indexing, slicing, allocation, conversion, division, dereference, map write, type assertion and hash creation reached that it cannot panic; each such instruction is one obligation."

func init() {
	rules["C01"] = &Rule{kinds: panicKinds, roots: isReadRoot, what: panicWhat + " Entry points: reading, verifying, signing and rewriting.", strict: true}
	rules["C02"] = &Rule{kinds: panicKinds, roots: isQueryRoot, what: panicWhat + " Entry points: every query on a parsed header, file entry, identity or version.", strict: true}
	rules["C03"] = &Rule{kinds: panicKinds, roots: isPayloadRoot, what: panicWhat + " Entry points: cpio and payload iteration and extraction, in any order of calls (receivers are arbitrary objects satisfying the inferred field invariants).", strict: true}
	rules["C04"] = &Rule{kinds: []string{"alloc"}, what: "At every make, growing append, Repeat, Grow and io.ReadAll-style sized allocation reached by the abstract interpretation the requested size must be bounded by a constant (64 MiB) or by the length of data already in memory (up to a constant factor); each allocation site is one obligation.", strict: true}
}
