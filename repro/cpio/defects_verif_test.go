package cpio

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"testing"
	"testing/iotest"

	"github.com/stretchr/testify/assert"
	"github.com/stretchr/testify/require"
)

func ent(name string, mode, ino, nlink int, data string) []byte {
	var b bytes.Buffer
	b.WriteString("070701")
	for _, v := range []int{ino, mode, 0, 0, nlink, 0, len(data), 0, 0, 0, 0, len(name) + 1, 0} {
		fmt.Fprintf(&b, "%08x", v)
	}
	b.WriteString(name + "\x00")
	for b.Len()%4 != 0 {
		b.WriteByte(0)
	}
	b.WriteString(data)
	for b.Len()%4 != 0 {
		b.WriteByte(0)
	}
	return b.Bytes()
}

func arc(es ...[]byte) []byte {
	return append(bytes.Join(es, nil), ent(TRAILER, 0, 0, 1, "")...)
}

func with(b []byte, field int, v string) []byte {
	c := append([]byte(nil), b...)
	copy(c[6+8*field:], v)
	return c
}

func iterate(b []byte) (err error) {
	r := NewReader(bytes.NewReader(b))
	for err == nil {
		_, err = r.Next()
		if err == nil {
			io.Copy(io.Discard, r)
		}
	}
	return err
}

func TestDefectCrafted(t *testing.T) {
	e := ent("a", S_ISREG, 1, 1, "data")
	for _, v := range []string{"00000000", "-0000001"} {
		for f := 0; f < 13; f++ {
			b := arc(with(e, f, v))
			assert.NotPanics(t, func() { iterate(b) }, "%d %s", f, v)
			assert.NotPanics(t, func() { Extract(bytes.NewReader(b), t.TempDir()) }, "%d %s", f, v)
		}
	}
	l := ent("a", S_ISLNK, 1, 1, "data")
	assert.NotPanics(t, func() { Extract(bytes.NewReader(arc(with(l, 6, "-0000001"))), t.TempDir()) })
	r := NewReaderWithSizes(strings.NewReader("07070X-0000001"), []int64{1})
	assert.NotPanics(t, func() { _, err := r.Next(); assert.Error(t, err) })
	assert.NotPanics(t, func() { NewReader(strings.NewReader("")).Read(nil) })
	// negative sizes supplied by the caller
	r = NewReaderWithSizes(strings.NewReader("07070X0000000007070X00000000"), []int64{-100})
	assert.NotPanics(t, func() { r.Next(); r.Next() })
}

func TestDefectAllocation(t *testing.T) {
	e := ent("a", S_ISREG, 1, 1, "")
	check := func(b []byte) {
		var m, n runtime.MemStats
		runtime.ReadMemStats(&m)
		err := Extract(bytes.NewReader(b), t.TempDir())
		assert.Error(t, err)
		runtime.ReadMemStats(&n)
		assert.Less(t, n.TotalAlloc-m.TotalAlloc, uint64(1<<26))
	}
	check(with(e, 11, "40000000"))
	check(append(with(e, 6, "40000000"), e...))
	check(with(ent("a", S_ISLNK, 1, 1, ""), 6, "40000000"))
	c := append(with(e, 6, "40000000"), e...)
	var m, n runtime.MemStats
	runtime.ReadMemStats(&m)
	assert.Error(t, iterate(c))
	runtime.ReadMemStats(&n)
	assert.Less(t, n.TotalAlloc-m.TotalAlloc, uint64(1<<26))
}

func TestDefectTruncation(t *testing.T) {
	full := arc(ent("a", S_ISREG, 1, 1, "data"), ent("b", S_ISREG, 2, 1, "datadata"))
	trailer := len(ent(TRAILER, 0, 0, 1, ""))
	for n := 0; n < len(full)-trailer+110+len(TRAILER)+1; n++ {
		r := NewReader(bytes.NewReader(full[:n]))
		var err error
		for err == nil {
			_, err = r.Next()
			if err == nil {
				_, err = io.ReadAll(r)
			}
		}
		assert.NotEqual(t, io.EOF, err, "%d bytes", n)
		err = Extract(bytes.NewReader(full[:n]), t.TempDir())
		assert.Error(t, err, "%d", n)
		assert.NotEqual(t, io.EOF, err, "%d bytes", n)
	}
	require.Equal(t, io.EOF, iterate(full))
}

func TestDefectSymlinkShortRead(t *testing.T) {
	d := t.TempDir()
	require.NoError(t, Extract(iotest.HalfReader(bytes.NewReader(arc(ent("l", S_ISLNK, 1, 1, "some/long/target")))), d))
	s, err := os.Readlink(filepath.Join(d, "l"))
	require.NoError(t, err)
	assert.Equal(t, "some/long/target", s)
}

func TestDefectEmptyHardlinks(t *testing.T) {
	d := t.TempDir()
	require.NoError(t, Extract(bytes.NewReader(arc(ent("a", S_ISREG|0644, 5, 2, ""), ent("b", S_ISREG|0644, 5, 2, ""), ent("z", S_ISREG, 6, 1, "x"))), d))
	for _, n := range []string{"a", "b"} {
		_, err := os.Stat(filepath.Join(d, n))
		assert.NoError(t, err)
	}
}

func TestDefectSymlinkEscape(t *testing.T) {
	for i, es := range [][][]byte{
		{ent("l", S_ISLNK, 1, 1, "@"), ent("l/pwn", S_ISREG, 2, 1, "x")},
		{ent("l", S_ISLNK, 1, 1, "@/pwn"), ent("l", S_ISREG, 2, 1, "x")},
		{ent("l", S_ISLNK, 1, 1, "@"), ent("l/d/e", S_ISDIR, 2, 1, "")},
		{ent("l", S_ISLNK, 1, 1, "../out"), ent("l/s", S_ISLNK, 2, 1, "x")},
		{ent(".", S_ISLNK, 1, 1, "@"), ent("pwn", S_ISREG, 2, 1, "x")},
	} {
		base := t.TempDir()
		out := filepath.Join(base, "out")
		require.NoError(t, os.Mkdir(out, 0755))
		for _, e := range es {
			_ = e
		}
		var fixed [][]byte
		for _, e := range es {
			if bytes.Contains(e, []byte("@")) {
				name := string(e[110 : 110+bytes.IndexByte(e[110:], 0)])
				k := bytes.IndexByte(e[110:], '@') + 110
				tgt := string(bytes.TrimRight(e[k+1:], "\x00"))
				e = ent(name, S_ISLNK, 1, 1, out+tgt)
			}
			fixed = append(fixed, e)
		}
		Extract(bytes.NewReader(arc(fixed...)), filepath.Join(base, "dest"))
		left, _ := os.ReadDir(out)
		assert.Empty(t, left, "case %d", i)
	}
}

func TestDefectDescriptorLeak(t *testing.T) {
	count := func() int { l, _ := os.ReadDir("/proc/self/fd"); return len(l) }
	b := arc(ent("a", S_ISREG, 1, 1, strings.Repeat("x", 5000)))
	before := count()
	for i := 0; i < 20; i++ {
		assert.Error(t, Extract(bytes.NewReader(b[:1000]), t.TempDir()))
	}
	assert.LessOrEqual(t, count(), before)
}

func TestDefectStrippedSize(t *testing.T) {
	r := NewReaderWithSizes(strings.NewReader("07070X00000000  foo "), []int64{3})
	h, err := r.Next()
	require.NoError(t, err)
	assert.Equal(t, int64(3), h.Filesize64())
}
