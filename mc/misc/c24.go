package main

import (
	"bytes"
	"fmt"
	"io/fs"
	"os/exec"
	"strconv"
	"strings"

	"github.com/datawire/ocibuild/pkg/python"
	"github.com/datawire/ocibuild/verifmc/mc"
)

var c24 = mc.Suite{
	ID:    "C24",
	Level: "model_checking",
	Rule: "all 65536 mode values against Python's stat module and against the Linux and Go definitions; all 2^32 ZIP external attribute values; all Go modes of expressible types; all attribute constants; " +
		"non-trivial: every case",
	Assumptions: []string{
		"the character for whiteout files (0o160000), which differs between platforms in Python, is 'w'",
		"Go modes that combine several types (other than device and character device) are not covered",
	},
	Body: runC24,
}

var c24script = `
import stat
for m in range(65536):
    print(stat.filemode(m), int(stat.S_ISDIR(m)), int(stat.S_ISREG(m)), stat.S_IMODE(m), stat.S_IFMT(m))
print("--")
for n in dir(stat):
    if n.startswith("FILE_ATTRIBUTE_") or n.startswith("S_I") and isinstance(getattr(stat, n), int):
        print(n, getattr(stat, n))
`

func pythonOutput(script, input string) string {
	cmd := exec.Command("python3", "-I", "-c", script)
	cmd.Stdin = strings.NewReader(input)
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		panic(fmt.Errorf("python3: %v: %s", err, stderr.String()))
	}
	return string(out)
}

func runC24(t *mc.T) {
	halves := strings.SplitN(pythonOutput(c24script, ""), "--\n", 2)
	modes := strings.Split(strings.TrimSpace(halves[0]), "\n")
	consts := map[string]int64{}
	for _, l := range strings.Split(strings.TrimSpace(halves[1]), "\n") {
		f := strings.Fields(l)
		consts[f[0]], _ = strconv.ParseInt(f[1], 10, 64)
	}
	if len(modes) != 65536 {
		panic("python3: wrong number of lines")
	}

	goTypes := map[int]fs.FileMode{
		0o01: fs.ModeNamedPipe, 0o02: fs.ModeDevice | fs.ModeCharDevice, 0o04: fs.ModeDir, 0o06: fs.ModeDevice,
		0o10: 0, 0o12: fs.ModeSymlink, 0o14: fs.ModeSocket,
	}
	t.Section("modes", "all 65536 mode values")
	for hi := 0; hi < 256; hi++ {
		hi := hi
		t.Case(func() string { return fmt.Sprintf("modes %#o to %#o", hi<<8, hi<<8|255) }, func(c *mc.C) {
			for lo := 0; lo < 256; lo++ {
				m := hi<<8 | lo
				pm := python.StatMode(m)
				f := strings.Fields(modes[m])
				want := f[0]
				if m>>12 == 0o16 {
					want = "w" + want[1:]
				}
				if got := pm.String(); got != want {
					c.Failf("%#o: text is %q, want %q", m, got, want)
				}
				if got := pm.IsDir(); got != (f[1] == "1") {
					c.Failf("%#o: IsDir is %v", m, got)
				}
				if got := pm.IsRegular(); got != (f[2] == "1") {
					c.Failf("%#o: IsRegular is %v", m, got)
				}
				perm := fs.FileMode(m & 0o777)
				if m&0o4000 != 0 {
					perm |= fs.ModeSetuid
				}
				if m&0o2000 != 0 {
					perm |= fs.ModeSetgid
				}
				if m&0o1000 != 0 {
					perm |= fs.ModeSticky
				}
				got := pm.ToGo()
				ty, ok := goTypes[m>>12]
				if !ok {
					ty = fs.ModeIrregular
				}
				if got != ty|perm {
					c.Failf("%#o: in Go %v (%#x), want %v", m, got, uint32(got), ty|perm)
				}
				back := python.ModeFromGo(got)
				if ok && back != pm {
					c.Failf("%#o: to Go and back is %#o", m, uint16(back))
				}
				if !ok && (back&0o7777 != pm&0o7777 || goTypes[int(back>>12)] != 0 || back>>12 == 0o10) {
					c.Failf("%#o, a type that Go cannot express: to Go and back is %#o", m, uint16(back))
				}
				c.Inner(1)
			}
			c.Outcome(fmt.Sprint(hi))
		})
	}

	t.Section("frommode", "all Go modes: every expressible type x all permission bits x the bits Unix does not have")
	for k := 0; k < 16; k++ {
		k := k
		ty, ok := goTypes[k]
		if !ok {
			continue
		}
		t.Case(func() string { return fmt.Sprintf("Go type %v", ty) }, func(c *mc.C) {
			for p := 0; p < 4096; p++ {
				for _, extra := range []fs.FileMode{0, fs.ModeAppend, fs.ModeExclusive, fs.ModeTemporary, fs.ModeAppend | fs.ModeExclusive | fs.ModeTemporary} {
					gm := ty | extra | fs.FileMode(p&0o777)
					if p&0o4000 != 0 {
						gm |= fs.ModeSetuid
					}
					if p&0o2000 != 0 {
						gm |= fs.ModeSetgid
					}
					if p&0o1000 != 0 {
						gm |= fs.ModeSticky
					}
					if got := python.ModeFromGo(gm); int(got) != k<<12|p {
						c.Failf("%v (%#x): %#o, want %#o", gm, uint32(gm), uint16(got), k<<12|p)
					}
					c.Inner(1)
				}
			}
			c.Outcome(fmt.Sprint(k))
		})
	}

	t.Section("zip", "all 2^32 values of the external attributes")
	for hi := 0; hi < 1024; hi++ {
		hi := hi
		t.Case(func() string { return fmt.Sprintf("values with upper bits %#x", hi) }, func(c *mc.C) {
			n := 0
			for lo := 0; lo < 1<<22; lo++ {
				v := uint32(hi)<<22 | uint32(lo)
				ea := python.ParseZIPExternalAttributes(v)
				if uint32(ea.UNIX) != v>>16 || uint32(ea.Unused) != v>>8&0xff || uint32(ea.MSDOS) != v&0xff || ea.Raw() != v {
					c.Failf("%#x: parts %#x %#x %#x, recomposed %#x", v, uint16(ea.UNIX), ea.Unused, uint8(ea.MSDOS), ea.Raw())
					break
				}
				n++
			}
			c.Inner(n)
			c.Outcome(fmt.Sprint(hi))
		})
	}

	type k struct {
		name string
		val  int64
	}
	attr := func(n string, v python.StatFileAttribute) k { return k{"FILE_ATTRIBUTE_" + n, int64(v)} }
	mode := func(n string, v python.StatMode) k { return k{n, int64(v)} }
	dos := func(n string, v python.DOSAttribute) k { return k{"FILE_ATTRIBUTE_" + n, int64(v)} }
	all := []k{
		attr("ARCHIVE", python.FileAttributeArchive), attr("COMPRESSED", python.FileAttributeCompressed), attr("DEVICE", python.FileAttributeDevice),
		attr("DIRECTORY", python.FileAttributeDirectory), attr("ENCRYPTED", python.FileAttributeEncrypted), attr("HIDDEN", python.FileAttributeHidden),
		attr("INTEGRITY_STREAM", python.FileAttributeIntegrityStream), attr("NORMAL", python.FileAttributeNormal), attr("NOT_CONTENT_INDEXED", python.FileAttributeNotContentIndexed),
		attr("NO_SCRUB_DATA", python.FileAttributeNoScrubData), attr("OFFLINE", python.FileAttributeOffline), attr("READONLY", python.FileAttributeReadonly),
		attr("REPARSE_POINT", python.FileAttributeReparsePoint), attr("SPARSE_FILE", python.FileAttributeSparseFile), attr("SYSTEM", python.FileAttributeSystem),
		attr("TEMPORARY", python.FileAttributeTemporary), attr("VIRTUAL", python.FileAttributeVirtual),
		dos("READONLY", python.DOSReadOnly), dos("HIDDEN", python.DOSHidden), dos("SYSTEM", python.DOSSystem), dos("DIRECTORY", python.DOSDirectory), dos("ARCHIVE", python.DOSArchive),
		mode("S_IFIFO", python.ModeFmtNamedPipe), mode("S_IFCHR", python.ModeFmtCharDevice), mode("S_IFDIR", python.ModeFmtDir), mode("S_IFBLK", python.ModeFmtBlockDevice),
		mode("S_IFREG", python.ModeFmtRegular), mode("S_IFLNK", python.ModeFmtSymlink), mode("S_IFSOCK", python.ModeFmtSocket),
		mode("S_ISUID", python.ModePermSetUID), mode("S_ISGID", python.ModePermSetGID), mode("S_ISVTX", python.ModePermSticky),
		mode("S_IRUSR", python.ModePermUsrR), mode("S_IWUSR", python.ModePermUsrW), mode("S_IXUSR", python.ModePermUsrX),
		mode("S_IRGRP", python.ModePermGrpR), mode("S_IWGRP", python.ModePermGrpW), mode("S_IXGRP", python.ModePermGrpX),
		mode("S_IROTH", python.ModePermOthR), mode("S_IWOTH", python.ModePermOthW), mode("S_IXOTH", python.ModePermOthX),
	}
	t.Section("constants", "every constant that Python's stat module has too, and the two that only Windows has")
	for _, e := range all {
		e := e
		t.Case(func() string { return e.name }, func(c *mc.C) {
			want, ok := consts[e.name]
			if !ok {
				panic("python3 has no " + e.name)
			}
			if e.val != want {
				c.Failf("%s is %#x, want %#x", e.name, e.val, want)
			}
			c.Outcome(e.name)
		})
	}
	t.Case(func() string { return "RECALL_ON_OPEN, RECALL_ON_DATA_ACCESS" }, func(c *mc.C) {
		if python.FileAttributeRecallOnOpen != 0x40000 || python.FileAttributeRecallOnDataAccess != 0x400000 {
			c.Failf("RECALL_ON_OPEN is %#x, want 0x40000; RECALL_ON_DATA_ACCESS is %#x, want 0x400000", uint32(python.FileAttributeRecallOnOpen), uint32(python.FileAttributeRecallOnDataAccess))
		}
		c.Outcome("recall")
	})
	t.Section("todos", "the DOS part of every attribute value of 16 bits and of every single bit")
	t.Case(func() string { return "ToDOS" }, func(c *mc.C) {
		for v := uint64(0); v < 1<<32; v++ {
			if v >= 1<<16 && v < 1<<31 && v&(v-1) != 0 {
				v += 1<<16 - 1
				continue
			}
			if got := python.StatFileAttribute(v).ToDOS(); uint64(got) != v&0x37 {
				c.Failf("%#x: %#x", v, uint8(got))
				break
			}
			c.Inner(1)
			if v >= 1<<31 {
				break
			}
		}
		c.Outcome("todos")
	})
}
