package main

import (
	"bytes"
	"compress/flate"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"strings"
	"time"

	"github.com/datawire/ocibuild/verifmc/mc"
)

// zipDialect is how zipBytes writes archives; "" is Go's way.
var zipDialect = ""

var zipDialects = []string{"python", "utf8", "infozip", "ntfs", "descriptor", "descriptor without signature", "zip64", "comments", "shuffled"}

func dosTime(t time.Time) (date, tm uint16) {
	return uint16(t.Day() + int(t.Month())<<5 + (t.Year()-1980)<<9), uint16(t.Second()/2 + t.Minute()<<5 + t.Hour()<<11)
}

// encodeZip writes an archive by hand, as other archivers do.
func encodeZip(ms []mem, dialect string) []byte {
	var out, central bytes.Buffer
	le := binary.LittleEndian
	put := func(b *bytes.Buffer, vs ...interface{}) {
		for _, v := range vs {
			_ = binary.Write(b, le, v)
		}
	}
	var dirs [][]byte
	for _, m := range ms {
		t := m.t
		if t.IsZero() {
			t = t0
		}
		date, tm := dosTime(t)
		body := []byte(m.data)
		if m.isDir() {
			body = nil
		}
		crc, size := crc32.ChecksumIEEE(body), uint32(len(body))
		method := uint16(0)
		if m.deflate {
			method = 8
			var z bytes.Buffer
			w, _ := flate.NewWriter(&z, 9)
			_, _ = w.Write(body)
			_ = w.Close()
			body = z.Bytes()
		}
		csize := uint32(len(body))
		var flags uint16
		var local, cextra bytes.Buffer
		comment := ""
		switch dialect {
		case "utf8":
			flags |= 1 << 11
		case "infozip":
			sec := uint32(t.Unix())
			put(&local, uint16(0x5455), uint16(9), byte(3), sec, sec+99)
			put(&local, uint16(0x7875), uint16(11), byte(1), byte(4), uint32(1000), byte(4), uint32(1000))
			put(&cextra, uint16(0x5455), uint16(5), byte(3), sec)
			put(&cextra, uint16(0x7875), uint16(11), byte(1), byte(4), uint32(1000), byte(4), uint32(1000))
		case "ntfs":
			ft := uint64(t.Unix()+11644473600) * 10000000
			for _, b := range []*bytes.Buffer{&local, &cextra} {
				put(b, uint16(0x000a), uint16(32), uint32(0), uint16(1), uint16(24), ft, ft+99*10000000, ft+98*10000000)
			}
		case "descriptor", "descriptor without signature":
			if !m.isDir() {
				flags |= 1 << 3
			}
		case "zip64":
			put(&local, uint16(1), uint16(16), uint64(size), uint64(csize))
			put(&cextra, uint16(1), uint16(24), uint64(size), uint64(csize), uint64(out.Len()))
		case "comments":
			comment = "PK\x03\x04 " + m.name
		}
		off := uint32(out.Len())
		version := uint16(20)
		lcrc, lsize, lcsize := crc, size, csize
		csz, ccsz, coff := size, csize, off
		if flags&(1<<3) != 0 {
			lcrc, lsize, lcsize = 0, 0, 0
		}
		if dialect == "zip64" {
			version = 45
			lsize, lcsize, csz, ccsz, coff = 0xffffffff, 0xffffffff, 0xffffffff, 0xffffffff, 0xffffffff
		}
		put(&out, uint32(0x04034b50), version, flags, method, tm, date, lcrc, lcsize, lsize, uint16(len(m.name)), uint16(local.Len()))
		out.WriteString(m.name)
		out.Write(local.Bytes())
		out.Write(body)
		if flags&(1<<3) != 0 {
			if dialect == "descriptor" {
				put(&out, uint32(0x08074b50))
			}
			put(&out, crc, csize, size)
		}
		var d bytes.Buffer
		put(&d, uint32(0x02014b50), m.creator<<8|version, version, flags, method, tm, date, crc, ccsz, csz, uint16(len(m.name)),
			uint16(cextra.Len()), uint16(len(comment)), uint16(0), uint16(0), m.attrs, coff)
		d.WriteString(m.name)
		d.Write(cextra.Bytes())
		d.WriteString(comment)
		dirs = append(dirs, d.Bytes())
	}
	if dialect == "shuffled" {
		for i, j := 0, len(dirs)-1; i < j; i, j = i+1, j-1 {
			dirs[i], dirs[j] = dirs[j], dirs[i]
		}
	}
	for _, d := range dirs {
		central.Write(d)
	}
	start := out.Len()
	out.Write(central.Bytes())
	n, csize, coff := uint16(len(ms)), uint32(central.Len()), uint32(start)
	if dialect == "zip64" {
		end := out.Len()
		put(&out, uint32(0x06064b50), uint64(44), uint16(45), uint16(45), uint32(0), uint32(0), uint64(len(ms)), uint64(len(ms)), uint64(central.Len()), uint64(start))
		put(&out, uint32(0x07064b50), uint32(0), uint64(end), uint32(1))
		n, csize, coff = 0xffff, 0xffffffff, 0xffffffff
	}
	comment := ""
	if dialect == "comments" {
		comment = "a comment"
	}
	put(&out, uint32(0x06054b50), uint16(0), uint16(0), n, n, csize, coff, uint16(len(comment)))
	out.WriteString(comment)
	return out.Bytes()
}

// inDialect runs something with archives of the dialect. Where the dialect has no more than the time of
// MS-DOS, the members' times are made to be such.
func inDialect(d string, ms []mem, fn func(ms []mem)) {
	defer func() { zipDialect = "" }()
	zipDialect = d
	ms = append([]mem(nil), ms...)
	if d != "infozip" && d != "ntfs" {
		for i := range ms {
			if !ms[i].t.IsZero() {
				ms[i].t = time.Unix(ms[i].t.Unix()/2*2, 0).UTC()
			}
		}
	}
	fn(ms)
}

func c09containers(t *mc.T, alpha []mem) {
	opts := timeOpts()
	bag := []mem{
		file("p/a.py", "print(1)\n"), {name: "p/big", data: string(bytes.Repeat([]byte("0123456789"), 1000)), attrs: ifreg | 0o644<<16, creator: 3, deflate: true},
		exe("p/run", "#!/bin/sh\n"), dirm("p/d"), file("p/empty", ""), {name: "p/empty2", attrs: ifreg | 0o644<<16, creator: 3, deflate: true},
		file(data+"/scripts/s", "#!python\n"), file(data+"/data/etc/x", "x"), {name: "p/t", data: "t", attrs: ifreg | 0o644<<16, creator: 3, t: time.Date(2019, 7, 8, 9, 10, 11, 0, time.UTC)},
	}
	t.Section("containers", fmt.Sprintf("%d ways to write a ZIP archive x (each of %d members, and all subsets of %d members with all time options)", len(zipDialects), len(alpha), len(bag)))
	run := func(ms []mem, d string, pi int, o opt) {
		if !t.Mine() {
			return
		}
		t.Run(func() string { return fmt.Sprintf("%s scheme=%d %s: %s", d, pi, o.name, memString(ms)) }, func(c *mc.C) {
			inDialect(d, full(ms, "true"), func(w []mem) { decide(c, w, records(w, "sha256"), plats[pi], o.o, true) })
		})
	}
	for _, d := range zipDialects {
		for i, m := range alpha {
			for _, o := range opts {
				run([]mem{m}, d, i%len(plats), o)
			}
		}
		for mask := 0; mask < 1<<uint(len(bag)); mask++ {
			var ms []mem
			for i, m := range bag {
				if mask&(1<<uint(i)) != 0 {
					ms = append(ms, m)
				}
			}
			run(ms, d, mask%len(plats), opts[mask%len(opts)])
		}
	}
}

// c08containers: each tampering in each way to write the archive.
func c08containers(t *mc.T) {
	base := baseDraft(0)
	all := []tamper{{"untampered", func(*draft) {}}}
	for _, m := range base.ms {
		if !m.isDir() && !strings.HasPrefix(m.name, info+"/RECORD") {
			all = append(all, memberTampers(m)...)
		}
	}
	all = append(all, extraTampers()...)
	t.Section("containers", fmt.Sprintf("%d ways to write a ZIP archive x %d tamperings", len(zipDialects), len(all)))
	for _, dia := range zipDialects {
		for _, tm := range all {
			dia, tm := dia, tm
			t.Case(func() string { return dia + ": " + tm.name }, func(c *mc.C) {
				d := base.clone()
				tm.f(&d)
				zipDialect = dia
				defer func() { zipDialect = "" }()
				runDraft(c, d)
			})
		}
	}
}
