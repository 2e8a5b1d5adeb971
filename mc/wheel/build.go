package main

import (
	"archive/zip"
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"fmt"
	"hash"
	"io"
	"os"
	"path/filepath"
	"strings"
	"time"
)

// mem is one member of a wheel archive.
type mem struct {
	name    string
	data    string
	attrs   uint32 // external attributes
	creator uint16 // "made by" system
	t       time.Time
	deflate bool
}

const (
	ifreg = 0o100000 << 16
	ifdir = 0o040000 << 16
	iflnk = 0o120000 << 16
)

var t0 = time.Date(2020, 3, 4, 5, 6, 8, 0, time.UTC)

func file(name, data string) mem {
	return mem{name: name, data: data, attrs: ifreg | 0o644<<16, creator: 3}
}
func exe(name, data string) mem {
	return mem{name: name, data: data, attrs: ifreg | 0o755<<16, creator: 3}
}
func dirm(name string) mem { return mem{name: name + "/", attrs: ifdir | 0o755<<16 | 0x10, creator: 3} }

func (m mem) isDir() bool { return strings.HasSuffix(m.name, "/") }

func (m mem) String() string {
	d := m.data
	if len(d) > 24 {
		d = fmt.Sprintf("%s..(%d)", d[:24], len(d))
	}
	return fmt.Sprintf("%q=%q/%#x.%d", m.name, d, m.attrs, m.creator)
}

func memString(ms []mem) string {
	var parts []string
	for _, m := range ms {
		parts = append(parts, m.String())
	}
	return strings.Join(parts, " ")
}

func zipBytes(ms []mem) []byte {
	if zipDialect != "" {
		return encodeZip(ms, zipDialect)
	}
	var buf bytes.Buffer
	w := zip.NewWriter(&buf)
	for _, m := range ms {
		tt := m.t
		if tt.IsZero() {
			tt = t0
		}
		h := &zip.FileHeader{Name: m.name, Method: zip.Store, Modified: tt, ExternalAttrs: m.attrs, CreatorVersion: m.creator << 8}
		if m.deflate {
			h.Method = zip.Deflate
		}
		fw, err := w.CreateHeader(h)
		if err != nil {
			panic(err)
		}
		if !m.isDir() {
			if _, err := io.WriteString(fw, m.data); err != nil {
				panic(err)
			}
		}
	}
	if err := w.Close(); err != nil {
		panic(err)
	}
	return buf.Bytes()
}

var hashes = map[string]func() hash.Hash{
	"md5": md5.New, "sha1": sha1.New, "sha224": sha256.New224, "sha256": sha256.New, "sha384": sha512.New384, "sha512": sha512.New,
}

func digest(algo, data string) string {
	h := hashes[algo]()
	_, _ = io.WriteString(h, data)
	return base64.RawURLEncoding.EncodeToString(h.Sum(nil))
}

// row is one line of RECORD.
type row struct{ name, hash, size string }

func csvField(s string) string {
	if strings.ContainsAny(s, ",\"\r\n") || s == "" {
		if s == "" {
			return ""
		}
		return `"` + strings.ReplaceAll(s, `"`, `""`) + `"`
	}
	return s
}

func (r row) String() string {
	return csvField(r.name) + "," + csvField(r.hash) + "," + csvField(r.size)
}

func rowFor(m mem, algo string) row {
	return row{m.name, algo + "=" + digest(algo, m.data), fmt.Sprint(len(m.data))}
}

// The names of the metadata and data directories (variables, because C11 explores odd ones).
var (
	info = "x-1.0.dist-info"
	data = "x-1.0.data"
)

// records makes the correct RECORD rows for the members.
func records(ms []mem, algo string) []row {
	var rows []row
	for _, m := range ms {
		if m.isDir() || m.name == info+"/RECORD" || m.name == info+"/RECORD.jws" || m.name == info+"/RECORD.p7s" {
			continue
		}
		rows = append(rows, rowFor(m, algo))
	}
	return append(rows, row{info + "/RECORD", "", ""})
}

func recordText(rows []row) string {
	var sb strings.Builder
	for _, r := range rows {
		sb.WriteString(r.String() + "\n")
	}
	return sb.String()
}

func wheelMeta(purelib string) string {
	return "Wheel-Version: 1.0\nGenerator: g 1.0\nRoot-Is-Purelib: " + purelib + "\nTag: py3-none-any\n"
}

const metadataText = "Metadata-Version: 2.1\nName: x\nVersion: 1.0\n"

// full adds the metadata and a correct RECORD to the members.
func full(ms []mem, purelib string) []mem {
	out := append([]mem(nil), ms...)
	out = append(out, file(info+"/METADATA", metadataText), file(info+"/WHEEL", wheelMeta(purelib)))
	return withRecord(out)
}

func withRecord(ms []mem) []mem {
	return append(append([]mem(nil), ms...), file(info+"/RECORD", recordText(records(ms, "sha256"))))
}

var scratch = func() func() string {
	var dir string
	return func() string {
		if dir == "" {
			var err error
			if dir, err = os.MkdirTemp("", "wheel."); err != nil {
				panic(err)
			}
		}
		return dir
	}
}()

func writeWheel(bs []byte) string {
	fn := filepath.Join(scratch(), "x-1.0-py3-none-any.whl")
	if err := os.WriteFile(fn, bs, 0o600); err != nil {
		panic(err)
	}
	return fn
}
