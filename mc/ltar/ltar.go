// Package ltar has the layer helpers of the checks: building layers as tar streams, parsing layers
// back, and the reference model of unpacking a layer on to a filesystem tree.
package ltar

import (
	"archive/tar"
	"bytes"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"time"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"
	ociv1tarball "github.com/google/go-containerregistry/pkg/v1/tarball"
	"github.com/google/go-containerregistry/pkg/v1/types"
)

// An Ent is one tar entry.
type Ent struct {
	Hdr  tar.Header
	Body []byte
}

// Encode writes entries as a tar stream.
func Encode(ents []Ent) ([]byte, error) {
	var buf bytes.Buffer
	w := tar.NewWriter(&buf)
	for _, e := range ents {
		h := e.Hdr
		h.Size = int64(len(e.Body))
		if err := w.WriteHeader(&h); err != nil {
			return nil, fmt.Errorf("%q: %w", h.Name, err)
		}
		if _, err := w.Write(e.Body); err != nil {
			return nil, err
		}
	}
	if err := w.Close(); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}

// MustEncode is Encode for entries that are known to be encodable.
func MustEncode(ents []Ent) []byte {
	bs, err := Encode(ents)
	if err != nil {
		panic(err)
	}
	return bs
}

// Decode reads a tar stream.
func Decode(bs []byte) ([]Ent, error) {
	r := tar.NewReader(bytes.NewReader(bs))
	var ret []Ent
	for {
		h, err := r.Next()
		if err != nil {
			if errors.Is(err, io.EOF) {
				return ret, nil
			}
			return ret, err
		}
		body, err := io.ReadAll(r)
		if err != nil {
			return ret, err
		}
		ret = append(ret, Ent{Hdr: *h, Body: body})
	}
}

// RawLayer is a minimal in-memory ociv1.Layer over an uncompressed tar stream.
type RawLayer []byte

var _ ociv1.Layer = RawLayer(nil)

func (l RawLayer) Digest() (ociv1.Hash, error)         { return ociv1.Hash{}, errors.New("unused") }
func (l RawLayer) DiffID() (ociv1.Hash, error)         { return ociv1.Hash{}, errors.New("unused") }
func (l RawLayer) Compressed() (io.ReadCloser, error)  { return nil, errors.New("unused") }
func (l RawLayer) Size() (int64, error)                { return 0, errors.New("unused") }
func (l RawLayer) MediaType() (types.MediaType, error) { return types.DockerLayer, nil }
func (l RawLayer) Uncompressed() (io.ReadCloser, error) {
	return io.NopCloser(bytes.NewReader(l)), nil
}

// FastOpts makes layer construction cheap.
var FastOpts = []ociv1tarball.LayerOption{ociv1tarball.WithCompressionLevel(0)}

// Bytes reads the uncompressed content of a layer.
func Bytes(l ociv1.Layer) ([]byte, error) {
	r, err := l.Uncompressed()
	if err != nil {
		return nil, err
	}
	bs, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	return bs, r.Close()
}

// Meta renders everything observable about an entry except its name, type, link target and content.
func Meta(h *tar.Header) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "mode=%o uid=%d gid=%d uname=%q gname=%q mtime=%s", h.Mode, h.Uid, h.Gid, h.Uname, h.Gname,
		tm(h.ModTime))
	if !h.AccessTime.IsZero() {
		fmt.Fprintf(&sb, " atime=%s", tm(h.AccessTime))
	}
	if !h.ChangeTime.IsZero() {
		fmt.Fprintf(&sb, " ctime=%s", tm(h.ChangeTime))
	}
	if h.Typeflag == tar.TypeChar || h.Typeflag == tar.TypeBlock {
		fmt.Fprintf(&sb, " dev=%d:%d", h.Devmajor, h.Devminor)
	}
	var keys []string
	for k := range h.PAXRecords {
		switch k {
		case "path", "linkpath", "size", "uid", "gid", "uname", "gname", "mtime", "atime", "ctime":
		default:
			if strings.HasPrefix(k, "GNU.sparse.") {
				continue // how the content is stored
			}
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Fprintf(&sb, " %s=%q", k, h.PAXRecords[k])
	}
	return sb.String()
}

func tm(t time.Time) string { return fmt.Sprintf("%d.%09d", t.Unix(), t.Nanosecond()) }

// Describe renders entries for humans.
func Describe(ents []Ent) string {
	var parts []string
	for _, e := range ents {
		s := fmt.Sprintf("%c %s", e.Hdr.Typeflag, e.Hdr.Name)
		if e.Hdr.Linkname != "" {
			s += "->" + e.Hdr.Linkname
		}
		parts = append(parts, s)
	}
	return "[" + strings.Join(parts, ", ") + "]"
}
