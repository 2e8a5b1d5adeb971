package main

import (
	"bytes"
	"io"
	"net/http"
	"strconv"
	"strings"
)

// page is what the fake server answers for one URL.
type page struct {
	status   int // 0 means 200
	location string
	body     string
	failAt   int   // if fail is set: read this many bytes, then fail
	fail     error // read error of the body
	failDo   error // the request as such fails
	noLength bool
}

// site is an http.RoundTripper that serves pages by URL (without fragment) and records requests.
type site struct {
	pages    map[string]page
	requests []string
}

type body struct {
	r     io.Reader
	fail  error
	left  int
	close *int
}

func (b *body) Read(p []byte) (int, error) {
	if b.fail == nil {
		return b.r.Read(p)
	}
	if b.left == 0 {
		return 0, b.fail
	}
	if len(p) > b.left {
		p = p[:b.left]
	}
	n, err := b.r.Read(p)
	b.left -= n
	if err == io.EOF {
		err = b.fail
	}
	return n, err
}

func (b *body) Close() error { return nil }

func (s *site) RoundTrip(req *http.Request) (*http.Response, error) {
	u := *req.URL
	u.Fragment, u.RawFragment = "", ""
	key := u.String()
	s.requests = append(s.requests, key)
	pg, ok := s.pages[key]
	if !ok {
		pg = page{status: 404, body: "no such page: " + key}
	}
	if pg.failDo != nil {
		return nil, pg.failDo
	}
	if pg.status == 0 {
		pg.status = 200
	}
	h := http.Header{}
	if pg.location != "" {
		h.Set("Location", pg.location)
	}
	h.Set("Content-Type", "text/html")
	cl := int64(len(pg.body))
	if pg.noLength {
		cl = -1
	}
	return &http.Response{
		Status: strconv.Itoa(pg.status) + " " + http.StatusText(pg.status), StatusCode: pg.status,
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, Request: req, ContentLength: cl,
		Body: &body{r: bytes.NewReader([]byte(pg.body)), fail: pg.fail, left: pg.failAt},
	}, nil
}

func esc(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", `"`, "&quot;").Replace(s)
}
