package main

import (
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/google/go-containerregistry/pkg/name"

	"github.com/datawire/ocibuild/pkg/dockerutil"
	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/verifmc/ltar"
	"github.com/datawire/ocibuild/verifmc/mc"
)

var errInnermost = errors.New("innermost failed")

// nestedInspections is a program that uses images one inside of the other, and reports on them line by line.
//     nested {ok|fail} IMAGEFILE...
func nestedInspections(how string, files []string) {
	var level func(files []string) error
	level = func(files []string) error {
		if len(files) == 0 {
			if how == "fail" {
				return errInnermost
			}
			return nil
		}
		img, err := fsutil.OpenImage(files[0])
		if err != nil {
			return err
		}
		return dockerutil.WithImage(context.Background(), "inspect", img, func(_ context.Context, tag name.Tag) error {
			fmt.Println("tag", tag.String())
			err := level(files[1:])
			if _, serr := os.Stat(filepath.Join(os.Getenv("DOCKER_STATE"), "images", hex.EncodeToString([]byte(tag.String())))); serr != nil {
				fmt.Println("gone", tag.String())
			}
			return err
		})
	}
	switch err := level(files); {
	case err == nil:
		fmt.Println("ok")
	case errors.Is(err, errInnermost):
		fmt.Println("failed")
	default:
		fmt.Println("error", err)
	}
}

func c29nested(t *mc.T) {
	t.Section("nested", "up to 5 (8) images in use by one process at the same time, whose innermost use succeeds or fails")
	for n := 1; n <= t.Pick(5, 8); n++ {
		for _, how := range []string{"ok", "fail"} {
			n, how := n, how
			t.Case(func() string { return fmt.Sprintf("%d images, %s", n, how) }, func(c *mc.C) {
				w := newWorld()
				defer w.close()
				w.putImage("other:tag")
				args := []string{"nested", how}
				for i := 0; i < n; i++ {
					w.image(fmt.Sprintf("img%d.tar", i), [][]ltar.Ent{}, fmt.Sprintf(`{"Env":["N=%d"]}`, i))
					args = append(args, fmt.Sprintf("img%d.tar", i))
				}
				o := w.selfRun(args...)
				want := map[string]string{"ok": "ok", "fail": "failed"}[how]
				tags := map[string]bool{}
				last := ""
				for _, l := range strings.Split(strings.TrimSpace(o.stdout), "\n") {
					last = l
					if strings.HasPrefix(l, "tag ") {
						tags[l] = true
					}
					if strings.HasPrefix(l, "gone ") {
						c.Failf("an image was removed while it was in use: %s", l)
					}
				}
				if o.rc != 0 || last != want {
					c.Failf("ends with %q (status %d), want %q\n%s", last, o.rc, want, o.stderr)
				}
				if len(tags) != n {
					c.Failf("%d images in use at the same time had %d tags", n, len(tags))
				}
				if im := w.images(); len(im) != 1 || im[0] != "other:tag" {
					c.Failf("left images %q", im)
				}
				c.Transitions(len(w.calls()))
				c.Outcome(fmt.Sprint(n, how))
			})
		}
	}
}
