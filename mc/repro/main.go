// Command repro explores the sources of nondeterminism of building layers (C07): the order in which maps are
// visited, the clock, the order of files in memory and on disk, and the environment.
package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/datawire/ocibuild/verifmc/mc"
)

func main() {
	switch {
	case filepath.Base(os.Args[0]) == "go":
		fakeGo()
	case len(os.Args) > 1 && os.Args[1] == "pycompile":
		fakeCompiler()
	default:
		mc.Main(c07)
	}
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "stand-in:", err)
		os.Exit(3)
	}
}

// fakeGo is a stand-in for the Go toolchain.
func fakeGo() {
	out := ""
	for i, a := range os.Args {
		if a == "-o" && i+1 < len(os.Args) {
			out = os.Args[i+1]
		}
	}
	for _, n := range []string{"prog", "tool"} {
		die(ioutil.WriteFile(filepath.Join(out, n), []byte("program "+n), 0o755))
		die(os.Chmod(filepath.Join(out, n), 0o755))
	}
}

// fakeCompiler is a stand-in for compileall that "runs at" $FAKE_MTIME.
func fakeCompiler() {
	secs, err := strconv.ParseInt(os.Getenv("FAKE_MTIME"), 10, 64)
	die(err)
	die(filepath.Walk(os.Args[len(os.Args)-1], func(p string, fi os.FileInfo, err error) error {
		if err != nil || !strings.HasSuffix(p, ".py") {
			return err
		}
		d := filepath.Join(filepath.Dir(p), "__pycache__")
		if err := os.MkdirAll(d, 0o755); err != nil {
			return err
		}
		out := filepath.Join(d, strings.TrimSuffix(filepath.Base(p), ".py")+".cpython-39.pyc")
		// (the mode is what CPython uses)
		if err := ioutil.WriteFile(out, []byte("compiled "+fi.Name()), (fi.Mode().Perm()|0o200)&0o666); err != nil {
			return err
		}
		return os.Chtimes(out, time.Unix(secs, 0), time.Unix(secs, 0))
	}))
}
