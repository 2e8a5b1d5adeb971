package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
)

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "stand-in:", err)
		os.Exit(3)
	}
}

// fakeGo is a stand-in for the Go toolchain: `go build ... -o DIR ... -- PKGS...` puts the files of
// $FAKEGO_FILES in to DIR.
func fakeGo() {
	out := ""
	for i, a := range os.Args {
		if a == "-o" && i+1 < len(os.Args) {
			out = os.Args[i+1]
		}
		if a == "fail" {
			fmt.Fprintln(os.Stderr, "package fail: does not compile")
			os.Exit(1)
		}
	}
	files, err := ioutil.ReadDir(os.Getenv("FAKEGO_FILES"))
	die(err)
	for _, f := range files {
		bs, err := ioutil.ReadFile(filepath.Join(os.Getenv("FAKEGO_FILES"), f.Name()))
		die(err)
		die(ioutil.WriteFile(filepath.Join(out, f.Name()), bs, f.Mode().Perm()))
		die(os.Chmod(filepath.Join(out, f.Name()), f.Mode().Perm()))
	}
}

// fakeCompiler is a stand-in for compileall.
func fakeCompiler() {
	die(filepath.Walk(os.Args[len(os.Args)-1], func(p string, fi os.FileInfo, err error) error {
		if err != nil || !strings.HasSuffix(p, ".py") {
			return err
		}
		d := filepath.Join(filepath.Dir(p), "__pycache__")
		if err := os.MkdirAll(d, 0o755); err != nil {
			return err
		}
		return ioutil.WriteFile(filepath.Join(d, strings.TrimSuffix(filepath.Base(p), ".py")+".cpython-39.pyc"), []byte("compiled "+fi.Name()), 0o644)
	}))
}

// fakePython is a stand-in for an interpreter that is being inspected.
func fakePython() {
	bs, err := ioutil.ReadFile(os.Getenv("FAKEPYTHON_INFO"))
	die(err)
	_, err = os.Stdout.Write(bs)
	die(err)
}
