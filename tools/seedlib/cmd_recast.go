package main

import (
	"io/ioutil"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
)

// tool builds the command line tool in a directory that is removed afterwards.
func tool(t *testing.T) (bin, dir string) {
	dir = t.TempDir()
	bin = filepath.Join(dir, "recast-under-test")
	if out, err := exec.Command("go", "build", "-o", bin, ".").CombinedOutput(); err != nil {
		t.Fatal(string(out))
	}
	return bin, dir
}

func run(t *testing.T, bin, dir, in string, args ...string) string {
	c := exec.Command(bin, args...)
	c.Dir = dir
	c.Stdin = strings.NewReader(in)
	out, _ := c.CombinedOutput()
	return string(out)
}
