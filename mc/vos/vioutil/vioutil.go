// Package vioutil stands in for io/ioutil.
package vioutil

import (
	"io"
	"io/ioutil"
	"os"

	"verif/mc/vos"
)

var Discard = ioutil.Discard

func ReadAll(r io.Reader) ([]byte, error)               { return ioutil.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser               { return ioutil.NopCloser(r) }
func ReadFile(p string) ([]byte, error)                 { return vos.ReadFile(p) }
func WriteFile(p string, b []byte, m os.FileMode) error { return vos.WriteFile(p, b, m) }
func TempFile(dir, pattern string) (*vos.File, error)   { return vos.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)       { return ioutil.TempDir(dir, pattern) }
func ReadDir(p string) ([]os.FileInfo, error)           { return ioutil.ReadDir(p) }
