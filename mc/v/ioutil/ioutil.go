// Package ioutil has the names of the standard package that touch files, on the file system in memory.
package ioutil

import (
	"io/fs"

	"verif/v/os"
)

func ReadFile(name string) ([]byte, error) { return os.ReadFile(name) }
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return os.WriteFile(name, data, perm)
}
func TempFile(dir, pattern string) (*os.File, error) { return os.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)    { return os.MkdirTemp(dir, pattern) }
func ReadDir(name string) ([]fs.FileInfo, error) {
	es, err := os.ReadDir(name)
	if err != nil {
		return nil, err
	}
	var is []fs.FileInfo
	for _, e := range es {
		i, err := e.Info()
		if err != nil {
			return nil, err
		}
		is = append(is, i)
	}
	return is, nil
}
