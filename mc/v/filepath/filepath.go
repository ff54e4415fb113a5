// Package filepath has the names of the standard package that touch files, on the file system in memory.
package filepath

import (
	"io/fs"
	"path/filepath"
	"sort"

	"verif/v/os"
)

func WalkDir(root string, fn fs.WalkDirFunc) error {
	info, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(info), fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walkDir(path string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(path, d, nil); err != nil || !d.IsDir() {
		if err == filepath.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	es, err := os.ReadDir(path)
	if err != nil {
		if err = fn(path, d, err); err != nil {
			if err == filepath.SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, e := range es {
		if err := walkDir(filepath.Join(path, e.Name()), e, fn); err != nil {
			if err == filepath.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func Walk(root string, fn filepath.WalkFunc) error {
	info, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, info, fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walk(path string, info fs.FileInfo, fn filepath.WalkFunc) error {
	if !info.IsDir() {
		return fn(path, info, nil)
	}
	es, err := os.ReadDir(path)
	err1 := fn(path, info, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, e := range es {
		name := filepath.Join(path, e.Name())
		info, err := os.Lstat(name)
		if err != nil {
			if err := fn(name, info, err); err != nil && err != filepath.SkipDir {
				return err
			}
		} else if err = walk(name, info, fn); err != nil {
			if !info.IsDir() || err != filepath.SkipDir {
				return err
			}
		}
	}
	return nil
}

func Glob(pattern string) (matches []string, err error) {
	if _, err := filepath.Match(pattern, ""); err != nil {
		return nil, err
	}
	dir, file := filepath.Split(pattern)
	dir = filepath.Clean(dir)
	dirs := []string{dir}
	if dir != "." && dir != "/" {
		if dirs, err = Glob(dir); err != nil {
			return nil, err
		}
	}
	for _, d := range dirs {
		es, err := os.ReadDir(d)
		if err != nil {
			continue
		}
		for _, e := range es {
			if ok, _ := filepath.Match(file, e.Name()); ok {
				matches = append(matches, filepath.Join(d, e.Name()))
			}
		}
	}
	sort.Strings(matches)
	return matches, nil
}

func EvalSymlinks(path string) (string, error) {
	if _, err := os.Lstat(path); err != nil {
		return "", err
	}
	return filepath.Clean(path), nil
}

func Abs(path string) (string, error) {
	if filepath.IsAbs(path) {
		return filepath.Clean(path), nil
	}
	return filepath.Join("/", path), nil
}
