# reading and decoding in one pass, a walk over directories by ReadDir, per-key helper, keys of a batch in a helper
KEY="file"
F="library/cachex/file.go"
EDITS=[
(F,'''	_ = filepath.WalkDir(f.Dir, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() || !strings.HasSuffix(path, cacheFileExt) {
			return nil
		}
		_, _, _ = f.readFile(path)
		return nil
	})
''','''	f.walk(func(path string, err error) {
		if err == nil {
			_, _, _ = f.readFile(path)
		}
	})
'''),
(F,'''	_ = filepath.WalkDir(f.Dir, func(path string, d fs.DirEntry, err error) error {
		if err != nil && !os.IsNotExist(err) { // not all files have been seen
			errTotal++
			lastErr = err
			return nil
		}
		if d != nil && !d.IsDir() && strings.HasSuffix(path, cacheFileExt) {
			e := os.Remove(path)
			if e != nil && !os.IsNotExist(e) {
				errTotal++
				lastErr = e
			}
		}
		return nil
	})
	if lastErr == nil {
''','''	f.walk(func(path string, err error) {
		if err == nil {
			err = os.Remove(path)
		}
		if err != nil && !os.IsNotExist(err) { // this one is still there, or files have not been seen
			errTotal++
			lastErr = err
		}
	})
	if errTotal == 0 {
'''),
(F,'''// Purge Delete''','''// walk calls fn for the files of the cache, and for places that could not be read.
func (f *FileStore[K, V]) walk(fn func(path string, err error)) {
	_ = filepath.WalkDir(f.Dir, func(path string, d fs.DirEntry, err error) error {
		switch {
		case err != nil:
			fn(path, err)
		case !d.IsDir() && filepath.Ext(path) == cacheFileExt:
			fn(path, nil)
		}
		return nil
	})
}

// Purge Delete'''),
(F,'''	return fi.Exp > time.Now().UnixNano()
''','''	return time.Now().UnixNano() < fi.Exp
'''),
(F,'''	var errs []error
	for k, v := range kvs {
		if err := f.Set(ctx, k, v, ttl); err != nil {
			errs = append(errs, err)
		}
	}
	return errors.Join(errs...)
''','''	var err error
	for k, v := range kvs {
		err = errors.Join(err, f.Set(ctx, k, v, ttl))
	}
	return err
'''),
(F,'''	now := time.Now().UnixNano()
	if int64(ttl) > math.MaxInt64-now {
		return math.MaxInt64
	}
	return now + int64(ttl)
''','''	now := time.Now().UnixNano()
	if end := now + int64(ttl); ttl <= 0 || end > now {
		return end
	}
	return math.MaxInt64
'''),
(F,'''	"strings"
''',''),
]
