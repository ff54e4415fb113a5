KEY="file"
F="library/cachex/file.go"
# Walk instead of WalkDir, an RWMutex, OpenFile and Write, MGet without per-key gc, gc time in a helper
EDITS=[
(F,'''	_ = filepath.WalkDir(f.Dir, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() || !strings.HasSuffix(path, cacheFileExt) {
			return nil
		}
		_, _, _ = f.readFile(path)
		return nil
	})
''','''	var paths []string
	_ = filepath.WalkDir(f.Dir, func(path string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() && filepath.Ext(path) == cacheFileExt {
			paths = append(paths, path)
		}
		return nil
	})
	for _, p := range paths {
		_, _, _ = f.readFile(p)
	}
'''),
(F,'''	return os.WriteFile(fp, content, 0666)
''','''	out, err := os.OpenFile(fp, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
	if err != nil {
		return err
	}
	_, err = out.Write(content)
	if e := out.Close(); err == nil {
		err = e
	}
	return err
'''),
(F,'''	mux sync.Mutex
''','''	mux sync.RWMutex
'''),
(F,'''	for idx, key := range keys {
		val, st, err := f.Get(ctx, key)
		if err != nil {
			return nil, nil, err
		}
		values[idx] = val
		status[idx] = st
	}
''','''	for idx, key := range keys {
		var err error
		if values[idx], status[idx], err = f.readFile(f.getFilePath(key)); err != nil {
			return nil, nil, err
		}
	}
'''),
(F,'''	if time.Now().UnixNano()-f.lastGC.Load() < int64(cycle) {
		return
	}
	if !f.gcStatus.CompareAndSwap(false, true) {
		return
	}
	if time.Now().UnixNano()-f.lastGC.Load() < int64(cycle) {
''','''	early := func() bool { return time.Now().UnixNano()-f.lastGC.Load() < int64(cycle) }
	if early() || !f.gcStatus.CompareAndSwap(false, true) {
		return
	}
	if early() {
'''),
(F,'''	var lastErr error
	var errTotal int
	_ = filepath.WalkDir(''','''	var lastErr error
	errTotal := 0
	_ = filepath.WalkDir('''),
]
