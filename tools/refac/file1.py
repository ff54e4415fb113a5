KEY="file"
F="library/cachex/file.go"
EDITS=[
(F,'''	content, err := os.ReadFile(fp)
	if err != nil {
		var emp V
		if os.IsNotExist(err) {
			return emp, false, nil
		}
		return emp, false, err
	}
''','''	var emp V
	content, err := slurp(fp)
	switch {
	case err == nil:
	case errors.Is(err, fs.ErrNotExist):
		return emp, false, nil
	default:
		return emp, false, err
	}
'''),
(F,'''		_ = os.Remove(fp)
		var emp V
		return emp, false, err
	}
	if item.Alive() {
		return item.Data, true, nil
	}
	_ = os.Remove(fp)
	var emp V
	return emp, false, err
}
''','''		_ = os.Remove(fp)
		return emp, false, err
	}
	if !item.Alive() {
		_ = os.Remove(fp)
		return emp, false, nil
	}
	return item.Data, true, nil
}

func slurp(name string) ([]byte, error) {
	f, err := os.Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}
'''),
(F,'''	"fmt"
	"io/fs"
''','''	"fmt"
	"io"
	"io/fs"
'''),
(F,'''	_, err = os.Stat(dir)
	if err != nil && os.IsNotExist(err) {
		_ = os.MkdirAll(dir, 0777)
	}
	return os.WriteFile(fp, content, 0666)
''','''	if _, err = os.Stat(dir); errors.Is(err, os.ErrNotExist) {
		_ = os.MkdirAll(dir, os.ModePerm)
	}
	return os.WriteFile(fp, content, 0o666)
'''),
(F,'''	for _, k := range keys {
		fp := f.getFilePath(k)
		f.mux.Lock()
		err := os.Remove(fp)
		f.mux.Unlock()
		if err == nil || os.IsNotExist(err) {
			continue
		}
		errs = append(errs, err)
	}
	if len(errs) == 0 {
		return nil
	}
	return errors.Join(errs...)
}
''','''	for i := range keys {
		if err := f.removeKey(keys[i]); err != nil {
			errs = append(errs, err)
		}
	}
	return errors.Join(errs...)
}

func (f *FileStore[K, V]) removeKey(k K) error {
	fp := f.getFilePath(k)
	f.mux.Lock()
	defer f.mux.Unlock()
	if err := os.Remove(fp); !errors.Is(err, fs.ErrNotExist) {
		return err
	}
	return nil
}
'''),
(F,'''	go func() {
		defer func() {
			f.lastGC.Store(time.Now().UnixNano())
			f.gcStatus.Store(false)
			_ = recover()
		}()
		f.scanExpire()
	}()
}
''','''	go f.clean()
}

func (f *FileStore[K, V]) clean() {
	defer func() { _ = recover() }()
	defer f.gcStatus.Store(false)
	defer func() { f.lastGC.Store(time.Now().UnixNano()) }()
	f.scanExpire()
}
'''),
(F,'''	str := fmt.Sprintf("%#v", key) // unlike %v, it is different for different keys
	h := md5.New()
	h.Write([]byte(str))
	s := hex.EncodeToString(h.Sum(nil))
''','''	sum := md5.Sum([]byte(fmt.Sprintf("%#v", key))) // unlike %v, it is different for different keys
	s := hex.EncodeToString(sum[:])
'''),
]
