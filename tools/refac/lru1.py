KEY="lru"
F="library/cachex/lrucache.go"
EDITS=[
(F,'''	mux     sync.Mutex
''','''	sync.RWMutex
'''),
(F,'''	lc.mux.Lock()
	defer lc.mux.Unlock()

	val, ok := lc.getOne(key)
	return val, ok, nil
''','''	var (
		val V
		ok  bool
	)
	lc.locked(func() { val, ok = lc.getOne(key) })
	return val, ok, nil
'''),
(F,'''func (lc *LRUCacheV2[K, V]) getOne(''','''func (lc *LRUCacheV2[K, V]) locked(f func()) {
	var l sync.Locker = lc
	l.Lock()
	defer l.Unlock()
	f()
}

func (lc *LRUCacheV2[K, V]) drop(key any, el *list.Element) {
	lc.lruList.Remove(el)
	delete(lc.lruMap, key)
}

func (lc *LRUCacheV2[K, V]) getOne('''),
(F,'''	lc.mux.Lock()
	defer lc.mux.Unlock()
	values := make''','''	lc.Lock()
	defer lc.Unlock()
	values := make'''),
(F,'''	lc.mux.Lock()
	defer lc.mux.Unlock()

	lc.doSet(key, value, ttl)
''','''	lc.Lock()
	defer lc.Unlock()

	lc.doSet(key, value, ttl)
'''),
(F,'''	lc.mux.Lock()
	defer lc.mux.Unlock()
	for key, val := range kvs {
		lc.doSet(key, val, ttl)
	}
''','''	lc.locked(func() {
		for key := range kvs {
			lc.doSet(key, kvs[key], ttl)
		}
	})
'''),
(F,'''	lc.mux.Lock()
	defer lc.mux.Unlock()

	for _, key := range keys {
		if v, ok := lc.lruMap[key]; ok {
			delete(lc.lruMap, key)
			lc.lruList.Remove(v.el)
		}
	}
''','''	lc.Lock()
	defer lc.Unlock()

	for i := 0; i < len(keys); i++ {
		v, ok := lc.lruMap[keys[i]]
		if !ok {
			continue
		}
		lc.drop(keys[i], v.el)
	}
'''),
(F,'''	for lc.lruList.Len() > lc.caption {
		last := lc.lruList.Back()
		delete(lc.lruMap, last.Value)
		lc.lruList.Remove(last)
	}
''','''	for last := lc.lruList.Back(); lc.lruList.Len() > lc.caption; last = lc.lruList.Back() {
		lc.drop(last.Value, last)
	}
'''),
(F,'''	if tmp.expireTime.Before(time.Now()) {
''','''	if now := time.Now(); now.After(tmp.expireTime) {
'''),
]
