KEY="chain"
F="library/cachex/cache.go"
EDITS=[
(F,'''	if len(caches) == 0 {
		return
	}
	for _, item := range caches {
		_ = item.Cache.Set(ctx, key, value, item.TTL)
	}
''','''	for i := range caches {
		item := caches[i]
		_ = item.Cache.Set(ctx, key, value, item.TTL)
	}
'''),
(F,'''	var errs []error
	for _, item := range c.Caches {
		err := item.Cache.Delete(ctx, keys...)
		if err != nil {
			errs = append(errs, err)
		}
	}
	if len(errs) == 0 {
		return nil
	}
	return errors.Join(errs...)
''','''	errs := make([]error, len(c.Caches))
	for i, item := range c.Caches {
		errs[i] = item.Cache.Delete(ctx, keys...)
	}
	return errors.Join(errs...)
'''),
(F,'''	for idx := 0; idx < len(mr.keys); idx++ {
		if mr.hits[idx] {
			hit = append(hit, mr.keys[idx])
		} else {
			miss = append(miss, mr.keys[idx])
		}
	}
	return hit, miss
''','''	mr.Range(func(key K, ok bool, _ V) bool {
		if ok {
			hit = append(hit, key)
		} else {
			miss = append(miss, key)
		}
		return true
	})
	return hit, miss
'''),
]
