KEY="err pool chain"
F="gogenerics/gconstraints/errors.go"
P="gogenerics/gcontainers/gpool/syncpool.go"
EDITS=[
(F,'''	err atomic.Value // errorHolder
''','''	err atomic.Pointer[errorHolder]
'''),
(F,'''		ae.err.Store(errorHolder{err: err})
''','''		ae.err.Store(&errorHolder{err: err})
'''),
(F,'''		return v.(errorHolder).err
''','''		return v.err
'''),
(P,'''type Pool[T any] struct {
	pool sync.Pool
}
''','''type Pool[T any] struct {
	sp pool
}

type pool = sync.Pool

func constructor[T any](fn func() T) func() any {
	return func() any { return fn() }
}
'''),
(P,'''		pool: sync.Pool{New: func() any { return fn() }},
''','''		sp: pool{New: constructor(fn)},
'''),
(P,'''	return p.pool.Get().(T)
''','''	x, _ := p.sp.Get().(T)
	return x
'''),
(P,'''func (p *Pool[T]) Put(x T) {
	p.pool.Put(x)''','''func (p *Pool[T]) Put(x T) {
	put := p.sp.Put
	put(x)'''),
]
