KEY="mr"
F="gogenerics/gconcurrent/mr/mr.go"
EDITS=[
(F,'''	for {
		select {
		case v := <-panicChan.channel:
			panic(v)
		case _, ok := <-collector:
			if !ok {
				return
			}
		}
	}
}
''','''	if v, panicked := waitFor(collector, panicChan.channel); panicked {
		panic(v)
	}
}

type signal = struct{}

// waitFor reads until the first channel is closed, or returns what came through the second.
func waitFor[A, B any](c <-chan A, p <-chan B) (b B, got bool) {
loop:
	for {
		select {
		case b, got = <-p:
			break loop
		case _, ok := <-c:
			if ok {
				continue loop
			}
			return
		}
	}
	return b, true
}
'''),
(F,'''	finish := func() {
		closeOnce.Do(func() {
			close(done)
		})
	}
''','''	closeDone := func() { close(done) }
	finish := func() { closeOnce.Do(closeDone) }
'''),
(F,'''	go func() {
		defer func() {
			drain(collector)
			if r := recover(); r != nil {
				panicChan.write(r)
			}
			finish()
		}()

		reducer(collector, writer, cancel)
	}()
''','''	go runReducer(reducer, collector, writer, cancel, panicChan, finish)
'''),
(F,'''// MapReduceVoid maps all elements generated from given generate,
''','''func runReducer[U, V any](reducer ReducerFunc[U, V], collector chan U, writer guardedWriter[V], cancel func(error), oc *onceChan, finish func()) {
	defer finish()
	defer func() {
		drain(collector)
		if r := recover(); r != nil {
			oc.write(r)
		}
	}()

	reducer(collector, writer, cancel)
}

// MapReduceVoid maps all elements generated from given generate,
'''),
(F,'''	// drain the channel
	for range channel {
	}

''','''	for {
		if _, open := <-channel; !open {
			break
		}
	}
'''),
(F,'''	var failed int32
	pool := make(chan struct{}, mCtx.workers)
''','''	var failed atomic.Bool
	pool := make(chan signal, mCtx.workers)
'''),
(F,'''	for atomic.LoadInt32(&failed) == 0 {
''','''	for !failed.Load() {
'''),
(F,'''						atomic.AddInt32(&failed, 1)
''','''						failed.Store(true)
'''),
(F,'''	done <-chan struct{}) guardedWriter[T] {
	return guardedWriter[T]{
		ctx:     ctx,
		channel: channel,
		done:    done,
	}
}''' if False else '''func (gw guardedWriter[T]) Write(v T) {
	select {
	case <-gw.ctx.Done():
		return
	case <-gw.done:
		return
	default:
	}

	select {''','''func (gw guardedWriter[T]) over() bool {
	select {
	case <-gw.ctx.Done():
	case <-gw.done:
	default:
		return false
	}
	return true
}

func (gw guardedWriter[T]) Write(v T) {
	if gw.over() {
		return
	}

	select {'''),
]
