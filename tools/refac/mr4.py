# the state of a call in a struct with methods
KEY="mr"
F="gogenerics/gconcurrent/mr/mr.go"
EDITS=[
(F,'''	var closeOnce sync.Once
	// use atomic type to avoid data race
	var retErr gconstraints.AtomicError
	finish := func() {
		closeOnce.Do(func() {
			close(done)
		})
	}
	cancel := once(func(err error) {
		if err != nil {
			retErr.Set(err)
		} else {
			retErr.Set(ErrCancelWithNil)
		}

		drain(source)
		finish()
	})

	go func() {
		defer func() {
			drain(collector)
			if r := recover(); r != nil {
				panicChan.write(r)
			}
			finish()
		}()

		reducer(collector, writer, cancel)
	}()
''','''	// use atomic type to avoid data race
	var retErr gconstraints.AtomicError
	end := &ending{done: done}
	cancel := once(func(err error) {
		if err == nil {
			err = ErrCancelWithNil
		}
		retErr.Set(err)
		drain(source)
		end.finish()
	})

	go runReducer(collector, panicChan, end, func() { reducer(collector, writer, cancel) })
'''),
(F,'''// MapReduceVoid maps''','''// ending closes a channel once.
type ending struct {
	mu     sync.Mutex
	closed bool
	done   chan struct{}
}

func (e *ending) finish() {
	e.mu.Lock()
	defer e.mu.Unlock()
	if !e.closed {
		e.closed = true
		close(e.done)
	}
}

func runReducer[U any](collector <-chan U, panicChan *onceChan, end *ending, reduce func()) {
	defer end.finish()
	defer func() {
		r := recover()
		drain(collector)
		if r != nil {
			panicChan.write(r)
		}
	}()
	reduce()
}

// MapReduceVoid maps'''),
(F,'''	case <-done:
		if e := retErr.Load(); e != nil {
			err = e
		} else if options.ctx.Err() != nil {
			err = context.DeadlineExceeded
		} else {
			err = noOutput
		}
	}

	return
}
''','''	case <-done:
		err = retErr.Load()
		if err == nil {
			err = noOutput
			if options.ctx.Err() != nil {
				err = context.DeadlineExceeded
			}
		}
	}

	return val, err
}
'''),
(F,'''	for {
		select {
		case v := <-panicChan.channel:
			panic(v)
		case _, ok := <-collector:
			if !ok {
				return
			}
		}
	}
}

// MapReduce maps''','''	for open := true; open; {
		select {
		case _, open = <-collector:
		case v := <-panicChan.channel:
			panic(v)
		}
	}
}

// MapReduce maps'''),
(F,'''	select {
	case <-gw.ctx.Done():
		return
	case <-gw.done:
		return
	default:
	}

	select {
''','''	if gw.over() {
		return
	}
	select {
'''),
(F,'''func (gw guardedWriter[T]) Write(''','''func (gw guardedWriter[T]) over() bool {
	select {
	case <-gw.done:
		return true
	case <-gw.ctx.Done():
		return true
	default:
		return false
	}
}

func (gw guardedWriter[T]) Write('''),
(F,'''	options := newOptions()
	for _, opt := range opts {
		opt(options)
	}

	return options
}
''','''	options := newOptions()
	for i := range opts {
		opts[i](options)
	}
	return options
}
'''),
]
