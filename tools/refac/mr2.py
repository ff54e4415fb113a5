KEY="mr"
F="gogenerics/gconcurrent/mr/mr.go"
# semaphore as a counter with a condition variable instead of a channel would change the select; here: struct of channels, errors by atomic.Value, mutex instead of once
EDITS=[
(F,'''	once := new(sync.Once)
	return func(err error) {
		once.Do(func() {
			fn(err)
		})
	}
''','''	var (
		mu   sync.Mutex
		used bool
	)
	return func(err error) {
		mu.Lock()
		defer mu.Unlock()
		if !used {
			defer func() { used = true }()
			fn(err)
		}
	}
'''),
(F,'''	oc.once.Do(func() {
		select {
		case oc.channel <- val:
		case <-oc.done:
		}
	})
''','''	oc.once.Do(oc.send(val))
'''),
(F,'''// write passes on the first value.''','''func (oc *onceChan) send(val any) func() {
	return func() {
		var ch chan<- any = oc.channel
		select {
		case <-oc.done:
		case ch <- val:
		}
	}
}

// write passes on the first value.'''),
(F,'''	var wg sync.WaitGroup
	defer func() {
		wg.Wait()
		close(mCtx.collector)
		drain(mCtx.source)
	}()
''','''	wg := &sync.WaitGroup{}
	defer mCtx.end(wg.Wait)
'''),
(F,'''func executeMappers[T, U any]''','''func (c mapperContext[T, U]) end(wait func()) {
	wait()
	close(c.collector)
	drain(c.source)
}

func executeMappers[T, U any]'''),
(F,'''			go func() {
				defer func() {
					if r := recover(); r != nil {
						atomic.AddInt32(&failed, 1)
						mCtx.panicChan.write(r)
					}
					wg.Done()
					<-pool
				}()

				mCtx.mapper(item, writer)
			}()
''','''			go func(it T) {
				defer func() { <-pool }()
				defer wg.Done()
				defer func() {
					r := recover()
					if r == nil {
						return
					}
					atomic.StoreInt32(&failed, 1)
					mCtx.panicChan.write(r)
				}()

				mCtx.mapper(it, writer)
			}(item)
'''),
(F,'''	case v := <-output:
		written = true
		if e := retErr.Load(); e != nil {
			err = e
		} else {
			val = v
		}
	case <-done:
		if e := retErr.Load(); e != nil {
			err = e
		} else if options.ctx.Err() != nil {
			err = context.DeadlineExceeded
		} else {
			err = noOutput
		}
	}
''','''	case v, ok := <-output:
		written = ok
		if err = retErr.Load(); err == nil {
			val = v
		}
	case <-done:
		switch e := retErr.Load(); {
		case e != nil:
			err = e
		case options.ctx.Err() != nil:
			err = context.DeadlineExceeded
		default:
			err = noOutput
		}
	}
'''),
]
