# a fixed set of workers instead of a goroutine per item
KEY="mr"
F="gogenerics/gconcurrent/mr/mr.go"
EDITS=[
(F,'''	var failed int32
	pool := make(chan struct{}, mCtx.workers)
	writer := newGuardedWriter(mCtx.ctx, mCtx.collector, mCtx.doneChan)
	for atomic.LoadInt32(&failed) == 0 {
		select {
		case <-mCtx.ctx.Done():
			return
		case <-mCtx.doneChan:
			return
		case pool <- struct{}{}:
			item, ok := <-mCtx.source
			if !ok {
				<-pool
				return
			}

			wg.Add(1)
			go func() {
				defer func() {
					if r := recover(); r != nil {
						atomic.AddInt32(&failed, 1)
						mCtx.panicChan.write(r)
					}
					wg.Done()
					<-pool
				}()

				mCtx.mapper(item, writer)
			}()
		}
	}
}
''','''	var failed atomic.Bool
	writer := newGuardedWriter(mCtx.ctx, mCtx.collector, mCtx.doneChan)
	worker := func() {
		defer wg.Done()
		defer func() {
			if r := recover(); r != nil {
				failed.Store(true)
				mCtx.panicChan.write(r)
			}
		}()
		for !failed.Load() {
			select {
			case <-mCtx.ctx.Done():
				return
			case <-mCtx.doneChan:
				return
			case item, ok := <-mCtx.source:
				if !ok {
					return
				}
				mCtx.mapper(item, writer)
			}
		}
	}
	for i := 0; i < mCtx.workers; i++ {
		wg.Add(1)
		go worker()
	}
}
'''),
]
