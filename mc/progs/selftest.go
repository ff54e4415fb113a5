package progs

import (
	"context"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"verif/rt"
)

// SelfTests are programs with known behaviour.
func SelfTests() []rt.Prog {
	return []rt.Prog{
		{Name: "lost update", Broken: "x", Run: func() {
			var n atomic.Int64
			inc := func() { n.Store(n.Load() + 1) }
			rt.Par(inc, inc)
			if n.Load() != 2 {
				rt.Fail("x", "n is %d", n.Load())
			}
		}},
		{Name: "atomic update", Run: func() {
			var n atomic.Int64
			inc := func() { n.Add(1) }
			rt.Par(inc, inc, inc)
			if n.Load() != 3 {
				rt.Fail("x", "n is %d", n.Load())
			}
			rt.Outcome("%d", n.Load())
		}},
		{Name: "race", Broken: "data race", Run: func() {
			n := 0
			rt.Par(func() { n++ }, func() { n++ })
		}},
		{Name: "race behind unrelated operations", Broken: "data race", Run: func() {
			n := 0
			var a, b sync.Mutex
			rt.Par(func() { a.Lock(); n++; a.Unlock() }, func() { b.Lock(); n++; b.Unlock() })
		}},
		{Name: "race only in some schedules", Broken: "data race", Run: func() {
			n := 0
			var f atomic.Bool
			rt.Par(func() { f.Store(true); n++ }, func() {
				if !f.Load() {
					n++
				}
			})
		}},
		{Name: "no race with mutex", Run: func() {
			n := 0
			var a sync.Mutex
			f := func() { a.Lock(); n++; a.Unlock() }
			rt.Par(f, f, f)
			rt.Outcome("%d", n)
		}},
		{Name: "no race with flag", Run: func() {
			n := 0
			var f atomic.Bool
			rt.Par(func() { n++; f.Store(true) }, func() {
				if f.Load() {
					n++
				}
			})
			rt.Outcome("%d", n)
		}},
		{Name: "no race with channels", Run: func() {
			n := 0
			c := make(chan int)
			d := make(chan struct{}, 1)
			go func() { n++; c <- 1; <-d; n++; close(c) }()
			<-c
			n++
			d <- struct{}{}
			<-c
			n++
			rt.Outcome("%d", n)
		}},
		{Name: "buffered channel does not order the sender after the receiver", Broken: "data race", Run: func() {
			n := 0
			c := make(chan int, 1)
			rt.Par(func() { c <- 1; n++ }, func() { n++; <-c })
		}},
		{Name: "unbuffered channel orders the sender after the receiver", Run: func() {
			n := 0
			c := make(chan int)
			rt.Par(func() { c <- 1; n++ }, func() { n++; <-c })
		}},
		{Name: "deadlock", Broken: "deadlock", Run: func() {
			var a, b sync.Mutex
			rt.Par(func() { a.Lock(); b.Lock(); b.Unlock(); a.Unlock() }, func() { b.Lock(); a.Lock(); a.Unlock(); b.Unlock() })
		}},
		{Name: "recursive read lock", Broken: "deadlock", Run: func() {
			var a sync.RWMutex
			rt.Par(func() { a.RLock(); a.RLock(); a.RUnlock(); a.RUnlock() }, func() { a.Lock(); a.Unlock() })
		}},
		{Name: "leak", Broken: "leak", Run: func() {
			c := make(chan int)
			go func() { c <- 1 }()
			select {
			case <-c:
			default:
			}
		}},
		{Name: "panic", Broken: "panic", Run: func() {
			c := make(chan int)
			rt.Par(func() { close(c) }, func() {
				select {
				case c <- 1:
				default:
				}
			})
		}},
		{Name: "recovered panic", Run: func() {
			c := make(chan int)
			rt.Par(func() { close(c) }, func() {
				defer func() { rt.Outcome("%v", recover()) }()
				select {
				case c <- 1:
				default:
				}
			})
		}},
		{Name: "select", Run: func() {
			a, b := make(chan int, 1), make(chan int, 1)
			go func() { a <- 1 }()
			go func() { b <- 2 }()
			s := ""
			for i := 0; i < 2; i++ {
				select {
				case v := <-a:
					s += fmt.Sprint(v)
				case v, ok := <-b:
					s += fmt.Sprint(v, ok)
				}
			}
			rt.Outcome("%s", s)
		}},
		{Name: "three by two", Run: func() {
			var n atomic.Int64
			s := [3]string{}
			f := func(i int) func() {
				return func() { s[i] += fmt.Sprint(n.Add(1)); s[i] += fmt.Sprint(n.Add(1)) }
			}
			rt.Par(f(0), f(1), f(2))
			rt.Outcome("%v", s)
		}},
		{Name: "reads commute", Run: func() {
			var n, m atomic.Int64
			f := func() { n.Load(); m.Load() }
			rt.Par(f, f, f, f)
		}},
		{Name: "independent threads", Run: func() {
			var n [4]atomic.Int64
			f := func(i int) func() { return func() { n[i].Add(1); n[i].Add(1) } }
			rt.Par(f(0), f(1), f(2), f(3))
		}},
		{Name: "philosophers", Broken: "deadlock", Run: func() {
			var f [3]sync.Mutex
			g := func(i int) func() {
				return func() { f[i].Lock(); f[(i+1)%3].Lock(); f[(i+1)%3].Unlock(); f[i].Unlock() }
			}
			rt.Par(g(0), g(1), g(2))
		}},
		{Name: "ordered philosophers", Run: func() {
			var f [4]sync.Mutex
			g := func(i int) func() {
				return func() {
					a, b := i, (i+1)%4
					if a > b {
						a, b = b, a
					}
					f[a].Lock()
					f[b].Lock()
					f[b].Unlock()
					f[a].Unlock()
				}
			}
			rt.Par(g(0), g(1), g(2), g(3))
		}},
		{Name: "wait group", Run: func() {
			var wg sync.WaitGroup
			var n int64
			for i := 0; i < 3; i++ {
				wg.Add(1)
				go func() { defer wg.Done(); atomic.AddInt64(&n, 1) }()
			}
			wg.Wait()
			rt.Outcome("%d", n)
		}},
		{Name: "once", Run: func() {
			var o sync.Once
			n := 0
			f := func() { o.Do(func() { n++ }); rt.Outcome("%d", n) }
			rt.Par(f, f, f)
		}},
		{Name: "cond", Run: func() {
			var m sync.Mutex
			c := sync.NewCond(&m)
			ready := false
			rt.Par(func() { m.Lock(); ready = true; c.Broadcast(); m.Unlock() }, func() {
				m.Lock()
				for !ready {
					c.Wait()
				}
				m.Unlock()
			})
		}},
		{Name: "lost wakeup", Broken: "deadlock", Run: func() {
			var m sync.Mutex
			c := sync.NewCond(&m)
			rt.Par(func() { c.Signal() }, func() { m.Lock(); c.Wait(); m.Unlock() })
		}},
		{Name: "timer and channel", Run: func() {
			c := make(chan int)
			go func() {
				select {
				case c <- 1:
				case <-time.After(time.Second):
				}
			}()
			select {
			case <-c:
				rt.Outcome("c")
			case <-time.After(2 * time.Second):
				rt.Outcome("t")
			}
		}},
		{Name: "context", Run: func() {
			ctx, cancel := context.WithCancel(context.Background())
			d, cancel2 := context.WithTimeout(ctx, time.Second)
			defer cancel2()
			go cancel()
			<-d.Done()
			rt.Outcome("%v %v", d.Err(), ctx.Err())
		}},
		{Name: "map orders", MapOrders: true, Run: func() {
			m := map[int]int{1: 1, 2: 2, 3: 3}
			s := ""
			for k := range m {
				s += fmt.Sprint(k)
			}
			rt.Outcome("%s", s)
		}},
	}
}
