package progs

import (
	"fmt"
	"math/bits"
	"slices"
	"strings"

	"github.com/miniLCT/gosb/gogenerics/gcontainers/glist"
	"github.com/miniLCT/gosb/gogenerics/gds/gskiplist"
	"github.com/miniLCT/gosb/hack/fastrand"

	"verif/core"
	"verif/rt"
)

// workSkip drives a skip list and adds up what its calls may cost.
type workSkip struct {
	w       *core.W
	l       *gskiplist.SkipList[int, int]
	sorted  []int // the keys
	oldest  []int // the keys and some deleted ones, oldest first
	up      int   // the next keys at the ends
	down    int
	turn    int
	most    int
	calls   int
	allowed int
	start   int
}

// Heights of towers. The words a list draws look random in every bit; there are several ways. (Words with a simpler
// pattern, like multiples of a number, give all calls of one kind in a periodic history low towers.)
var workWords = []struct {
	name string
	word func(i uint64) uint64
}{
	{"mixed counters", func(i uint64) uint64 { return mix(i) }},
	{"mixed counters from far away", func(i uint64) uint64 { return mix(i + 1<<40) }},
	{"mixed counters in steps", func(i uint64) uint64 { return mix(i << 7) }},
	{"mixed counters going down", func(i uint64) uint64 { return mix(-i) }},
}

// mix is splitmix64.
func mix(z uint64) uint64 {
	z = (z + 1) * 0x9e3779b97f4a7c15
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

// withWorkWords runs f while fastrand delivers the words.
func withWorkWords(kind int, f func()) {
	o64, o32, ou := fastrand.Uint64, fastrand.Uint32, fastrand.Uint
	defer func() { fastrand.Uint64, fastrand.Uint32, fastrand.Uint = o64, o32, ou }()
	var i uint64
	next := func() uint64 {
		i++
		return workWords[kind].word(i)
	}
	fastrand.Uint64 = next
	fastrand.Uint32 = func() uint32 { return uint32(next()) }
	fastrand.Uint = func() uint { return uint(next()) }
	f()
}

func newWorkSkip(w *core.W) *workSkip {
	return &workSkip{w: w, l: gskiplist.New[int, int](), start: rt.Ticks()}
}

const between = 1 << 20 // the distance of the keys at the ends

func (x *workSkip) insert(k int) {
	if i, ok := slices.BinarySearch(x.sorted, k); !ok {
		x.sorted = slices.Insert(x.sorted, i, k)
		x.oldest = append(x.oldest, k)
		x.most = max(x.most, len(x.sorted))
	}
	x.l.Insert(k, k)
}

func (x *workSkip) drop(k int) {
	if i, ok := slices.BinarySearch(x.sorted, k); ok {
		x.sorted = slices.Delete(x.sorted, i, i+1)
	}
	x.l.Delete(k)
}

// some is a key of the list, another one each time, all over the place.
func (x *workSkip) some() int {
	if len(x.sorted) == 0 {
		return 0
	}
	x.turn++
	return x.sorted[int(uint64(x.turn)*0x9e3779b97f4a7c15>>33)%len(x.sorted)]
}

// scattered is a new key somewhere in the middle.
func (x *workSkip) scattered() int {
	x.turn++
	return int(mix(uint64(x.turn))%(1<<40)) | 1
}

func (x *workSkip) first() int {
	for len(x.oldest) > 0 {
		k := x.oldest[0]
		x.oldest = x.oldest[1:]
		if _, ok := slices.BinarySearch(x.sorted, k); ok {
			return k
		}
	}
	return 0
}

func (x *workSkip) end(i int) int {
	if len(x.sorted) == 0 {
		return 0
	}
	if i < 0 {
		i += len(x.sorted)
	}
	return x.sorted[i]
}

var workSkipOps = []struct {
	name string
	do   func(x *workSkip)
}{
	{"Insert(largest)", func(x *workSkip) { x.up += between; x.insert(1<<41 + x.up) }},
	{"Insert(smallest)", func(x *workSkip) { x.down -= between; x.insert(x.down) }},
	{"Insert(between)", func(x *workSkip) { x.insert(x.scattered()) }},
	{"Insert(present)", func(x *workSkip) { x.insert(x.some()) }},
	{"Find(present)", func(x *workSkip) { x.l.Find(x.some()) }},
	{"Find(absent)", func(x *workSkip) { x.l.Find(x.some() + 1) }},
	{"FindGreaterOrEqual(absent)", func(x *workSkip) { x.l.FindGreaterOrEqual(x.scattered()) }},
	{"FindGreaterOrEqual(largest)", func(x *workSkip) { x.l.FindGreaterOrEqual(x.end(-1)) }},
	{"ChangeValue(present)", func(x *workSkip) { x.l.ChangeValue(x.some(), 0) }},
	{"Delete(oldest)", func(x *workSkip) { x.drop(x.first()) }},
	{"Delete(largest)", func(x *workSkip) { x.drop(x.end(-1)) }},
	{"Delete(smallest)", func(x *workSkip) { x.drop(x.end(0)) }},
	{"Delete(present)", func(x *workSkip) { x.drop(x.some()) }},
	{"Delete(absent)", func(x *workSkip) { x.drop(x.some() + 1) }},
}

// perSkip is what a call may take on average: more than three times what it needs.
func (x *workSkip) perSkip() int { return 12*bits.Len(uint(x.most)) + 80 }

// begin starts the counting anew, as what follows is to be judged by itself.
func (x *workSkip) begin() { x.start, x.allowed, x.calls = rt.Ticks(), 0, 0 }

func (x *workSkip) did(what string) {
	x.calls++
	x.allowed += x.perSkip()
	if n := rt.Ticks() - x.start; n > x.allowed+600 {
		x.w.Fail("%d calls have taken %d steps together, with at most %d elements: that is not a multiple of the logarithm for each; the last one is %s", x.calls, n, x.most, what)
	}
}

// constant makes the calls that take no time.
func (x *workSkip) constant() {
	var at *gskiplist.SkipListElement[int, int]
	if len(x.sorted) > 0 {
		at, _ = x.l.FindGreaterOrEqual(x.some())
	}
	for _, c := range []struct {
		name string
		do   func()
	}{
		{"GetSmallestNode", func() { x.l.GetSmallestNode() }},
		{"GetLargestNode", func() { x.l.GetLargestNode() }},
		{"GetNodeCount", func() { x.l.GetNodeCount() }},
		{"IsEmpty", func() { x.l.IsEmpty() }},
		{"Next", func() {
			if at != nil {
				x.l.Next(at)
			}
		}},
		{"Next of the last", func() {
			if len(x.sorted) > 0 {
				x.l.Next(x.l.GetLargestNode())
			}
		}},
		{"Prev", func() {
			if at != nil {
				x.l.Prev(at)
			}
		}},
		{"Prev of the first", func() {
			if len(x.sorted) > 0 {
				x.l.Prev(x.l.GetSmallestNode())
			}
		}},
	} {
		before := rt.Ticks()
		c.do()
		if n := rt.Ticks() - before; n > 60 {
			x.w.Fail("%s of a skip list of %d elements takes %d steps", c.name, len(x.sorted), n)
		}
	}
}

// workOrders are orders of n keys.
var workOrders = []struct {
	name string
	key  func(i, n int) int
}{
	{"ascending", func(i, n int) int { return i }},
	{"descending", func(i, n int) int { return n - i }},
	{"scattered", func(i, n int) int { return int(mix(uint64(i)) >> 20) }},
	{"from both ends", func(i, n int) int {
		if i%2 == 0 {
			return i
		}
		return 2*n - i
	}},
	{"from the middle", func(i, n int) int {
		if i%2 == 0 {
			return n + i
		}
		return n - i
	}},
	{"in runs of 100", func(i, n int) int { return int(mix(uint64(i/100))>>24)*100 + i%100 }},
	{"in descending runs of 100", func(i, n int) int { return int(mix(uint64(i/100))>>24)*100 - i%100 }},
}

// workSkipPasts are the ways in which a list came about before.
var workSkipPasts = []string{"nothing", "ascending", "descending", "scattered", "ascending, all but 20 deleted", "scattered, the larger half deleted", "scattered, the smaller half deleted", "ascending, all deleted, scattered"}

func (x *workSkip) past(kind, n int) {
	build := func(order int) {
		for i := range n {
			x.insert(workOrders[order].key(i, n))
			x.did("Insert")
		}
	}
	drop := func(from, keep int) {
		for len(x.sorted) > keep {
			x.drop(x.end(from))
			x.did("Delete")
		}
	}
	switch kind {
	case 1:
		build(0)
	case 2:
		build(1)
	case 3:
		build(2)
	case 4:
		build(0)
		drop(-1, n/2)
		drop(0, 20)
	case 5:
		build(2)
		drop(-1, n/2)
	case 6:
		build(2)
		drop(0, n/2)
	case 7:
		build(0)
		drop(0, 0)
		build(2)
	}
	x.begin()
}

// workListPrograms measures the work of skip lists and lists.
func workListPrograms(thorough bool) []rt.Prog {
	period, length, n := 3, 300, 2000
	sizes := []int{100, 1000, 10_000, 100_000}
	if thorough {
		length, n = 600, 4000
		sizes = append(sizes, 200_000, 800_000)
	}
	var ps []rt.Prog
	for kind, past := range workSkipPasts {
		for words := range workWords {
			name := fmt.Sprintf("work of a skip list, heights from %s, past: %s", workWords[words].name, past)
			period := period
			if words == 0 && thorough {
				period++
			}
			ps = append(ps, rt.Prog{Name: name, Machine: func(c *core.Ctx, exec func(func())) {
				sp := core.Words{Base: len(workSkipOps), Lo: 1, Hi: period}
				c.Enum(name, sp.N(), func(i int) string {
					var s []string
					for _, op := range sp.At(i) {
						s = append(s, workSkipOps[op].name)
					}
					return fmt.Sprintf("(%s)* for %d calls", strings.Join(s, " ; "), length)
				}, func(w *core.W, i int) bool {
					word := sp.At(i)
					exec(func() {
						withWorkWords(words, func() {
							x := newWorkSkip(w)
							x.past(kind, n)
							for t := range length {
								op := workSkipOps[word[t%len(word)]]
								op.do(x)
								x.did(op.name)
							}
							x.constant()
							c.AddTransitions(int64(length))
						})
					})
					return true
				})
			}})
		}
	}
	for words := range workWords {
		name := "work of large skip lists, heights from " + workWords[words].name
		ps = append(ps, rt.Prog{Name: name, Machine: func(c *core.Ctx, exec func(func())) {
			no := len(workOrders)
			decode := func(i int) (size, ins, del int) { return sizes[i/no/no], i / no % no, i % no }
			c.Enum(name, len(sizes)*no*no, func(i int) string {
				size, ins, del := decode(i)
				return fmt.Sprintf("%d keys inserted %s, found and deleted %s", size, workOrders[ins].name, workOrders[del].name)
			}, func(w *core.W, i int) bool {
				size, ins, del := decode(i)
				exec(func() {
					withWorkWords(words, func() {
						x := newWorkSkip(w)
						x.most = size
						for i := range size {
							x.l.Insert(workOrders[ins].key(i, size), i)
							x.did("Insert")
						}
						x.begin()
						for i := range size {
							x.l.Find(workOrders[del].key(i, size))
							x.did("Find")
						}
						x.begin()
						for i := range size {
							x.l.FindGreaterOrEqual(workOrders[del].key(i, size))
							x.did("FindGreaterOrEqual")
						}
						x.begin()
						for i := range size {
							x.l.Delete(workOrders[del].key(i, size))
							x.did("Delete")
						}
						c.AddTransitions(int64(4 * size))
					})
				})
				return true
			})
		}})
	}
	// the length of a list
	name := "work of Len of a list"
	ps = append(ps, rt.Prog{Name: name, Machine: func(c *core.Ctx, exec func(func())) {
		lens := []int{0, 1, 2, 3, 10, 100, 1000, 5000}
		hows := []string{"PushBack", "PushFront", "InsertBefore", "InsertAfter", "PushBackList", "PushFrontList", "Remove"}
		c.Enum(name, len(lens)*len(hows), func(i int) string {
			return fmt.Sprintf("%d elements by %s", lens[i/len(hows)], hows[i%len(hows)])
		}, func(w *core.W, i int) bool {
			exec(func() {
				l, n := glist.New[int](), lens[i/len(hows)]
				length := func() {
					before := rt.Ticks()
					got := l.Len()
					if k := rt.Ticks() - before; k > 30 {
						w.Fail("Len() = %d takes %d steps", got, k)
					}
				}
				length()
				for k := range n {
					switch hows[i%len(hows)] {
					case "PushBack", "Remove":
						l.PushBack(k)
					case "PushFront":
						l.PushFront(k)
					case "InsertBefore":
						if k == 0 {
							l.PushBack(k)
						} else {
							l.InsertBefore(k, l.Front())
						}
					case "InsertAfter":
						if k == 0 {
							l.PushBack(k)
						} else {
							l.InsertAfter(k, l.Front())
						}
					case "PushBackList", "PushFrontList":
						m := glist.New[int]()
						m.PushBack(k)
						if hows[i%len(hows)] == "PushBackList" {
							l.PushBackList(m)
						} else {
							l.PushFrontList(m)
						}
					}
					length()
				}
				if hows[i%len(hows)] == "Remove" {
					for range n {
						l.Remove(l.Front())
						length()
					}
				}
			})
			return true
		})
	}})
	return ps
}
