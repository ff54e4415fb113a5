package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"slices"
	"strconv"
	"sync"

	"github.com/miniLCT/gosb/gogenerics/gcontainers/gslice"
	"github.com/miniLCT/gosb/hack/fastrand"
	"verif/core"
)

// source replaces fastrand's raw words; reads counts how many words of each kind were taken.
type source struct {
	words  []uint64 // 64-bit words; a 32-bit read takes the lower half
	i      int
	r32    int
	r64    int
	closed func()
}

func (s *source) next() uint64 {
	w := s.words[min(s.i, len(s.words)-1)]
	s.i++
	if s.i > 1_000_000 {
		panic("more than a million raw words taken")
	}
	return w
}

func (s *source) set(words ...uint64) { s.words, s.i, s.r32, s.r64 = words, 0, 0, 0 }

func takeSource() *source {
	wordMu.Lock()
	s := &source{words: []uint64{0}}
	o32, o64, ou := fastrand.Uint32, fastrand.Uint64, fastrand.Uint
	fastrand.Uint32 = func() uint32 { s.r32++; return uint32(s.next()) }
	fastrand.Uint64 = func() uint64 { s.r64++; return s.next() }
	fastrand.Uint = func() uint { s.r64++; return uint(s.next()) }
	s.closed = func() {
		fastrand.Uint32, fastrand.Uint64, fastrand.Uint = o32, o64, ou
		wordMu.Unlock()
	}
	return s
}

// edge words: both halves at and around every power of two and their complements
func edgeWords() []uint64 {
	set := map[uint64]bool{}
	for b := 0; b < 64; b++ {
		for d := -2; d <= 2; d++ {
			x := uint64(1)<<b + uint64(d)
			set[x], set[^x], set[x<<32|x&0xffffffff], set[x|x<<32] = true, true, true, true
		}
	}
	var r []uint64
	for x := range set {
		r = append(r, x)
	}
	slices.Sort(r)
	return r
}

const golden = 0x9e3779b97f4a7c15

// sub31 counts, for the 32-bit words in [lo, hi), the result of Int31n or Intn for words accepted at once.
func sub31(args []string) {
	fn := args[0]
	n, _ := strconv.Atoi(args[1])
	lo, _ := strconv.ParseUint(args[2], 10, 64)
	hi, _ := strconv.ParseUint(args[3], 10, 64)
	counts := make([]int64, n)
	var cur uint32
	var calls, wide, bad int
	fastrand.Uint32 = func() uint32 {
		if calls++; calls > 1 {
			if calls > 1000 {
				panic("does not end")
			}
			return 0x7fffffff - uint32(calls)*0x01234567
		}
		return cur
	}
	fastrand.Uint64 = func() uint64 { wide++; return uint64(cur)<<32 | uint64(cur) }
	fastrand.Uint = func() uint { wide++; return uint(cur)<<32 | uint(cur) }
	one := func() int { return int(fastrand.Int31n(int32(n))) }
	if fn == "Intn" {
		one = func() int { return fastrand.Intn(n) }
	}
	for w := lo; w < hi; w++ {
		cur, calls = uint32(w), 0
		v := one()
		if v < 0 || v >= n {
			bad++
			break
		}
		if calls == 1 {
			counts[v]++
		}
	}
	_ = json.NewEncoder(os.Stdout).Encode(map[string]any{"counts": counts, "wide": wide, "bad": bad, "last": cur})
}

// uniform31 enumerates all 2^32 words in subprocesses (the raw source is a package variable).
func uniform31(c *core.Ctx, fn string, n int, total uint64) {
	type res struct {
		Counts []int64
		Wide   int
		Bad    int
		Last   uint32
	}
	rs := make([]res, 8)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var fail error
	for k := range rs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			lo, hi := total/8*uint64(k), total/8*uint64(k+1)
			cmd := exec.Command(os.Args[0], "sub31", fn, fmt.Sprint(n), fmt.Sprint(lo), fmt.Sprint(hi))
			out, err := cmd.StdoutPipe()
			if err == nil {
				err = cmd.Start()
			}
			if err == nil {
				err = json.NewDecoder(bufio.NewReader(out)).Decode(&rs[k])
			}
			if err2 := cmd.Wait(); err == nil {
				err = err2
			}
			if err != nil {
				mu.Lock()
				fail = err
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	c.Serial(func(w *core.W) {
		w.Case(func() string { return fmt.Sprintf("%s(%d) over all %d raw words", fn, n, total) }, func() {
			if fail != nil {
				w.Fail("%s(%d): %v", fn, n, fail)
			}
			counts := make([]int64, n)
			wide := 0
			var acc int64
			for _, r := range rs {
				if r.Bad > 0 {
					w.Fail("%s(%d) is out of range for the word %#x", fn, n, r.Last)
				}
				wide += r.Wide
				for i, x := range r.Counts {
					counts[i] += x
					acc += x
				}
			}
			if wide > 0 {
				c.Bound(false, "%s(%d) takes wider words: equal frequency not decided", fn, n)
				return
			}
			if acc == 0 {
				w.Fail("no word is accepted")
			}
			for i, x := range counts {
				if x != counts[0] {
					w.Fail("%s(%d): %d raw words give %d and %d give 0", fn, n, x, i, counts[0])
				}
			}
			c.AddEvals(int64(total), acc)
			c.Bound(true, "%s(%d): all %d raw words, each result for exactly %d of them", fn, n, total, counts[0])
		})
	})
}

func randChecks(c *core.Ctx) {
	for _, n := range core.Pick(c, []int{3, 10, 1000003}, []int{1, 2, 3, 5, 6, 7, 10, 52, 100, 1000, 65537, 1000003}) {
		uniform31(c, "Int31n", n, 1<<32)
	}
	if c.Thorough {
		for _, n := range []int{3, 8, 10, 1001} {
			uniform31(c, "Intn", n, 1<<32)
		}
	}
	src := takeSource()
	defer func() { src.closed() }()
	edges := edgeWords()
	var ns []uint64
	for _, x := range edges {
		if x > 0 && x <= math.MaxInt64 {
			ns = append(ns, x)
		}
	}
	c.Serial(func(w *core.W) {
		evals := int64(0)
		try := func(name string, word uint64, ok func() (any, bool)) {
			w.Case(func() string { return fmt.Sprintf("%s with the raw word %#x", name, word) }, func() {
				evals++
				src.set(word, word^0x5555555555555555, 0x1234567890abcdef, golden)
				if v, good := ok(); !good {
					w.Fail("%s = %v", name, v)
				}
			})
		}
		words := slices.Clone(edges)
		for i := uint64(0); i < uint64(core.Pick(c, 5000, 2000000)); i++ {
			words = append(words, i*golden)
		}
		for _, x := range words {
			try("Int()", x, func() (any, bool) { v := fastrand.Int(); return v, v >= 0 })
			try("Int31()", x, func() (any, bool) { v := fastrand.Int31(); return v, v >= 0 })
			try("Int63()", x, func() (any, bool) { v := fastrand.Int63(); return v, v >= 0 })
			try("Float64()", x, func() (any, bool) { v := fastrand.Float64(); return v, v >= 0 && v < 1 })
			try("Float32()", x, func() (any, bool) { v := fastrand.Float32(); return v, v >= 0 && v < 1 })
		}
		for _, n := range ns {
			ws := slices.Clone(edges)
			for _, k := range []uint64{1, 2, 3, n / 2, n - 1} { // around multiples of the 32- and 64-bit interval lengths
				for d := -2; d <= 2; d++ {
					if n <= math.MaxUint32 {
						ws = append(ws, (k<<32)/n+uint64(d))
					}
					ws = append(ws, math.MaxUint64/n*k+uint64(d), math.MaxInt64/n*k+uint64(d), n*k+uint64(d), math.MaxInt64-math.MaxInt64%n+uint64(d))
				}
			}
			if c.Stopped() {
				break
			}
			for _, x := range ws {
				if n <= math.MaxInt32 {
					try(fmt.Sprintf("Int31n(%d)", n), x, func() (any, bool) { v := fastrand.Int31n(int32(n)); return v, v >= 0 && v < int32(n) })
				}
				if n <= math.MaxUint32 {
					try(fmt.Sprintf("Uint32n(%d)", n), x, func() (any, bool) { v := fastrand.Uint32n(uint32(n)); return v, v < uint32(n) })
				}
				try(fmt.Sprintf("Int63n(%d)", n), x, func() (any, bool) { v := fastrand.Int63n(int64(n)); return v, v >= 0 && v < int64(n) })
				try(fmt.Sprintf("Intn(%d)", n), x, func() (any, bool) { v := fastrand.Intn(int(n)); return v, v >= 0 && v < int(n) })
				try(fmt.Sprintf("Uintn(%d)", n), x, func() (any, bool) { v := fastrand.Uintn(uint(n)); return v, v < uint(n) })
				try(fmt.Sprintf("Uint64n(%d)", n), x, func() (any, bool) { v := fastrand.Uint64n(n); return v, v < n })
			}
		}
		c.AddEvals(evals, evals)
		c.Bound(true, "range of every function: %d raw words, %d limits", len(words), len(ns))
		// panics
		for _, n := range []int64{0, -1, math.MinInt64, math.MinInt32} {
			for name, f := range map[string]func(){
				"Int63n": func() { fastrand.Int63n(n) }, "Int31n": func() { fastrand.Int31n(int32(max(n, math.MinInt32))) }, "Intn": func() { fastrand.Intn(int(n)) },
			} {
				w.Case(func() string { return fmt.Sprintf("%s(%d)", name, n) }, func() {
					src.set(1, golden)
					if _, p := core.Catch(f); !p {
						w.Fail("no panic")
					}
				})
			}
		}
		// every result of small limits is reached, Int63n and the floats are spread evenly
		tol := 0.05
		word := func(i uint64) uint64 { return i*golden + golden/3 }
		spread := func(name string, buckets int, even bool, f func() int) {
			w.Case(func() string { return name + " over evenly spread words" }, func() {
				counts := make([]int, buckets)
				total := 0
				const N = 1 << 16
				for i := uint64(0); i < N; i++ {
					src.set(word(i), word(i+N), word(i+2*N), 0x1234567890abcdef)
					v := f()
					if v < 0 || v >= buckets {
						w.Fail("%s = %d", name, v)
					}
					if src.i == 1 {
						counts[v]++
						total++
					}
				}
				for k, x := range counts {
					share := float64(x) * float64(buckets) / float64(total)
					if x == 0 || even && math.Abs(share-1) > tol {
						w.Fail("%s: part %d of %d gets %d of %d words", name, k, buckets, x, total)
					}
				}
				c.AddEvals(N, N)
			})
		}
		for n := 1; n <= 16; n++ {
			spread(fmt.Sprintf("Uintn(%d)", n), n, true, func() int { return int(fastrand.Uintn(uint(n))) })
			spread(fmt.Sprintf("Uint32n(%d)", n), n, true, func() int { return int(fastrand.Uint32n(uint32(n))) })
			spread(fmt.Sprintf("Uint64n(%d)", n), n, true, func() int { return int(fastrand.Uint64n(uint64(n))) })
			spread(fmt.Sprintf("Intn(%d)", n), n, true, func() int { return fastrand.Intn(n) })
			spread(fmt.Sprintf("Int31n(%d)", n), n, true, func() int { return int(fastrand.Int31n(int32(n))) })
			spread(fmt.Sprintf("Int63n(%d)", n), n, true, func() int { return int(fastrand.Int63n(int64(n))) })
		}
		large := []int64{1<<62 + 1, 1<<63 - 1, 5e18, 7e18, 1 << 62, 1 << 53, 1<<31 + 1}
		for b := 54; b < 60; b++ { // 2^63 is between two of their multiples
			large = append(large, 3<<b, 5<<b, 7<<b, 11<<b)
		}
		large = append(large, 3<<60, 5<<60, 7<<60, 3<<61)
		for _, n := range large {
			if tol = 0.05; n > 1<<54 {
				tol = 0.01
			}
			part := func(v int64) int { return int(uint64(v) / (uint64(n)/8 + 1)) }
			spread(fmt.Sprintf("Int63n(%d)", n), 8, true, func() int { return part(fastrand.Int63n(n)) })
			spread(fmt.Sprintf("Intn(%d)", n), 8, true, func() int { return part(int64(fastrand.Intn(int(n)))) })
		}
		// results that a too short source reaches twice or never need not lie together
		tol = 0.06
		even := word
		word = func(i uint64) uint64 { // without the regularity of even spreading
			z := (i + 1) * golden
			z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
			z = (z ^ z>>27) * 0x94d049bb133111eb
			return z ^ z>>31
		}
		for b := 24; b < 56; b++ {
			for _, n := range []int64{3 << b, 5 << b, 7 << b, 1<<b + 1, 1<<b - 1} {
				for _, m := range []int{2, 3, 5, 7} {
					spread(fmt.Sprintf("Int63n(%d) modulo %d", n, m), m, true, func() int { return int(fastrand.Int63n(n) % int64(m)) })
					spread(fmt.Sprintf("Intn(%d) modulo %d", n, m), m, true, func() int { return fastrand.Intn(int(n)) % m })
					if n <= math.MaxInt32 {
						spread(fmt.Sprintf("Int31n(%d) modulo %d", n, m), m, true, func() int { return int(fastrand.Int31n(int32(n))) % m })
					}
				}
			}
		}
		word = even
		tol = 0.05
		for _, n := range []int32{3 << 29, 1<<30 + 1, math.MaxInt32, 2e9} {
			spread(fmt.Sprintf("Int31n(%d)", n), 8, true, func() int { return int(uint64(fastrand.Int31n(n)) / (uint64(n)/8 + 1)) })
		}
		spread("Float64()", 16, true, func() int { return int(fastrand.Float64() * 16) })
		spread("Float32()", 16, true, func() int { return int(fastrand.Float32() * 16) })
		spread("Int63()", 16, true, func() int { return int(fastrand.Int63() >> 59) })
		spread("Int31()", 16, true, func() int { return int(fastrand.Int31() >> 27) })
		spread("Int()", 16, true, func() int { return fastrand.Int() >> 59 })
		for bit := 0; bit < 63; bit++ {
			spread(fmt.Sprintf("bit %d of Int63()", bit), 2, true, func() int { return int(fastrand.Int63() >> bit & 1) })
			if bit < 31 {
				spread(fmt.Sprintf("bit %d of Int31()", bit), 2, true, func() int { return int(fastrand.Int31() >> bit & 1) })
			}
		}
		c.Bound(true, "frequencies over 65536 evenly spread words within 5%%, large limits within 1%%; remainders of the results of 160 limits from 2^24 to 2^58 by 2, 3, 5 and 7")
	})
	// the raw source itself
	src.closed()
	src.closed = func() {}
	c.Serial(func(w *core.W) {
		w.Case(func() string { return "the runtime's words" }, func() {
			var or32 uint32
			var or64 uint64
			var oru uint
			for i := 0; i < 1000; i++ {
				or32 |= fastrand.Uint32()
				or64 |= fastrand.Uint64()
				oru |= fastrand.Uint()
			}
			if or32 != math.MaxUint32 || or64 != math.MaxUint64 || oru != math.MaxUint {
				w.Fail("bits that are never set in 1000 words: %#x %#x %#x", ^or32, ^or64, ^oru)
			}
		})
	})
}

// evenWords gives m words such that both taking the high part and taking the remainder spread them evenly over any divisor of m.
func evenWords(m int) []uint64 {
	r := make([]uint64, m)
	for k := range r {
		x := (uint64(2*k+1) << 31) / uint64(m)
		x = x - x%uint64(m) + uint64(k*7+3)%uint64(m)
		r[k] = x<<32 | x
	}
	return r
}

func permChecks(c *core.Ctx) {
	src := takeSource()
	defer func() { src.closed() }()
	isPerm := func(p []int) bool {
		seen := make([]bool, len(p))
		for _, v := range p {
			if v < 0 || v >= len(p) || seen[v] {
				return false
			}
			seen[v] = true
		}
		return true
	}
	shuffle := func(w *core.W, n int) []int {
		p := make([]int, n)
		for i := range p {
			p[i] = i
		}
		fastrand.Shuffle(n, func(i, j int) {
			if i < 0 || j < 0 || i >= n || j >= n {
				w.Fail("Shuffle(%d) exchanges %d and %d", n, i, j)
			}
			p[i], p[j] = p[j], p[i]
		})
		return p
	}
	slice := func(w *core.W, n int) []int {
		back := make([]int, n+2)
		for i := range back {
			back[i] = i
		}
		s := back[:n]
		r := gslice.Shuffle(s)
		if len(r) != n || n > 0 && &r[0] != &s[0] || back[n] != n || back[n+1] != n+1 {
			w.Fail("slice Shuffle(%d): the result is not the slice itself, or memory behind it changed", n)
		}
		return r
	}
	perm := func(w *core.W, n int) []int { return fastrand.Perm(n) }
	fns := []struct {
		name string
		f    func(w *core.W, n int) []int
	}{{"Perm", perm}, {"Shuffle", shuffle}, {"slice Shuffle", slice}}
	fact := 1
	c.Serial(func(w *core.W) {
		for n := 0; n <= core.Pick(c, 5, 6); n++ {
			fact *= max(n, 1)
			m := map[int]int{0: 1, 1: 1, 2: 2, 3: 6, 4: 12, 5: 60, 6: 60}[n]
			words := evenWords(m)
			vecs := 1
			for i := 1; i < n; i++ {
				vecs *= m
			}
			for _, fn := range fns {
				if fn.name == "slice Shuffle" && n >= 5 && !c.Thorough || n == 6 && fn.name != "Shuffle" {
					continue
				}
				w.Case(func() string {
					return fmt.Sprintf("%s of %d elements over all %d vectors of %d evenly spaced words", fn.name, n, vecs, m)
				}, func() {
					counts := map[[6]int]int{}
					ws := make([]uint64, max(n-1, 1))
					exact := true
					for v := 0; v < vecs && !c.Stopped(); v++ {
						x := v
						for k := range ws {
							ws[k] = words[x%m]
							x /= m
						}
						src.set(ws...)
						p := fn.f(w, n)
						if len(p) != n || !isPerm(p) {
							w.Fail("%s = %v with the words %#x", fn.name, p, ws)
						}
						var key [6]int
						copy(key[:], p)
						counts[key]++
						if src.r64 > 0 || src.i > n {
							exact = false
						}
					}
					c.AddEvals(int64(vecs), int64(vecs))
					if len(counts) != fact {
						w.Fail("%s reaches %d of %d orders", fn.name, len(counts), fact)
					}
					for p, k := range counts {
						if share := float64(k) * float64(fact) / float64(vecs); exact && k*fact != vecs || math.Abs(share-1) > 0.2 {
							w.Fail("%s gives the order %v for %d of %d vectors, want %d", fn.name, p[:n], k, vecs, vecs/fact)
						}
					}
				})
			}
			c.Bound(true, "n=%d: all %d vectors of %d evenly spaced raw words", n, vecs, m)
		}
		edges := edgeWords()
		sizes := []int{}
		for n := 0; n <= 64; n++ {
			sizes = append(sizes, n)
		}
		big := []int{65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 5000, 10000, 32768, 65535, 65536, 65537, 100001}
		sizes = append(sizes, big...)
		for _, n := range sizes {
			for _, fn := range fns {
				for k := 0; k < len(edges); k += core.Pick(c, 5, 1) * max(1, n/64) {
					w.Case(func() string { return fmt.Sprintf("%s of %d elements with the words %#x...", fn.name, n, edges[k]) }, func() {
						ws := make([]uint64, 64)
						for i := range ws {
							ws[i] = edges[k] + uint64(i*k)*golden
						}
						ws[63] = golden
						src.set(ws...)
						if p := fn.f(w, n); len(p) != n || !isPerm(p) {
							w.Fail("%s(%d) = %v", fn.name, n, p)
						}
						c.AddEvals(1, 1)
					})
				}
			}
		}
		c.Bound(true, "n up to 64 with %d word patterns, n of %v with fewer", (len(edges)+4)/5, big)
		for _, n := range []int{-1, math.MinInt} {
			w.Case(func() string { return fmt.Sprintf("Shuffle(%d)", n) }, func() {
				if _, p := core.Catch(func() { fastrand.Shuffle(n, func(i, j int) {}) }); !p {
					w.Fail("no panic")
				}
			})
		}
		w.Case(func() string { return "slice Shuffle(nil)" }, func() {
			if r := gslice.Shuffle([]int(nil)); len(r) != 0 {
				w.Fail("%v", r)
			}
		})
	})
}

func readChecks(c *core.Ctx) {
	src := takeSource()
	defer func() { src.closed() }()
	maxLen := core.Pick(c, 70, 300)
	seeds := core.Pick(c, 64, 512)
	lens := []int{}
	for n := 0; n <= maxLen; n++ {
		lens = append(lens, n)
	}
	all := seeds
	big := []int{127, 128, 129, 255, 256, 257, 383, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537}
	lens = append(lens, big...)
	c.Serial(func(w *core.W) {
		for off := 0; off < 8; off++ {
			for _, n := range lens {
				if seeds = all; n > maxLen {
					seeds = 16
				}
				if n > 5000 && off != 0 && off != 5 {
					continue
				}
				w.Case(func() string { return fmt.Sprintf("Read of %d bytes at offset %d", n, off) }, func() {
					seen := make([]map[byte]bool, n)
					for i := range seen {
						seen[i] = map[byte]bool{}
					}
					blocks := map[string]bool{}
					nb := 0
					for s := 0; s < seeds; s++ {
						var first []byte
						for _, fill := range []byte{0x00, 0xff, 0x5a} {
							buf := make([]byte, off+n+24)
							for i := range buf {
								buf[i] = fill
							}
							p := buf[off : off+n : off+n+s%24]
							src.set(uint64(s)*golden+1, uint64(s+seeds)*golden, uint64(s+7*seeds)*golden, uint64(s)*golden>>5)
							k, err := fastrand.Read(p)
							if k != n || err != nil {
								w.Fail("Read = %d, %v", k, err)
							}
							for i := range buf {
								if (i < off || i >= off+n) && buf[i] != fill {
									w.Fail("Read changes the byte at %d outside of [%d,%d)", i, off, off+n)
								}
							}
							if first == nil {
								first = slices.Clone(p)
							} else if !slices.Equal(first, p) {
								w.Fail("the result depends on the previous contents: some byte is not written")
							}
						}
						for i, b := range first {
							seen[i][b] = true
						}
						for i := 0; i+8 <= n; i += 8 {
							blocks[string(first[i:i+8])] = true
							nb++
						}
					}
					for i := range seen {
						if len(seen[i]) < seeds/8 {
							w.Fail("byte %d takes only %d values for %d raw words", i, len(seen[i]), seeds)
						}
					}
					if len(blocks) < nb*9/10 {
						w.Fail("only %d different 8-byte blocks of %d", len(blocks), nb)
					}
					c.AddEvals(int64(3*seeds), int64(min(n, 1)*3*seeds))
				})
			}
		}
		w.Case(func() string { return "Read(nil)" }, func() {
			if k, err := fastrand.Read(nil); k != 0 || err != nil {
				w.Fail("Read(nil) = %d, %v", k, err)
			}
		})
	})
	c.Bound(true, "every length up to %d at 8 offsets with %d raw words and 3 previous contents; lengths %v with 16 raw words", maxLen, all, big)
}

func init() {
	core.Register("N01", "exploration", "each case is one raw word (and limit) given to one function; non-trivial: the word is accepted", randChecks)
	core.Register("N02", "exploration", "each case is one vector of raw words given to one function; all vectors are distinct", permChecks)
	core.Register("N03", "exploration", "each case is one call of Read with one length, offset, raw word and previous content; non-trivial: not empty", readChecks)
}
