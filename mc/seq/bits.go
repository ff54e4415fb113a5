package main

import (
	"fmt"
	"math"
	"slices"
	"strings"

	"github.com/miniLCT/gosb/library/bitset"
	"verif/core"
)

type bitInst struct {
	b   *bitset.BitSet
	mod []bool // length is a multiple of 8
}

func bitsOf(bs []byte) []bool {
	var r []bool
	for _, b := range bs {
		for i := 7; i >= 0; i-- {
			r = append(r, b>>i&1 == 1)
		}
	}
	return r
}

func bytesOf(m []bool) []byte {
	r := make([]byte, (len(m)+7)/8)
	for i, v := range m {
		if v {
			r[i/8] |= 1 << (7 - i%8)
		}
	}
	return r
}

func (s *bitInst) set(w *core.W, off int, v bool) {
	prev, err := s.b.Set(off, v)
	o := off
	if o < 0 {
		o += len(s.mod)
	}
	if o < 0 {
		if err == nil {
			w.Fail("Set(%d) beyond the left end of %d bits: no error", off, len(s.mod))
		}
		if prev {
			w.Fail("Set(%d) fails and returns true", off)
		}
		return
	}
	if err != nil {
		w.Fail("Set(%d): %v", off, err)
	}
	for o >= len(s.mod) {
		s.mod = append(s.mod, make([]bool, 8)...)
	}
	if prev != s.mod[o] {
		w.Fail("Set(%d,%v) returned %v for the previous bit, want %v", off, v, prev, s.mod[o])
	}
	s.mod[o] = v
}

func (s *bitInst) observe(w *core.W) {
	n := len(s.mod)
	if got := s.b.Size(); got != n {
		w.Fail("Size() = %d, want %d", got, n)
	}
	for o := -n - 9; o <= n+9; o++ {
		k := o
		if k < 0 {
			k += n
		}
		want := k >= 0 && k < n && s.mod[k]
		if got := s.b.Get(o); got != want {
			w.Fail("Get(%d) = %v, want %v", o, got, want)
		}
	}
	for stop := 0; stop <= n; stop++ {
		next := 0
		s.b.Range(func(o int, v bool) bool {
			if o != next || o >= n || v != s.mod[o] {
				w.Fail("Range calls f(%d,%v), want offset %d", o, v, next)
			}
			next++
			return next-1 != stop
		})
		if want := min(stop+1, n); next != want {
			w.Fail("Range made %d calls when told to stop at call %d, want %d", next, stop+1, want)
		}
	}
	want := bytesOf(s.mod)
	got := s.b.Bytes()
	if string(got) != string(want) {
		w.Fail("Bytes() = %x, want %x", got, want)
	}
	for i := range got {
		got[i] ^= 0xff
	}
	if string(s.b.Bytes()) != string(want) {
		w.Fail("writing to the result of Bytes changes the set")
	}
	if got, want := s.b.String(), fmt.Sprintf("%x", want); got != want {
		w.Fail("String() = %q, want %q", got, want)
	}
	for _, sep := range []string{"", " ", ",", "0", "11", "-_-"} {
		parts := make([]string, len(want))
		for i, b := range want {
			parts[i] = fmt.Sprintf("%08b", b)
		}
		if got, want := s.b.Binary(sep), strings.Join(parts, sep); got != want {
			w.Fail("Binary(%q) = %q, want %q", sep, got, want)
		}
	}
	back, err := bitset.NewFromHex(s.b.String())
	if err != nil || string(back.Bytes()) != string(want) {
		w.Fail("NewFromHex(%q) = %v, %v", s.b.String(), back, err)
	}
}

// dirty returns the bytes as the beginning of a larger array of ones.
func dirty(bs []byte) []byte {
	buf := append(append(make([]byte, 0, len(bs)+40), bs...), slices.Repeat([]byte{0xff}, 40)...)
	return buf[:len(bs)]
}

func bitPatterns(nbytes int) [][]byte {
	var r [][]byte
	add := func(f func(i int) bool) {
		m := make([]bool, nbytes*8)
		for i := range m {
			m[i] = f(i)
		}
		r = append(r, bytesOf(m))
	}
	add(func(int) bool { return true })
	add(func(i int) bool { return i%2 == 0 })
	add(func(i int) bool { return i%3 == 0 })
	add(func(i int) bool { return i*i%7 < 3 })
	for p := 0; p < nbytes*8; p++ {
		add(func(i int) bool { return i == p })
		add(func(i int) bool { return i != p })
	}
	return r
}

// bitRange resolves a range as the property says: inclusive, cut to the set.
func bitRange(n, start, end int) (int, int, bool) {
	if start < 0 {
		start += n
	}
	if end < 0 {
		end += n
	}
	start, end = max(start, 0), min(end, n-1)
	return start, end, start <= end
}

// longBits returns three contents of every length up to n.
func longBits(n int) [][]byte {
	var out [][]byte
	for k := 1; k <= n; k++ {
		a, b, d := make([]byte, k), make([]byte, k), make([]byte, k)
		for i := range a {
			a[i], b[i], d[i] = 0xff, byte(i*73+41), 0
		}
		d[k-1], d[k/2] = 1, d[k/2]|0x10
		out = append(out, a, b, d)
	}
	return out
}

// farOffsets are numbers around powers of two and at the ends of the integers.
func farOffsets() []int {
	r := []int{0, math.MaxInt, math.MaxInt - 1, math.MinInt, math.MinInt + 1}
	for _, e := range []int{3, 5, 8, 16, 31, 32, 33, 61, 62} {
		for _, d := range []int{-1, 0, 1} {
			r = append(r, 1<<e+d, -(1<<e)+d)
		}
	}
	return r
}

func checkRange(w *core.W, b *bitset.BitSet, m []bool, start, end int) bool {
	s, e, ok := bitRange(len(m), start, end)
	var want []bool
	n := 0
	if ok {
		want = append(want, m[s:e+1]...)
		for _, v := range want {
			if v {
				n++
			}
		}
		for len(want)%8 != 0 {
			want = append(want, false)
		}
	}
	if got := b.Count(start, end); got != n {
		w.Fail("Count(%d,%d) = %d, want %d", start, end, got, n)
	}
	sub := b.Sub(start, end)
	if got, want := sub.Bytes(), bytesOf(want); string(got) != string(want) {
		w.Fail("Sub(%d,%d) = %x, want %x", start, end, got, want)
	}
	return ok
}

func init() {
	core.Register("B01", "model_checking", "an array of bools: every operation's result and every view agree after every operation", func(c *core.Ctx) {
		offs := []int{0, 1, 7, 8, 15, 16, 23, -1, -2, -8, -9, -16, -17, -24, -25}
		if c.Thorough {
			offs = append(offs, 2, 9, 24, 31, -32, -33)
		}
		var ops []string
		for _, o := range offs {
			ops = append(ops, fmt.Sprintf("Set(%d,true)", o), fmt.Sprintf("Set(%d,false)", o))
		}
		ops = append(ops, "Clear")
		c.BFS(&core.Machine{Name: "bitset", New: func() any { return &bitInst{b: bitset.New()} }, Ops: ops,
			Depth: core.Pick(c, 9, 14),
			Step: func(w *core.W, in any, op int) bool {
				s := in.(*bitInst)
				if op == len(ops)-1 {
					s.b.Clear()
					clear(s.mod)
					return true
				}
				s.set(w, offs[op/2], op%2 == 0)
				return true
			},
			Check: func(w *core.W, in any) { in.(*bitInst).observe(w) },
		})
		c.Enum("Set on every content of 0-1 bytes", 257*80, func(i int) string { return fmt.Sprint(core.Mixed(i, 257, 40, 2)) }, func(w *core.W, i int) bool {
			v := core.Mixed(i, 257, 40, 2)
			var init []byte
			if v[0] < 256 {
				init = []byte{byte(v[0])}
			}
			for _, content := range [][]byte{append([]byte{}, init...), dirty(init)} {
				s := &bitInst{bitset.New(content...), bitsOf(init)}
				s.set(w, v[1]-20, v[2] == 1)
				s.observe(w)
			}
			return true
		})
		n2 := core.Pick(c, 4096, 65536)
		c.Enum("Set on contents of 2 bytes", n2*52, func(i int) string { return fmt.Sprint(core.Mixed(i, n2, 52)) }, func(w *core.W, i int) bool {
			v := core.Mixed(i, n2, 52)
			x := v[0] * (65536 / n2) * 40503 & 0xffff // every content in the thorough tier
			if n2 == 65536 {
				x = v[0]
			}
			init := []byte{byte(x >> 8), byte(x)}
			s := &bitInst{bitset.New(init...), bitsOf(init)}
			s.set(w, v[1]/2-1, v[1]%2 == 0)
			if got, want := s.b.Bytes(), bytesOf(s.mod); string(got) != string(want) {
				w.Fail("contents %x, want %x", got, want)
			}
			s.set(w, -(v[1]/2)-1, v[1]%2 == 1)
			if got, want := s.b.Bytes(), bytesOf(s.mod); string(got) != string(want) {
				w.Fail("contents %x, want %x", got, want)
			}
			return true
		})
		far := farOffsets()
		c.Enum("offsets far away", len(far)*6, func(i int) string { return fmt.Sprintf("%d, %d bytes", far[i/6], i%6) }, func(w *core.W, i int) bool {
			o, init := far[i/6], []byte{0x80, 0xff, 1, 0, 0x7e}[:i%6]
			s := &bitInst{bitset.New(init...), bitsOf(init)}
			k := o
			if k < 0 {
				k += len(s.mod) // neither is so large that this overflows
			}
			if got, want := s.b.Get(o), k >= 0 && k < len(s.mod) && s.mod[k]; got != want {
				w.Fail("Get(%d) = %v", o, got)
			}
			if o < 1<<15 {
				s.set(w, o, true)
				s.set(w, o, false)
			}
			s.observe(w)
			return true
		})
		c.Enum("growing", 200, func(i int) string { return fmt.Sprintf("New(0xff) Set(%d)", i*7) }, func(w *core.W, i int) bool {
			s := &bitInst{bitset.New(0xff), bitsOf([]byte{0xff})}
			s.set(w, i*7, false)
			s.set(w, i*7+1, true)
			s.observe(w)
			return true
		})
		longs := longBits(core.Pick(c, 34, 70))
		c.Enum("Set on longer sets", len(longs)*64, func(i int) string {
			return fmt.Sprintf("%x %d", longs[i/64], i%64)
		}, func(w *core.W, i int) bool {
			init, k := longs[i/64], i%64/2
			for _, off := range []int{k, len(init)*8 - 1 - k + 8, len(init)*4 + k - 16, -1 - k, -len(init)*8 - 4 + k} {
				for _, content := range [][]byte{append([]byte{}, init...), dirty(init)} {
					s := &bitInst{bitset.New(content...), bitsOf(init)}
					s.set(w, off, i%2 == 0)
					s.observe(w)
				}
			}
			return true
		})
		hugeBits(c)
		hexes := []string{"", "0", "00", "fF", "g0", "0g", "00f", "a5A5", " 00", "00 ", "0x10"}
		c.Enum("NewFromHex", len(hexes), func(i int) string { return hexes[i] }, func(w *core.W, i int) bool {
			b, err := bitset.NewFromHex(hexes[i])
			valid := len(hexes[i])%2 == 0 && strings.Trim(hexes[i], "0123456789abcdefABCDEF") == ""
			if (err == nil) != valid {
				w.Fail("NewFromHex(%q): error %v", hexes[i], err)
			}
			if valid && b.String() != strings.ToLower(hexes[i]) {
				w.Fail("NewFromHex(%q) holds %s", hexes[i], b.String())
			}
			return true
		})
	})
	core.Register("B02", "exploration", "each case is one content and one range, compared with counting and copying bools; non-trivial: the range is not empty", func(c *core.Ctx) {
		far := farOffsets()
		ends := append(slices.Clone(far), -1, 1, 6, -7, 23)
		c.Enum("ranges far beyond the ends", len(ends)*len(ends)*5, func(i int) string {
			v := core.Mixed(i, len(ends), len(ends), 5)
			return fmt.Sprintf("%d bytes, from %d to %d", v[2], ends[v[0]], ends[v[1]])
		}, func(w *core.W, i int) bool {
			v := core.Mixed(i, len(ends), len(ends), 5)
			init := []byte{0xb5, 0xff, 1, 0x80}[:v[2]]
			return checkRange(w, bitset.New(init...), bitsOf(init), ends[v[0]], ends[v[1]])
		})
		c.Enum("every byte, every range", 257*31*31, func(i int) string { return fmt.Sprint(core.Mixed(i, 257, 31, 31)) }, func(w *core.W, i int) bool {
			v := core.Mixed(i, 257, 31, 31)
			var init []byte
			if v[0] < 256 {
				init = []byte{byte(v[0])}
			}
			return checkRange(w, bitset.New(init...), bitsOf(init), v[1]-15, v[2]-15)
		})
		step := core.Pick(c, 37, 1)
		n2 := 65536 / step
		c.Enum("two bytes, every range", n2*50*50, func(i int) string { return fmt.Sprint(core.Mixed(i, n2, 50, 50)) }, func(w *core.W, i int) bool {
			v := core.Mixed(i, n2, 50, 50)
			x := v[0] * step
			init := []byte{byte(x >> 8), byte(x)}
			return checkRange(w, bitset.New(init...), bitsOf(init), v[1]-25, v[2]-25)
		})
		for n := 3; n <= core.Pick(c, 4, 6); n++ {
			pats := bitPatterns(n)
			r := 2*(n*8+2) + 1
			c.Enum(fmt.Sprintf("patterns of %d bytes, every range", n), len(pats)*r*r, func(i int) string {
				v := core.Mixed(i, r, r, len(pats))
				return fmt.Sprintf("%x [%d,%d]", pats[v[2]], v[0]-r/2, v[1]-r/2)
			}, func(w *core.W, i int) bool {
				v := core.Mixed(i, r, r, len(pats))
				init := append([]byte{}, pats[v[2]]...)
				b := bitset.New(init...)
				ok := checkRange(w, b, bitsOf(pats[v[2]]), v[0]-r/2, v[1]-r/2)
				if string(b.Bytes()) != string(pats[v[2]]) {
					w.Fail("the set itself changed")
				}
				if ok { // the result is a set of its own
					sub := b.Sub(v[0]-r/2, v[1]-r/2)
					_, _ = sub.Set(0, !sub.Get(0))
					if string(b.Bytes()) != string(pats[v[2]]) {
						w.Fail("writing to the result of Sub changes the set")
					}
				}
				return ok
			})
		}
		longs := longBits(core.Pick(c, 40, 140))
		c.Enum("longer sets", len(longs)*21*21, func(i int) string {
			return fmt.Sprint(core.Mixed(i, len(longs), 21, 21))
		}, func(w *core.W, i int) bool {
			v := core.Mixed(i, len(longs), 21, 21)
			init := longs[v[0]]
			ok := false
			for _, from := range []int{v[1], len(init)*8 - 20 + v[1], -v[1] - 1} {
				for _, to := range []int{v[2], len(init)*8 - 20 + v[2], -v[2] - 1} {
					ok = checkRange(w, bitset.New(append([]byte{}, init...)...), bitsOf(init), from, to) || ok
				}
			}
			return ok
		})
		hugeRanges(c)
		for _, n := range []int{5, 8, 9, 11, 17} {
			pats := bitPatterns(n)
			pats = [][]byte{pats[len(pats)/3], pats[len(pats)/2], pats[len(pats)-1]}
			c.Enum(fmt.Sprintf("%d bytes, every range", n), len(pats)*n*n*64, func(i int) string {
				return fmt.Sprint(core.Mixed(i, n*8, n*8, len(pats)))
			}, func(w *core.W, i int) bool {
				v := core.Mixed(i, n*8, n*8, len(pats))
				return checkRange(w, bitset.New(append([]byte{}, pats[v[2]]...)...), bitsOf(pats[v[2]]), v[0], v[1])
			})
		}
	})
	core.Register("B03", "exploration", "each case is one operation on given operands, compared bit by bit; non-trivial: at least two operands with a one bit", func(c *core.Ctx) {
		names := []string{"And", "Or", "Xor", "AndNot"}
		apply := func(op int, b *bitset.BitSet, o []*bitset.BitSet) *bitset.BitSet {
			switch op {
			case 0:
				return b.And(o...)
			case 1:
				return b.Or(o...)
			case 2:
				return b.Xor(o...)
			}
			return b.AndNot(o...)
		}
		// sel lists the operands, the receiver first; equal entries with alias set are the same set
		one := func(w *core.W, op int, contents [][]byte, alias bool) bool {
			sets := make([]*bitset.BitSet, len(contents))
			seen := map[string]*bitset.BitSet{}
			n, ones := 0, 0
			for i, b := range contents {
				n = max(n, len(b))
				if strings.Trim(string(b), "\x00") != "" {
					ones++
				}
				if s := seen[string(b)]; alias && s != nil {
					sets[i] = s
					continue
				}
				sets[i] = bitset.New(append([]byte{}, b...)...)
				seen[string(b)] = sets[i]
			}
			want := make([]byte, n)
			copy(want, contents[0])
			for _, o := range contents[1:] {
				for k := range want {
					var x byte
					if k < len(o) {
						x = o[k]
					}
					switch op {
					case 0:
						want[k] &= x
					case 1:
						want[k] |= x
					case 2:
						want[k] ^= x
					case 3:
						want[k] &^= x
					}
				}
			}
			args := append([]*bitset.BitSet{}, sets[1:]...)
			r := apply(op, sets[0], args)
			same := func(what string) {
				for i := range sets {
					if string(sets[i].Bytes()) != string(contents[i]) {
						w.Fail("%s: operand %d is %x, was %x", what, i, sets[i].Bytes(), contents[i])
					}
				}
			}
			if string(r.Bytes()) != string(want) {
				w.Fail("%s of %x = %x, want %x", names[op], contents, r.Bytes(), want)
			}
			same("after " + names[op])
			for i := range args {
				if args[i] != sets[i+1] {
					w.Fail("the operand list changed at %d", i)
				}
			}
			if len(contents) > 1 && n > 0 {
				_, _ = r.Set(0, !r.Get(0))
				_, _ = r.Set(n*8-1, !r.Get(n*8-1))
				same("after writing to the result of " + names[op])
				got := string(r.Bytes())
				for _, s := range sets {
					_, _ = s.Set(0, !s.Get(0))
				}
				if string(r.Bytes()) != got {
					w.Fail("writing to an operand changes the result of %s", names[op])
				}
			}
			return ones >= 2
		}
		c.Enum("all pairs of bytes", 4*65536, func(i int) string { return fmt.Sprint(core.Mixed(i, 4, 256, 256)) }, func(w *core.W, i int) bool {
			v := core.Mixed(i, 4, 256, 256)
			return one(w, v[0], [][]byte{{byte(v[1])}, {byte(v[2])}}, i%2 == 0)
		})
		var alpha [][]byte
		bytes := []byte{0x00, 0xff, 0xa5, 0x3c}
		for _, v := range []core.Words{{Base: len(bytes), Lo: 0, Hi: 2}} {
			for i := 0; i < v.N(); i++ {
				var b []byte
				for _, k := range v.At(i) {
					b = append(b, bytes[k])
				}
				alpha = append(alpha, b)
			}
		}
		alpha = append(alpha, []byte{0xf0, 0x0f, 0x55}, []byte{0x81, 0, 0})
		sp := core.Words{Base: len(alpha), Lo: 1, Hi: core.Pick(c, 3, 4)}
		dec := func(i int) (op int, alias bool, cs [][]byte) {
			op, alias = i%4, i/4%2 == 1
			for _, k := range sp.At(i / 8) {
				cs = append(cs, alpha[k])
			}
			return
		}
		c.Enum("up to 4 operands of 0-3 bytes", sp.N()*8, func(i int) string {
			op, al, cs := dec(i)
			return fmt.Sprintf("%s of %x (same set when equal: %v)", names[op], cs, al)
		}, func(w *core.W, i int) bool {
			op, al, cs := dec(i)
			return one(w, op, cs, al)
		})
		longs := core.Pick(c, 20, 40)
		c.Enum("longer operands", 4*2*longs*longs*longs, func(i int) string { return fmt.Sprint(core.Mixed(i, 4, 2, longs, longs, longs)) }, func(w *core.W, i int) bool {
			v := core.Mixed(i, 4, 2, longs, longs, longs)
			mk := func(n int, mul byte) []byte {
				b := make([]byte, n)
				for k := range b {
					b[k] = byte(k+3)*mul ^ byte(n)
				}
				return b
			}
			return one(w, v[0], [][]byte{mk(v[2], 7), mk(v[3], 37), mk(v[4], 91)}, v[1] == 1)
		})
		// many operands, in periodic patterns
		some := [][]byte{{0xff}, {0x5a, 0xf0}, {}, {0x33, 0x0f, 0x80}, {0, 0}}
		per := core.Words{Base: len(some), Lo: 1, Hi: core.Pick(c, 4, 5)}
		counts := core.Pick(c, []int{5, 6, 7, 8, 9, 10, 11, 15, 16, 17, 18, 31, 32, 33, 34, 63, 64, 65, 66, 128, 130}, upTo(300))
		c.Enum("many operands", 8*len(counts)*per.N(), func(i int) string {
			return fmt.Sprintf("%s of %d operands, contents %v in turn (same set when equal: %v)", names[i%4], counts[i/8%len(counts)], per.At(i/8/len(counts)), i/4%2 == 1)
		}, func(w *core.W, i int) bool {
			p := per.At(i / 8 / len(counts))
			cs := [][]byte{{0xff, 0xff, 0x7f}}
			for k := 1; k < counts[i/8%len(counts)]; k++ {
				cs = append(cs, some[p[k%len(p)]])
			}
			return one(w, i%4, cs, i/4%2 == 1)
		})
		hugeLogic(c)
		c.Enum("Not of longer sets", 300, func(i int) string { return fmt.Sprint(i) }, func(w *core.W, i int) bool {
			b := make([]byte, i)
			for k := range b {
				b[k] = byte(k * 29)
			}
			r := bitset.New(append([]byte{}, b...)...).Not().Bytes()
			for k := range b {
				if len(r) != len(b) || r[k] != ^b[k] {
					w.Fail("Not of %x = %x", b, r)
				}
			}
			return len(b) > 0
		})
		c.Enum("Not", 65536+257, func(i int) string { return fmt.Sprint(i) }, func(w *core.W, i int) bool {
			var b []byte
			switch {
			case i == 0:
			case i <= 256:
				b = []byte{byte(i - 1)}
			default:
				b = []byte{byte((i - 257) >> 8), byte(i - 257)}
			}
			s := bitset.New(append([]byte{}, b...)...)
			r := s.Not()
			want := make([]byte, len(b))
			for k := range b {
				want[k] = ^b[k]
			}
			if string(r.Bytes()) != string(want) {
				w.Fail("Not of %x = %x", b, r.Bytes())
			}
			if len(b) > 0 {
				_, _ = r.Set(0, !r.Get(0))
			}
			if string(s.Bytes()) != string(b) {
				w.Fail("Not shares memory with the set")
			}
			return len(b) > 0
		})
	})
}

func upTo(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i + 1
	}
	return r
}
