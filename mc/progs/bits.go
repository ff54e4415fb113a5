package progs

import (
	"fmt"
	"strings"

	"github.com/miniLCT/gosb/library/bitset"

	"verif/rt"
	"verif/spec"
)

// bitOp is an operation on set 0 or 1.
type bitOp struct {
	op, set, x, y int
	others        []int
}

func (o bitOp) String() string {
	n := string(rune('a'+o.set)) + "." + spec.BitNames[o.op]
	switch {
	case o.op >= spec.BitAnd:
		n += "("
		for _, s := range o.others {
			n += string(rune('a' + s))
		}
		return n + ")"
	case o.op == spec.BitSetOp || o.op == spec.BitCount || o.op == spec.BitSub:
		return fmt.Sprintf("%s(%d,%d)", n, o.x, o.y)
	case o.op == spec.BitGet:
		return fmt.Sprintf("%s(%d)", n, o.x)
	}
	return n
}

func (o bitOp) do(sets [2]*bitset.BitSet) {
	b := sets[o.set]
	if o.op >= spec.BitAnd {
		ids := append([]int{o.set}, o.others...)
		var args []*bitset.BitSet
		for _, i := range o.others {
			args = append(args, sets[i])
		}
		rec := rt.Begin(o.op, o.String(), ids)
		var r *bitset.BitSet
		switch o.op {
		case spec.BitAnd:
			r = b.And(args...)
		case spec.BitOr:
			r = b.Or(args...)
		case spec.BitXor:
			r = b.Xor(args...)
		case spec.BitAndNot:
			r = b.AndNot(args...)
		}
		rec.End(string(r.Bytes()))
		return
	}
	rec := rt.Begin(o.op, o.String(), o.set, o.x, o.y)
	var res any
	switch o.op {
	case spec.BitSetOp:
		old, err := b.Set(o.x, o.y == 1)
		s := fmt.Sprint(old)
		if err != nil {
			s += " error"
		}
		res = s
	case spec.BitGet:
		res = b.Get(o.x)
	case spec.BitCount:
		res = b.Count(o.x, o.y)
	case spec.BitSub:
		res = string(b.Sub(o.x, o.y).Bytes())
	case spec.BitNot:
		res = string(b.Not().Bytes())
	case spec.BitBytes:
		res = string(b.Bytes())
	case spec.BitClear:
		b.Clear()
	case spec.BitSize:
		res = b.Size()
	case spec.BitRange:
		var s strings.Builder
		b.Range(func(i int, v bool) bool {
			if i != s.Len() {
				rt.Fail("Range out of order", "Range shows offset %d after %d", i, s.Len())
			}
			if v {
				s.WriteByte('1')
			} else {
				s.WriteByte('0')
			}
			return true
		})
		res = s.String()
	case spec.BitString:
		res = b.String()
	case spec.BitBinary:
		res = b.Binary("-")
	}
	rec.End(res)
}

func bitWrites(set int) []bitOp {
	return []bitOp{
		{op: spec.BitSetOp, set: set, x: 1, y: 1}, {op: spec.BitSetOp, set: set, x: 0, y: 0}, {op: spec.BitSetOp, set: set, x: -1, y: 1},
		{op: spec.BitSetOp, set: set, x: 19, y: 1}, {op: spec.BitClear, set: set},
	}
}

func bitReads(set int) []bitOp {
	return []bitOp{
		{op: spec.BitGet, set: set, x: 1}, {op: spec.BitGet, set: set, x: -1}, {op: spec.BitCount, set: set, x: 0, y: -1}, {op: spec.BitSub, set: set, x: 1, y: -1},
		{op: spec.BitNot, set: set}, {op: spec.BitBytes, set: set}, {op: spec.BitSize, set: set}, {op: spec.BitRange, set: set}, {op: spec.BitString, set: set}, {op: spec.BitBinary, set: set},
	}
}

func bitMulti(a, b int) []bitOp {
	var out []bitOp
	for op := spec.BitAnd; op <= spec.BitAndNot; op++ {
		out = append(out, bitOp{op: op, set: a, others: []int{b}})
	}
	return append(out, bitOp{op: spec.BitAnd, set: a, others: []int{a}}, bitOp{op: spec.BitOr, set: a, others: []int{b, b}}, bitOp{op: spec.BitXor, set: a, others: []int{a, b}})
}

func bitProg(start [2]string, threads [][]bitOp) rt.Prog {
	return rt.Prog{Name: fmt.Sprintf("bit sets %x then %v", start, threads), Run: func() {
		sets := [2]*bitset.BitSet{bitset.New([]byte(start[0])...), bitset.New([]byte(start[1])...)}
		var fs []func()
		for _, ops := range threads {
			ops := ops
			fs = append(fs, func() {
				for _, o := range ops {
					o.do(sets)
				}
			})
		}
		rt.Par(fs...)
		for i := range sets {
			bitOp{op: spec.BitBytes, set: i}.do(sets)
		}
		rt.Check("not atomic", func() error { return spec.CheckBits(start) })
		if len(start[0]) < 100 {
			rt.Outcome("%x %x", sets[0].Bytes(), sets[1].Bytes())
		}
	}}
}

// bigBitPrograms are single operations on large sets beside two writes, which are as far apart as possible.
func bigBitPrograms(thorough bool) []rt.Prog {
	var ps []rt.Prog
	for _, size := range []int{65, 600, 5000, 70_000} {
		last := 8*size - 1
		start := [2]string{strings.Repeat("\xa5", size), strings.Repeat("\x3c", size-1)}
		set := func(n, x, y int) bitOp { return bitOp{op: spec.BitSetOp, set: n, x: x, y: y} }
		clear := bitOp{op: spec.BitClear, set: 0}
		singles := []bitOp{
			{op: spec.BitCount, x: 0, y: -1}, {op: spec.BitNot}, {op: spec.BitBytes}, {op: spec.BitSub, x: 1, y: -2}, clear, set(0, last+100_000, 1),
			{op: spec.BitAnd, set: 0, others: []int{1}}, {op: spec.BitOr, set: 1, others: []int{0}}, {op: spec.BitXor, set: 0, others: []int{0}}, {op: spec.BitAndNot, set: 1, others: []int{0}},
		}
		if size <= 600 || thorough && size <= 5000 {
			singles = append(singles, bitOp{op: spec.BitRange}, bitOp{op: spec.BitString}, bitOp{op: spec.BitBinary})
		}
		for _, x := range singles {
			for _, w := range [][]bitOp{
				{set(0, 1, 1), set(0, last-1, 1)}, {set(0, last-1, 1), set(0, 1, 1)}, {set(0, 0, 0), set(0, last+1, 1)}, {set(0, last, 0), set(0, last/2, 0)}, {clear}, {clear, set(0, 3, 1)},
				{set(0, last+70_000, 1), set(0, 1, 1)},
			} {
				p := bitProg(start, [][]bitOp{{x}, w})
				p.Name = fmt.Sprintf("bit sets of %d bytes then %v beside %v", size, x, w)
				ps = append(ps, p)
			}
		}
	}
	return ps
}

func bitPrograms(thorough bool) []rt.Prog {
	ps := bigBitPrograms(thorough)
	starts := [][2]string{{"\xa1", "\x55\xf0"}, {"", "\x81"}, {"\x0f\x80\x01", "\xff"}}
	one := func(a bitOp) []bitOp { return []bitOp{a} }
	all := append(append(append(bitWrites(0), bitReads(0)...), bitMulti(0, 1)...), bitMulti(1, 0)...)
	for si, st := range starts {
		// two operations on a at once, and on both sets
		second := append(append([]bitOp(nil), all...), bitWrites(1)...)
		for i, x := range all {
			for _, y := range second[i:] {
				ps = append(ps, bitProg(st, [][]bitOp{one(x), one(y)}))
			}
		}
		// two writes beside anything
		for _, w := range bitWrites(0) {
			for _, v := range append(bitWrites(0), bitWrites(1)...) {
				for _, y := range all {
					ps = append(ps, bitProg(st, [][]bitOp{{w, v}, one(y)}))
					if thorough || si == 0 {
						ps = append(ps, bitProg(st, [][]bitOp{one(w), one(v), one(y)}))
					}
				}
			}
		}
		// two reads beside a write
		for _, w := range append(bitWrites(0), bitWrites(1)...) {
			for _, x := range all[5:] {
				for _, y := range all[5:] {
					if thorough || si == 0 {
						ps = append(ps, bitProg(st, [][]bitOp{{x, y}, one(w)}))
					}
				}
			}
		}
		// operations on the same sets in both orders, with writers of both
		for _, x := range bitMulti(0, 1) {
			for _, y := range bitMulti(1, 0) {
				for _, w := range []bitOp{bitWrites(0)[0], bitWrites(0)[4]} {
					for _, v := range []bitOp{bitWrites(1)[0], bitWrites(1)[3]} {
						ps = append(ps, bitProg(st, [][]bitOp{one(x), one(y), {w, v}}))
						if thorough {
							ps = append(ps, bitProg(st, [][]bitOp{one(x), one(y), one(w), one(v)}))
						}
					}
				}
			}
		}
		if thorough {
			for i, x := range all {
				for j, y := range all[i:] {
					for _, z := range second[i+j:] {
						ps = append(ps, bitProg(st, [][]bitOp{one(x), one(y), one(z)}))
					}
				}
			}
		}
		// more goroutines and calls
		step := 128
		if thorough {
			step = 8
		}
		patterns(len(second), step, si*11, func(number func(t, i int) int) {
			var ts [][]bitOp
			for t := 0; t < 4; t++ {
				var p []bitOp
				for i := 0; i < 3; i++ {
					p = append(p, second[number(t, i)])
				}
				ts = append(ts, p)
			}
			ps = large(false, ps, func() rt.Prog { return bitProg(st, ts) })
		})
	}
	return ps
}
