package spec

import (
	"fmt"
	"strings"

	"verif/rt"
)

// Operations of bit sets. Snapshot is the reading of one operand by an operation on several.
const (
	BitSetOp = iota
	BitGet
	BitCount
	BitSub
	BitNot
	BitBytes
	BitClear
	BitSize
	BitRange
	BitString
	BitBinary
	BitAnd
	BitOr
	BitXor
	BitAndNot
	bitSnapshot
)

// BitNames are their names.
var BitNames = [...]string{"Set", "Get", "Count", "Sub", "Not", "Bytes", "Clear", "Size", "Range", "String", "Binary", "And", "Or", "Xor", "AndNot"}

func bitAt(s string, i int) bool { return s[i/8]>>(7-i%8)&1 == 1 }

func setBit(s string, i int, v bool) string {
	b := []byte(s)
	for len(b) <= i/8 {
		b = append(b, 0)
	}
	m := byte(1) << (7 - i%8)
	b[i/8] &^= m
	if v {
		b[i/8] |= m
	}
	return string(b)
}

func bitRange(n, a, b int) (int, int) {
	if a < 0 {
		a += n
	}
	if b < 0 {
		b += n
	}
	return max(a, 0), min(b, n-1)
}

// bitApply performs an operation on one set.
func bitApply(s string, op, x, y int) (string, any) {
	n := len(s) * 8
	switch op {
	case BitSetOp: // y: the new value
		if x < 0 {
			x += n
		}
		if x < 0 {
			return s, "false error"
		}
		old := x < n && bitAt(s, x)
		return setBit(s, x, y == 1), fmt.Sprint(old)
	case BitGet:
		if x < 0 {
			x += n
		}
		return s, x >= 0 && x < n && bitAt(s, x)
	case BitCount:
		c := 0
		for a, b := bitRange(n, x, y); a <= b; a++ {
			if bitAt(s, a) {
				c++
			}
		}
		return s, c
	case BitSub:
		a, b := bitRange(n, x, y)
		r := make([]byte, max(b-a+8, 0)/8)
		for i := a; i <= b; i++ {
			if bitAt(s, i) {
				r[(i-a)/8] |= 1 << (7 - (i-a)%8)
			}
		}
		return s, string(r)
	case BitNot:
		b := []byte(s)
		for i := range b {
			b[i] = ^b[i]
		}
		return s, string(b)
	case BitBytes:
		return s, s
	case BitClear:
		return strings.Repeat("\x00", len(s)), nil
	case BitSize:
		return s, n
	case BitRange:
		var r strings.Builder
		for i := 0; i < n; i++ {
			if bitAt(s, i) {
				r.WriteByte('1')
			} else {
				r.WriteByte('0')
			}
		}
		return s, r.String()
	case BitString:
		return s, fmt.Sprintf("%x", s)
	case BitBinary:
		var p []string
		for i := 0; i < len(s); i++ {
			p = append(p, fmt.Sprintf("%08b", s[i]))
		}
		return s, strings.Join(p, "-")
	}
	panic("unknown operation")
}

// bitCombine performs an operation on several sets.
func bitCombine(op int, sets []string) string {
	n := 0
	for _, s := range sets {
		n = max(n, len(s))
	}
	at := func(s string, i int) byte {
		if i < len(s) {
			return s[i]
		}
		return 0
	}
	r := make([]byte, n)
	for i := range r {
		r[i] = at(sets[0], i)
		for _, s := range sets[1:] {
			switch op {
			case BitAnd:
				r[i] &= at(s, i)
			case BitOr:
				r[i] |= at(s, i)
			case BitXor:
				r[i] ^= at(s, i)
			case BitAndNot:
				r[i] &^= at(s, i)
			}
		}
	}
	return string(r)
}

// bitState is the contents of the sets and what operations in progress have read, by number of the
// operation and operand.
type bitState struct {
	sets  [2]string
	snaps [12][3]string
}

// CheckBits decides whether the recorded history is explained by some order of the operations,
// where one on several sets reads each of them at a moment of its own.
func CheckBits(start [2]string) error {
	all := rt.History()
	var ops []*rt.OpRec
	multi := 0
	for _, o := range all {
		if o.Op < BitAnd {
			ops = append(ops, o)
			continue
		}
		operands := o.Args[0].([]int)
		for i, set := range operands {
			ops = append(ops, &rt.OpRec{Thread: -1 - len(ops), Op: bitSnapshot, Name: fmt.Sprintf("%s reads %d", o.Name, set), Args: []any{set, multi, i, i == len(operands)-1, o}, Inv: o.Inv, Ret: o.Ret})
		}
		multi++
	}
	// the operands of an operation are read in any order; the last one to be read decides
	left := func(st bitState, m, n int) bool {
		for i := 0; i < n; i++ {
			if st.snaps[m][i] == "" {
				return true
			}
		}
		return false
	}
	m := rt.Model{Init: bitState{sets: start}, Apply: func(state any, rec *rt.OpRec) (any, bool) {
		st := state.(bitState)
		if rec.Op != bitSnapshot {
			set := rec.Args[0].(int)
			next, res := bitApply(st.sets[set], rec.Op, rec.Args[1].(int), rec.Args[2].(int))
			st.sets[set] = next
			return st, res == rec.Res
		}
		o := rec.Args[4].(*rt.OpRec)
		k := rec.Args[1].(int)
		n := len(o.Args[0].([]int))
		st.snaps[k][rec.Args[2].(int)] = "s" + st.sets[rec.Args[0].(int)]
		if left(st, k, n) {
			return st, true
		}
		in := make([]string, n)
		for i := range in {
			in[i] = st.snaps[k][i][1:]
		}
		st.snaps[k] = [3]string{}
		return st, bitCombine(o.Op, in) == o.Res
	}}
	if !m.Linearizable(ops) {
		return fmt.Errorf("no order of the calls explains their results, starting from %x:\n%s", start, rt.Show(all))
	}
	return nil
}
