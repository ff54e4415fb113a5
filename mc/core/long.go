package core

import "fmt"

// Long regular histories for ordered containers: every combination of an insertion order, a deletion order and a way to
// mix the two, over a few sizes. They reach sizes the exhaustive searches cannot, regularly instead of by chance.

var LongOrders = []string{"ascending", "descending", "from both ends", "from the middle", "strided", "bit-reversed"}

// longOrder is the i-th of n ranks in an order: a permutation of 0..n-1.
func LongOrder(o, n, i int) int {
	switch o {
	case 0:
		return i
	case 1:
		return n - 1 - i
	case 2:
		if i%2 == 0 {
			return i / 2
		}
		return n - 1 - i/2
	case 3:
		if i%2 == 0 {
			return n/2 + i/2
		}
		return n/2 - 1 - i/2
	case 4:
		s := 7
		for n%s == 0 {
			s += 2
		}
		for gcd(n, s) != 1 {
			s++
		}
		return i * s % n
	}
	// the i-th number of the bit-reversed sequence below n
	bits := 0
	for 1<<bits < n {
		bits++
	}
	for j, k := 0, 0; ; j++ {
		r := 0
		for b := 0; b < bits; b++ {
			r |= j >> b & 1 << (bits - 1 - b)
		}
		if r < n {
			if k == i {
				return r
			}
			k++
		}
	}
}

// LongPerm is the whole permutation.
func LongPerm(o, n int) []int {
	r := make([]int, 0, n)
	if o < 5 {
		for i := 0; i < n; i++ {
			r = append(r, LongOrder(o, n, i))
		}
		return r
	}
	bits := 0
	for 1<<bits < n {
		bits++
	}
	for j := 0; j < 1<<bits; j++ {
		k := 0
		for b := 0; b < bits; b++ {
			k |= j >> b & 1 << (bits - 1 - b)
		}
		if k < n {
			r = append(r, k)
		}
	}
	return r
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

type LongOp struct {
	Del  bool
	Rank int
}

const LongMixes = 5

// LongHistory lists the operations over the ranks 0..n-1.
func LongHistory(n, ins, del, mix int) []LongOp {
	var a, b []int
	a, b = LongPerm(ins, n), LongPerm(del, n)
	var h []LongOp
	in := func(ks ...int) {
		for _, k := range ks {
			h = append(h, LongOp{false, k})
		}
	}
	out := func(ks ...int) {
		for _, k := range ks {
			h = append(h, LongOp{true, k})
		}
	}
	switch mix {
	case 0: // all in, all out
		in(a...)
		out(b...)
	case 1: // one out after every three in, whether it is there or not
		for i, k := range a {
			in(k)
			if i%3 == 2 {
				out(b[i/3])
			}
		}
		out(b...)
	case 2: // a window
		for i, k := range a {
			in(k)
			if i >= n/4 {
				out(a[i-n/4])
			}
		}
		in(b...)
	case 3: // every other one out, in again, then all out
		in(a...)
		out(b[:n/2]...)
		in(b[:n/2]...)
		out(b[n/2:]...)
		out(b[:n/2]...)
	case 4: // everything twice
		in(a...)
		in(b...)
		out(b...)
		in(b...)
	}
	return h
}

func LongName(n, ins, del, mix int) string {
	return fmt.Sprintf("%d keys, inserted %s, deleted %s, mix %d", n, LongOrders[ins], LongOrders[del], mix)
}
