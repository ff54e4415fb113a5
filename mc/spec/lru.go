package spec

import (
	"fmt"
	"strings"

	"verif/rt"
)

// Operations of the LRU cache.
const (
	LRUGet = iota
	LRUMGet
	LRUSet
	LRUMSet
	LRUDelete
	LRUWait
)

// LRUEntry is an entry; the most recently used come first.
type LRUEntry struct {
	Key, Val, Used int
	Exp            int64
}

// LRU is the model of the cache.
type LRU struct {
	Cap, MaxUsed int
	Now          int64
	N            int
	E            [5]LRUEntry
}

func (l *LRU) find(k int) int {
	for i := 0; i < l.N; i++ {
		if l.E[i].Key == k {
			return i
		}
	}
	return -1
}

func (l *LRU) remove(i int) LRUEntry {
	e := l.E[i]
	copy(l.E[i:], l.E[i+1:l.N])
	l.N--
	l.E[l.N] = LRUEntry{}
	return e
}

func (l *LRU) front(e LRUEntry) {
	copy(l.E[1:], l.E[:l.N])
	l.N++
	l.E[0] = e
}

// Get reads one key.
func (l *LRU) Get(k int) (int, bool) {
	i := l.find(k)
	if i < 0 {
		return 0, false
	}
	e := l.remove(i)
	if l.MaxUsed > 0 && e.Used >= l.MaxUsed || e.Exp < l.Now {
		return 0, false
	}
	if l.MaxUsed > 0 {
		e.Used++
	}
	l.front(e)
	return e.Val, true
}

// Set writes one key.
func (l *LRU) Set(k, v int, ttl int64) {
	if i := l.find(k); i >= 0 {
		l.remove(i)
	}
	l.front(LRUEntry{Key: k, Val: v, Exp: After(l.Now, ttl)})
	for l.N > l.Cap {
		l.remove(l.N - 1)
	}
}

// Delete removes one key.
func (l *LRU) Delete(k int) {
	if i := l.find(k); i >= 0 {
		l.remove(i)
	}
}

// Answer writes the result of a read out.
func Answer(v int, ok bool) string {
	if !ok {
		if v != 0 {
			return fmt.Sprintf("no, but %d ", v)
		}
		return "- "
	}
	return fmt.Sprintf("%d ", v)
}

// LRUCall is a call.
type LRUCall struct {
	Op   int
	Keys []int
	Vals []int
	TTL  int64
}

func (c LRUCall) String() string {
	switch c.Op {
	case LRUGet:
		return fmt.Sprintf("Get(%d)", c.Keys[0])
	case LRUMGet:
		return fmt.Sprintf("MGet%v", c.Keys)
	case LRUSet:
		return fmt.Sprintf("Set(%d,%d,%v)", c.Keys[0], c.Vals[0], ttlName(c.TTL))
	case LRUMSet:
		return fmt.Sprintf("MSet(%v,%v,%v)", c.Keys, c.Vals, ttlName(c.TTL))
	case LRUDelete:
		return fmt.Sprintf("Delete%v", c.Keys)
	}
	return fmt.Sprintf("wait %v", ttlName(c.TTL))
}

func ttlName(t int64) string { return fmt.Sprintf("%gs", float64(t)/1e9) }

// Steps returns the states that can follow a call with the given answer.
func (l LRU) Steps(c LRUCall, answer string) []LRU {
	switch c.Op {
	case LRUGet, LRUMGet:
		var sb strings.Builder
		for _, k := range c.Keys {
			sb.WriteString(Answer(l.Get(k)))
		}
		if sb.String() != answer {
			return nil
		}
		return []LRU{l}
	case LRUSet:
		l.Set(c.Keys[0], c.Vals[0], c.TTL)
		return []LRU{l}
	case LRUMSet: // in any order
		var out []LRU
		var rec func(l LRU, done int)
		rec = func(l LRU, done int) {
			if done == 1<<len(c.Keys)-1 {
				for _, o := range out {
					if o == l {
						return
					}
				}
				out = append(out, l)
				return
			}
			for i, k := range c.Keys {
				if done&(1<<i) == 0 {
					n := l
					n.Set(k, c.Vals[i], c.TTL)
					rec(n, done|1<<i)
				}
			}
		}
		rec(l, 0)
		return out
	case LRUDelete:
		for _, k := range c.Keys {
			l.Delete(k)
		}
		return []LRU{l}
	}
	l.Now += c.TTL
	return []LRU{l}
}

// CheckLRU decides whether the recorded history agrees with the model.
func CheckLRU(capacity, maxUsed int) error {
	m := rt.Model{Init: LRU{Cap: capacity, MaxUsed: maxUsed}, Steps: func(state any, rec *rt.OpRec) []any {
		var out []any
		a, _ := rec.Res.(string)
		for _, n := range state.(LRU).Steps(rec.Args[0].(LRUCall), a) {
			out = append(out, n)
		}
		return out
	}}
	if ops := rt.History(); !m.Linearizable(ops) {
		return fmt.Errorf("no order of the calls explains their results:\n%s", rt.Show(ops))
	}
	return nil
}

// After is the end of a lifetime, which may be the end of time.
func After(now, ttl int64) int64 {
	if end := now + ttl; ttl < 0 || end >= now {
		return end
	}
	return 1<<63 - 1
}
