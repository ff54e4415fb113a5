// Package spec holds the sequential models that recorded histories are compared with. It runs
// outside of the programs.
package spec

import (
	"fmt"

	"verif/rt"
)

// Operations of the concurrent map.
const (
	Load = iota
	Store
	LoadOrStore
	LoadAndDelete
	Delete
	Swap
	CompareAndSwap
	CompareAndDelete
	MapOps
)

// MapNames are their names.
var MapNames = [...]string{"Load", "Store", "LoadOrStore", "LoadAndDelete", "Delete", "Swap", "CompareAndSwap", "CompareAndDelete"}

// MapRes is what an operation returned.
type MapRes struct {
	V  int
	OK bool
}

type mapState [4]int // by key; 0: absent

func mapApply(st mapState, op, k, old, v int) (mapState, MapRes) {
	cur := st[k]
	res := MapRes{}
	switch op {
	case Load:
		res = MapRes{cur, cur != 0}
	case Store:
		st[k] = v
	case LoadOrStore:
		if cur == 0 {
			st[k] = v
			res = MapRes{v, false}
		} else {
			res = MapRes{cur, true}
		}
	case LoadAndDelete:
		st[k] = 0
		res = MapRes{cur, cur != 0}
	case Delete:
		st[k] = 0
	case Swap:
		st[k] = v
		res = MapRes{cur, cur != 0}
	case CompareAndSwap:
		if cur != 0 && cur == old {
			st[k] = v
			res.OK = true
		}
	case CompareAndDelete:
		if cur != 0 && cur == old {
			st[k] = 0
			res.OK = true
		}
	}
	return st, res
}

var mapModel = rt.Model{Init: mapState{}, Apply: func(state any, rec *rt.OpRec) (any, bool) {
	st, res := mapApply(state.(mapState), rec.Op, rec.Args[0].(int), rec.Args[1].(int), rec.Args[2].(int))
	return st, res == rec.Res.(MapRes)
}}

// CheckMap decides whether the recorded history is linearizable.
func CheckMap() error {
	ops := rt.History()
	if !mapModel.Linearizable(ops) {
		return fmt.Errorf("no order of the calls explains their results:\n%s", rt.Show(ops))
	}
	return nil
}

// RangeOp is a call of Range: its argument is false if its function ended it early. Visit is a call
// of its function.
const (
	RangeOp = MapOps + iota
	Visit
	rangeStart
	rangeEnd
)

// keyState is the value of a key, and whether during a Range it has been absent or changed.
type keyState struct {
	v    int
	in   bool
	free bool
}

func keyModel(k int) rt.Model {
	return rt.Model{Init: keyState{}, Apply: func(state any, rec *rt.OpRec) (any, bool) {
		st := state.(keyState)
		switch rec.Op {
		case Visit:
			return st, st.v != 0 && rec.Res.(int) == st.v
		case rangeStart:
			st.in, st.free = true, st.v == 0
			return st, true
		case rangeEnd:
			ok := st.free
			st.in, st.free = false, false
			return st, ok
		}
		m := mapState{}
		m[k] = st.v
		m, res := mapApply(m, rec.Op, k, rec.Args[1].(int), rec.Args[2].(int))
		if m[k] != st.v && st.in {
			st.free = true
		}
		st.v = m[k]
		return st, res == rec.Res.(MapRes)
	}}
}

// CheckRange decides whether the Ranges of the recorded history showed what they must. seen are
// the keys each showed, in order, and full whether its function let it go on to the end.
func CheckRange(rs []*rt.OpRec, seen [][]int, full []bool) error {
	all := rt.History()
	for i, r := range rs {
		n := map[int]int{}
		for _, k := range seen[i] {
			if n[k]++; n[k] > 1 {
				return fmt.Errorf("Range shows key %d twice: %v\n%s", k, seen[i], rt.Show(all))
			}
		}
		_ = r
	}
	for k := 1; k <= 3; k++ {
		var ops []*rt.OpRec
		for _, o := range all {
			if o.Op != RangeOp && o.Args[0].(int) == k {
				ops = append(ops, o)
			}
		}
		m := keyModel(k)
		if !m.Linearizable(ops) {
			return fmt.Errorf("no order of the calls explains what Range shows of key %d:\n%s", k, rt.Show(all))
		}
		for i, r := range rs {
			shown := false
			for _, q := range seen[i] {
				shown = shown || q == k
			}
			if shown || !full[i] {
				continue
			}
			with := append(ops[:len(ops):len(ops)],
				&rt.OpRec{Thread: -1000, Op: rangeStart, Name: "start", Inv: r.Inv, Ret: r.Inv},
				&rt.OpRec{Thread: -1000, Op: rangeEnd, Name: "end", Inv: r.Ret, Ret: r.Ret})
			if !m.Linearizable(with) {
				return fmt.Errorf("Range does not show key %d, which had one value all the time:\n%s", k, rt.Show(all))
			}
		}
	}
	return nil
}
