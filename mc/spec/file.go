package spec

import (
	"fmt"

	"verif/rt"
)

// Operations of the file cache.
const (
	FileGet = iota
	FileMGet
	FileSet
	FileMSet
	FileDelete
	FilePurge
	FileWait
)

// FileCall is a call. Keys are numbers below 3, values are above 0.
type FileCall struct {
	Op   int
	Keys []int
	Vals []int
	TTL  int64
}

func (c FileCall) String() string {
	switch c.Op {
	case FileGet, FileMGet, FileDelete:
		return fmt.Sprintf("%s%v", []string{"Get", "MGet", "", "", "Delete"}[c.Op], c.Keys)
	case FileSet, FileMSet:
		return fmt.Sprintf("%s(%v,%v,%v)", []string{"Set", "MSet"}[c.Op-FileSet], c.Keys, c.Vals, ttlName(c.TTL))
	case FilePurge:
		return "Purge"
	}
	return fmt.Sprintf("wait %v", ttlName(c.TTL))
}

type fileState struct {
	now int64
	val [3]int
	exp [3]int64
}

// each of the steps a call consists of
type fileStep struct {
	op, key, val int
	ttl          int64
}

// CheckFiles decides whether the recorded history agrees with a map with expiry. A call on several
// keys takes place key by key, a purge is the deletion of each key.
func CheckFiles() error {
	var ops []*rt.OpRec
	id := -1
	for _, rec := range rt.History() {
		c := rec.Args[0].(FileCall)
		var res []int
		if rec.Res != nil {
			res = rec.Res.([]int)
		}
		add := func(st fileStep, inOrder bool) {
			if !inOrder {
				id--
			}
			ops = append(ops, &rt.OpRec{Thread: id, Args: []any{st}, Name: rec.Name, Inv: rec.Inv, Ret: rec.Ret})
		}
		id--
		switch c.Op {
		case FileGet, FileMGet:
			for i, k := range c.Keys {
				add(fileStep{op: FileGet, key: k, val: res[i]}, true)
			}
		case FileSet, FileMSet:
			for i, k := range c.Keys {
				add(fileStep{FileSet, k, c.Vals[i], c.TTL}, false)
			}
		case FileDelete:
			for _, k := range c.Keys {
				add(fileStep{op: FileDelete, key: k}, true)
			}
		case FilePurge:
			for k := 0; k < 3; k++ {
				add(fileStep{op: FileDelete, key: k}, false)
			}
		case FileWait:
			add(fileStep{op: FileWait, ttl: c.TTL}, true)
		}
	}
	m := rt.Model{Init: fileState{}, Apply: func(state any, rec *rt.OpRec) (any, bool) {
		s, o := state.(fileState), rec.Args[0].(fileStep)
		switch o.op {
		case FileGet:
			v := s.val[o.key]
			if s.exp[o.key] <= s.now {
				v = 0
			}
			return s, v == o.val
		case FileSet:
			s.val[o.key], s.exp[o.key] = o.val, s.now+o.ttl
		case FileDelete:
			s.val[o.key], s.exp[o.key] = 0, 0
		case FileWait:
			s.now += o.ttl
		}
		return s, true
	}}
	if !m.Linearizable(ops) {
		return fmt.Errorf("no order of the calls explains their results:\n%s", rt.Show(rt.History()))
	}
	return nil
}
