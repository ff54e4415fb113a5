package progs

import (
	"context"
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/miniLCT/gosb/library/cachex"

	"verif/core"
	"verif/rt"
	"verif/spec"
	"verif/v/memfs"
)

const fileDir = "/tmp/store"

// foreign are files that are not the cache's own.
var foreign = map[string]string{
	"/tmp/store/README":             "read me",
	"/tmp/store/0a1/2b3/notes.json": "{}",
	"/tmp/store/old.cache/keep.txt": "kept",
	"/tmp/other/x.cache":            "of another",
	"/tmp/a":                        "outside",
}

func putFile(x *memfs.FS, name, content string) {
	n := x.Root
	parts := strings.Split(strings.TrimPrefix(name, "/"), "/")
	for _, d := range parts[:len(parts)-1] {
		k := n.Kids[d]
		if k == nil {
			k = &memfs.Inode{Dir: true, Kids: map[string]*memfs.Inode{}, Mode: 0o755, MTime: rt.VirtualNow()}
			n.Kids[d] = k
		}
		n = k
	}
	n.Kids[parts[len(parts)-1]] = &memfs.Inode{Data: []byte(content), Mode: 0o644, MTime: rt.VirtualNow()}
}

// ownFiles are all files but the foreign ones.
func ownFiles(w *core.W) []string {
	fs := memfs.Cur.Files()
	for name, c := range foreign {
		d, ok := fs[name]
		if !ok {
			w.Fail("%s is gone", name)
		}
		if string(d) != c {
			w.Fail("%s has become %q", name, d)
		}
	}
	var own []string
	for name := range fs {
		if _, ok := foreign[name]; !ok {
			if !strings.HasPrefix(name, fileDir+"/") {
				w.Fail("a file outside of the directory: %s", name)
			}
			own = append(own, name)
		}
	}
	sort.Strings(own)
	return own
}

type fileEntry[V any] struct {
	val V
	exp int64
}

type fileInst[K comparable, V any] struct {
	c      *cachex.FileStore[K, V]
	now    int64
	have   map[K]fileEntry[V]
	lastOp int64 // time of the last call that may start a cleaning, 0: none on this store
	cycle  time.Duration
	// the last answer of MGet, and what it was
	vs, wantVs   []V
	oks, wantOks []bool
}

func newFileInst[K comparable, V any](cycle time.Duration) *fileInst[K, V] {
	x := memfs.Reset()
	for name, c := range foreign {
		putFile(x, name, c)
	}
	in := &fileInst[K, V]{cycle: cycle, have: map[K]fileEntry[V]{}, now: rt.Epoch}
	in.open()
	return in
}

func (in *fileInst[K, V]) open() {
	in.c = &cachex.FileStore[K, V]{Dir: fileDir, GCCycle: in.cycle}
	in.lastOp = 0
}

func (in *fileInst[K, V]) get(w *core.W, k K) {
	v, ok, err := in.c.Get(context.Background(), k)
	if err != nil {
		w.Fail("Get(%#v): error %v", k, err)
	}
	in.compare(w, "Get", k, v, ok)
}

func (in *fileInst[K, V]) compare(w *core.W, op string, k K, v V, ok bool) {
	e, have := in.have[k]
	if have && e.exp <= in.now {
		have = false
	}
	if ok != have {
		w.Fail("%s(%#v) finds %v %v, expected %v %v", op, k, v, ok, e.val, have)
	}
	var want V
	if have {
		want = e.val
	}
	if !reflect.DeepEqual(v, want) {
		w.Fail("%s(%#v) answers %#v, expected %#v", op, k, v, want)
	}
}

func (in *fileInst[K, V]) mget(w *core.W, ks ...K) {
	vs, oks, err := in.c.MGet(context.Background(), ks...)
	for i := range in.vs { // the last answer belongs to the caller
		if !reflect.DeepEqual(in.vs[i], in.wantVs[i]) || in.oks[i] != in.wantOks[i] {
			w.Fail("the answer %v %v of an earlier MGet has become %v %v", in.wantVs, in.wantOks, in.vs, in.oks)
		}
	}
	in.vs, in.wantVs, in.oks, in.wantOks = vs, append([]V(nil), vs...), oks, append([]bool(nil), oks...)
	if err != nil {
		w.Fail("MGet(%#v): error %v", ks, err)
	}
	if len(vs) != len(ks) || len(oks) != len(ks) {
		w.Fail("MGet(%#v) answers %v %v", ks, vs, oks)
	}
	for i, k := range ks {
		in.compare(w, "MGet", k, vs[i], oks[i])
	}
}

func (in *fileInst[K, V]) set(w *core.W, k K, v V, ttl time.Duration) {
	if err := in.c.Set(context.Background(), k, v, ttl); err != nil {
		w.Fail("Set(%#v): error %v", k, err)
	}
	in.have[k] = fileEntry[V]{v, spec.After(in.now, int64(ttl))}
}

func (in *fileInst[K, V]) mset(w *core.W, kvs map[K]V, ttl time.Duration) {
	if err := in.c.MSet(context.Background(), kvs, ttl); err != nil {
		w.Fail("MSet: error %v", err)
	}
	for k, v := range kvs {
		in.have[k] = fileEntry[V]{v, spec.After(in.now, int64(ttl))}
	}
}

func (in *fileInst[K, V]) del(w *core.W, ks ...K) {
	if err := in.c.Delete(context.Background(), ks...); err != nil {
		w.Fail("Delete(%#v): error %v", ks, err)
	}
	for _, k := range ks {
		delete(in.have, k)
	}
}

func (in *fileInst[K, V]) purge(w *core.W) {
	if err := in.c.Purge(); err != nil {
		w.Fail("Purge: error %v", err)
	}
	in.have = map[K]fileEntry[V]{}
	if f := ownFiles(w); len(f) > 0 {
		w.Fail("after Purge there is %v", f)
	}
}

// settle lets background work come to its end. If time for a cleaning has come for sure, it must
// have left no more files than live entries.
func (in *fileInst[K, V]) settle(w *core.W) {
	rt.Settle()
	if n := rt.Live(); n > 0 {
		w.Fail("%d goroutines do not end", n)
	}
	own := ownFiles(w)
	cycle := in.cycle
	if cycle <= 0 {
		cycle = time.Minute
	}
	if in.lastOp != 0 && in.now-in.lastOp >= int64(cycle+time.Second) {
		live := 0
		for _, e := range in.have {
			if e.exp > in.now {
				live++
			}
		}
		if len(own) > live {
			w.Fail("a cleaning was due after %v without calls, and there are %d files of %d live entries: %v",
				time.Duration(in.now-in.lastOp), len(own), live, own)
		}
	}
	in.lastOp = in.now
}

var numbers = regexp.MustCompile(`-?[0-9]{9,19}`)

// canon is the state of the store, the files and the model, relative to now.
func (in *fileInst[K, V]) canon() []byte {
	keep := 2*in.cycle + 3*time.Second
	if in.cycle == 0 {
		keep = 3 * time.Minute
	}
	rel := func(x int64) int64 {
		switch {
		case x > in.now-int64(24*time.Hour) && x < in.now+int64(24*time.Hour):
			return max(x-in.now, -int64(keep))
		case x > in.now/1e9-24*3600 && x < in.now/1e9+24*3600:
			return max(x-in.now/1e9, -int64(keep/time.Second))
		}
		return x
	}
	type file struct {
		name, data string
		mtime      int64
	}
	var fs []file
	var walk func(p string, n *memfs.Inode)
	walk = func(p string, n *memfs.Inode) {
		f := file{name: p}
		if !n.Dir {
			if _, ok := foreign[p]; ok {
				return
			}
			f.mtime = n.MTime
			f.data = numbers.ReplaceAllStringFunc(string(n.Data), func(s string) string {
				x, err := strconv.ParseInt(s, 10, 64)
				if err != nil {
					return s
				}
				if r := rel(x); r != x {
					return fmt.Sprint("now", max(r, -1))
				}
				return s
			})
		}
		fs = append(fs, f)
		for _, k := range n.Names() {
			walk(p+"/"+k, n.Kids[k])
		}
	}
	walk("", memfs.Cur.Root)
	have := map[K]fileEntry[V]{}
	for k, e := range in.have {
		if e.exp > in.now {
			have[k] = e
		}
	}
	return core.CanonRel(time.Unix(0, in.now), rel, in.c, fs, have, in.lastOp)
}

type fileOp[K comparable, V any] struct {
	name string
	rev  bool // the other order of maps
	do   func(w *core.W, in *fileInst[K, V])
}

// fileMachine has every history of a file cache as its paths.
func fileMachine[K comparable, V any](name string, cycle, step time.Duration, keys []K, vals []V, depth, states int) rt.Prog {
	return fileMachineFor(name, cycle, step, step/2, 5*step/2, keys, vals, depth, states)
}

func fileMachineFor[K comparable, V any](name string, cycle, step, short, mid time.Duration, keys []K, vals []V, depth, states int) rt.Prog {
	type inst = *fileInst[K, V]
	var ops []fileOp[K, V]
	add := func(do func(w *core.W, in inst), format string, args ...any) {
		ops = append(ops, fileOp[K, V]{fmt.Sprintf(format, args...), false, do})
	}
	for i, k := range keys {
		k, v := k, vals[i%len(vals)]
		add(func(w *core.W, in inst) { in.get(w, k) }, "Get(%#v)", k)
		add(func(w *core.W, in inst) { in.set(w, k, v, mid) }, "Set(%#v,%#v,%v)", k, v, mid)
		add(func(w *core.W, in inst) { in.set(w, k, v, short) }, "Set(%#v,%#v,%v)", k, v, short)
		if i == 0 {
			v2 := vals[(i+1)%len(vals)]
			add(func(w *core.W, in inst) { in.set(w, k, v2, mid) }, "Set(%#v,%#v,%v)", k, v2, mid)
			add(func(w *core.W, in inst) { in.set(w, k, v2, -step) }, "Set(%#v,%#v,%v)", k, v2, -step)
		}
		add(func(w *core.W, in inst) { in.del(w, k) }, "Delete(%#v)", k)
	}
	n := len(keys)
	a, b, v, v2 := keys[0], keys[1], vals[0], vals[1]
	add(func(w *core.W, in inst) { in.mget(w, a, b) }, "MGet(%#v,%#v)", a, b)
	add(func(w *core.W, in inst) { in.mget(w, b, a, keys[n-1], b) }, "MGet(%#v,%#v,%#v,%#v)", b, a, keys[n-1], b)
	add(func(w *core.W, in inst) { in.mset(w, map[K]V{a: v2, b: v}, mid) }, "MSet(%#v:%#v,%#v:%#v,%v)", a, v2, b, v, mid)
	add(func(w *core.W, in inst) { in.mset(w, map[K]V{a: v2, b: v2}, short) }, "MSet(%#v:%#v,%#v:%#v,%v)", a, v2, b, v2, short)
	add(func(w *core.W, in inst) { in.del(w, a, b, a) }, "Delete(%#v,%#v,%#v)", a, b, a)
	add(func(w *core.W, in inst) { in.purge(w) }, "Purge")
	add(func(w *core.W, in inst) { in.open() }, "open again")
	add(func(w *core.W, in inst) { rt.Advance(step); in.now += int64(step) }, "wait %v", step)
	idle := len(ops) - 3 // from here on: not calls that may start a cleaning
	var names []string
	for _, o := range ops {
		names = append(names, o.name)
	}
	return rt.Prog{Name: name, Machine: &core.Machine{
		Name: name, Ops: names, Depth: depth, States: states,
		New: func() any { return newFileInst[K, V](cycle) },
		Step: func(w *core.W, i any, op int) bool {
			in := i.(inst)
			ops[op].do(w, in)
			if op < idle {
				in.settle(w)
			} else {
				ownFiles(w)
			}
			return true
		},
		Canon: func(i any) []byte { return i.(inst).canon() },
		Check: func(w *core.W, i any) {
			in := i.(inst)
			in.mget(w, keys...)
			in.settle(w)
			in.open()
			for _, k := range keys {
				in.get(w, k)
			}
			in.settle(w)
		},
	}}
}

// fileLarge stores values, keys and batches of every size, in one order of the calls.
func fileLarge(thorough bool) rt.Prog {
	sizes := []int{0, 1, 2, 10, 100, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10_000, 32_767, 32_768, 65_535, 65_536, 65_537, 100_000, 1 << 20}
	if thorough {
		sizes = append(sizes, 1<<22, 1<<24, 1<<24+1)
	}
	const name, kinds = "large values, keys and batches", 3
	return rt.Prog{Name: name, Machine: func(c *core.Ctx, exec func(func())) {
		c.Enum(name, len(sizes)*kinds, func(i int) string {
			return fmt.Sprintf("%s of size %d", []string{"value", "key", "batch"}[i%kinds], sizes[i/kinds])
		}, func(w *core.W, i int) bool {
			n := sizes[i/kinds]
			if i%kinds == 2 && n > 5000 && !thorough || n > 70_000 && i%kinds == 2 {
				return false
			}
			exec(func() {
				in := newFileInst[string, string](time.Second)
				text := func(from int) string {
					b := make([]byte, n)
					for i := range b {
						b[i] = byte(' ' + (from+i*i)%95)
					}
					return string(b)
				}
				var ks []string
				switch i % kinds {
				case 0:
					in.set(w, "a", text(1), time.Hour)
					in.set(w, "b", "x", time.Hour)
					in.get(w, "a")
					in.set(w, "a", "short", time.Hour)
					in.get(w, "a")
					in.set(w, "a", text(2), time.Hour)
					ks = []string{"a", "b", "a"}
				case 1:
					ks = []string{text(1), text(1) + "x", "x" + text(1), text(2)}
					for j, k := range ks {
						in.set(w, k, fmt.Sprint(j), time.Hour)
					}
				case 2:
					kvs := map[string]string{}
					for j := 0; j < n; j++ {
						k := fmt.Sprint("key", j)
						ks = append(ks, k)
						kvs[k] = fmt.Sprint(j)
					}
					in.mset(w, kvs, time.Hour)
					for j := 0; j < n; j += 3 {
						in.set(w, ks[j], "again", time.Hour)
					}
					in.del(w, ks[:n/5]...)
				}
				in.mget(w, ks...)
				if f := ownFiles(w); len(f) != len(in.have) {
					w.Fail("%d files of %d entries", len(f), len(in.have))
				}
				in.open()
				in.mget(w, append(ks, ks...)...)
				rt.Advance(2 * time.Second)
				in.now += int64(2 * time.Second)
				in.get(w, "a")
				in.settle(w)
				in.mget(w, ks...)
				in.del(w, append(ks, ks...)...)
				in.mget(w, ks...)
				in.set(w, "a", text(3), time.Hour)
				in.purge(w)
				in.mget(w, append(ks, "a")...)
			})
			return true
		})
	}}
}

func fileMachines(thorough bool) []rt.Prog {
	q := func(a, b int) int {
		if thorough {
			return b
		}
		return a
	}
	type point struct {
		X, Y int
	}
	type pair struct {
		A, B string
	}
	type value struct {
		N  int64
		S  string
		L  []string
		M  map[string]int
		P  *int
		In struct{ F float64 }
	}
	seven := 7
	values := []value{
		{N: 1<<63 - 1, S: "\x00\"\\ü\u2028<&>", L: []string{"", "a"}, M: map[string]int{"b": 2, "": 1}, P: &seven},
		{N: -1, L: []string{}, In: struct{ F float64 }{0.1}},
	}
	values[0].In.F = 1e300
	const s = time.Second
	return []rt.Prog{
		fileLarge(thorough),
		fileMachine("text keys, cleaning every second", s, s, []string{"a", "b"}, []int{1, 2}, 0, q(3_000, 200_000)),
		fileMachine("text keys, cleaning every two seconds", 2*s, s, []string{"a", "b"}, []int{1, 2}, 0, q(3_000, 200_000)),
		fileMachine("text keys, cleaning every minute", 0, 31*s, []string{"a", "b"}, []int{1, 2}, 0, q(3_000, 200_000)),
		fileMachineFor("text keys, hundreds of years", s, s, s/2, 1<<63-1, []string{"a", "b"}, []int{1, 2}, 0, q(1_000, 20_000)),
		fileMachineFor("text keys, a century and none", s, s, -1<<63, 100*365*24*time.Hour, []string{"a", "b"}, []int{1, 2}, 0, q(1_000, 20_000)),
		fileMachine("three keys, cleaning every second", s, s, []string{"a", "b", "c"}, []int{1, 2}, 0, q(3_000, 400_000)),
		fileMachine("odd text keys", s, s, []string{"", "a", "A", "a/b", "../a", "/tmp/a", "a.cache", "a\x00", " a", "ä", "a:b", strings.Repeat("a", 300)}, []string{"x", ""}, q(2, 3), 0),
		fileMachine("integer keys", s, s, []int{0, 1, -1, 10, 1<<63 - 1, -1 << 63}, []string{"x", "y"}, q(2, 4), 0),
		fileMachine("byte keys", s, s, []uint8{0, 1, 255}, []bool{true, false}, q(2, 4), 0),
		fileMachine("point keys", s, s, []point{{1, 2}, {2, 1}, {12, 0}, {1, 20}}, []*int{&seven, nil}, q(2, 4), 0),
		fileMachine("pair keys", s, s, []pair{{"a", "b"}, {"a b", ""}, {"", "a b"}, {"a", "b "}, {"a", " b"}, {"a\"", "b"}, {"a\", B:\"b", ""}}, values, q(2, 3), 0),
		fileMachine("array keys", s, s, [][2]string{{"a", "b"}, {"a b", ""}, {"a", "b "}, {"b", "a"}, {"", "a b"}}, [][]byte{{1, 0}, {}}, q(2, 4), 0),
	}
}
