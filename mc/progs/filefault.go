package progs

import (
	"context"
	"fmt"
	"strings"
	"syscall"
	"time"

	"github.com/miniLCT/gosb/library/cachex"

	"verif/core"
	"verif/rt"
	"verif/v/memfs"
)

// A history with a crash or with failing file operations, on a cache from text to text.

const (
	ffSet = iota
	ffMSet
	ffDelete
	ffPurge
	ffGet
	ffMGet
	ffClean // time goes by until a cleaning is due, and a call starts it
)

type ffOp struct {
	op   int
	keys []string
	vals []string
	ttl  time.Duration
}

// brief shows the beginning of a long text and its length.
func brief(s string) string {
	if len(s) < 400 {
		return s
	}
	return fmt.Sprintf("%s... (%d bytes)", s[:40], len(s))
}

func (o ffOp) String() string {
	switch o.op {
	case ffSet, ffMSet:
		s := []string{"Set", "MSet"}[o.op]
		for i, k := range o.keys {
			s += fmt.Sprintf(" %s:%s", k, brief(o.vals[i]))
		}
		return s + fmt.Sprintf(" for %v", o.ttl)
	case ffClean:
		return "cleaning"
	}
	return []string{"Delete", "Purge", "Get", "MGet"}[o.op-ffDelete] + " " + strings.Join(o.keys, ",")
}

type ffStore = *cachex.FileStore[string, string]

func ffOpen() ffStore {
	return &cachex.FileStore[string, string]{Dir: fileDir, GCCycle: 10 * time.Second}
}

// answer is what a read shows of a key.
type answer struct {
	v   string
	ok  bool
	err error
}

// call makes the call; reads holds what it shows of keys.
func (o ffOp) call(c ffStore) (reads map[string]answer, err error) {
	ctx := context.Background()
	switch o.op {
	case ffSet:
		err = c.Set(ctx, o.keys[0], o.vals[0], o.ttl)
	case ffMSet:
		kvs := map[string]string{}
		for i, k := range o.keys {
			kvs[k] = o.vals[i]
		}
		err = c.MSet(ctx, kvs, o.ttl)
	case ffDelete:
		err = c.Delete(ctx, o.keys...)
	case ffPurge:
		err = c.Purge()
	case ffGet:
		v, ok, e := c.Get(ctx, o.keys[0])
		return map[string]answer{o.keys[0]: {v, ok, e}}, e
	case ffMGet:
		vs, oks, e := c.MGet(ctx, o.keys...)
		reads = map[string]answer{}
		if e == nil {
			for i, k := range o.keys {
				reads[k] = answer{vs[i], oks[i], nil}
			}
		}
		return reads, e
	case ffClean:
		rt.Advance(11 * time.Second)
		_, _, err = c.Get(ctx, "other")
	}
	return nil, err
}

type ffEntry struct {
	v   string
	exp int64
}

type ffModel map[string]ffEntry

func (m ffModel) live(k string) (string, bool) {
	e, ok := m[k]
	if !ok || e.exp <= rt.Now().UnixNano() {
		return "", false
	}
	return e.v, true
}

// apply is the effect of a call.
func (m ffModel) apply(o ffOp, now int64) ffModel {
	n := ffModel{}
	for k, e := range m {
		n[k] = e
	}
	switch o.op {
	case ffSet, ffMSet:
		for i, k := range o.keys {
			n[k] = ffEntry{o.vals[i], now + int64(o.ttl)}
		}
	case ffDelete:
		for _, k := range o.keys {
			delete(n, k)
		}
	case ffPurge:
		n = ffModel{}
	}
	return n
}

// ffRun is one execution: a history whose last call crashes or has failing file operations, and
// what is done afterwards.
type ffRun struct {
	hist []ffOp
	// crash: nothing works from the step on (-1: no crash)
	crash int
	// of the file written to last, cut bytes at the end are lost (zero: replaced by zeros)
	cut  int
	zero bool
	// steps that fail, and how many bytes a failing write writes before
	fail []int
	part int
	errn syscall.Errno
	// content replaces the file of the first key after the history, if damage is set
	damage  bool
	content string
	then    int
}

const ffThens = 9

var ffThenNames = [ffThens]string{"get", "mget", "set", "delete", "clean, get", "purge", "mset", "get, crash, get", "set in a damaged state, open, get"}

func (r *ffRun) String() string {
	s := fmt.Sprint(r.hist)
	if r.crash >= 0 {
		s += fmt.Sprintf("; crash at step %d of the last call", r.crash)
		if r.cut > 0 {
			s += fmt.Sprintf(", the last %d bytes written are lost", r.cut)
			if r.zero {
				s += " and read as zeros"
			}
		}
	}
	if len(r.fail) > 0 {
		s += fmt.Sprintf("; steps %v of the last call fail with %v after %d bytes", r.fail, r.errn, r.part)
	}
	if r.damage {
		s += fmt.Sprintf("; the file then holds %q", brief(r.content))
	}
	return s + "; then " + ffThenNames[r.then]
}

// ffSeen is what a run without continuation shows: the steps of the last call, and how many bytes
// each wrote.
type ffSeen struct {
	steps   int
	names   []string
	bytes   []int
	written []int // up to each step, bytes of the file written to last
}

func (r *ffRun) run(w *core.W) (seen ffSeen) {
	x := memfs.Reset()
	c := ffOpen()
	m := ffModel{}
	last := r.hist[len(r.hist)-1]
	for _, o := range r.hist[:len(r.hist)-1] {
		if _, err := o.call(c); err != nil {
			w.Fail("%v: error %v", o, err)
		}
		rt.Settle()
		m = m.apply(o, rt.Now().UnixNano())
	}
	var lastWritten *memfs.Inode
	var lastName string
	base := x.Steps
	written := 0
	x.Hook = func(step int, op, name string, n int) (error, int) {
		step -= base
		seen.names = append(seen.names, op+" "+name)
		seen.bytes = append(seen.bytes, n)
		seen.written = append(seen.written, written)
		if step == r.crash {
			x.Crashed = true
			return syscall.EIO, 0
		}
		for _, f := range r.fail {
			if f == step {
				return r.errn, min(r.part, n)
			}
		}
		if op == "write" {
			if in, err := x.Lookup(name); err == nil {
				if in != lastWritten {
					lastWritten, lastName, written = in, name, 0
				}
				written += n
			}
		}
		return nil, n
	}
	reads, err := last.call(c)
	rt.Settle()
	if n := rt.Live(); n > 0 {
		w.Fail("%d goroutines do not end", n)
	}
	x.Hook = nil
	seen.steps = x.Steps - base
	next := m.apply(last, rt.Now().UnixNano())
	crashed := r.crash >= 0
	x.Crashed = false
	if !crashed {
		for k, a := range reads {
			v, ok := m.live(k)
			if a.err == nil && a.ok && (!ok || a.v != v) {
				w.Fail("%v answers %q for %s, which holds %q %v", last, a.v, k, v, ok)
			}
			if len(r.fail) == 0 && a.err == nil && a.ok != ok {
				w.Fail("%v answers %v for %s, which holds %q %v", last, a, k, v, ok)
			}
		}
		if len(r.fail) == 0 && err != nil {
			w.Fail("%v: error %v", last, err)
		}
	}
	if crashed {
		if r.cut > 0 && lastWritten != nil {
			n := len(lastWritten.Data) - r.cut
			if n < 0 {
				w.Fail("machinery: cut %d of %s", r.cut, lastName)
			}
			d := append([]byte(nil), lastWritten.Data[:n]...)
			if r.zero {
				d = append(d, make([]byte, r.cut)...)
			}
			lastWritten.Data = d
		}
		c = ffOpen()
	}
	// what may be found of a key from now on
	type may struct {
		vals  map[string]bool
		miss  bool
		error bool
	}
	mays := map[string]*may{}
	for _, k := range []string{"a", "b", "c"} {
		y := &may{vals: map[string]bool{}}
		mays[k] = y
		// a call that reports success has taken effect
		if v, ok := next.live(k); ok {
			y.vals[v] = true
		} else {
			y.miss = true
		}
		if crashed || err != nil {
			if v, ok := m.live(k); ok {
				y.vals[v] = true
			} else {
				y.miss = true
			}
			for _, x := range last.keys {
				if x == k {
					y.miss, y.error = true, true
				}
			}
			if last.op == ffPurge {
				y.miss, y.error = true, true
			}
		}
		if len(r.fail) > 0 && (last.op == ffGet || last.op == ffMGet || last.op == ffClean) {
			y.miss, y.error = true, true
		}
		if r.damage && k == last.keys[0] {
			y.vals, y.miss, y.error = map[string]bool{}, true, true
			f := ""
			for name := range x.Files() {
				if strings.HasPrefix(name, fileDir) {
					f = name
				}
			}
			in, e := x.Lookup(f)
			if e != nil {
				w.Fail("machinery: no file to damage")
			}
			in.Data = []byte(r.content)
		}
	}
	check := func(k string, a answer) {
		y := mays[k]
		switch {
		case a.err != nil:
			if !y.error {
				w.Fail("Get(%s) returns the error %v", k, a.err)
			}
			// a damaged entry: from now on a miss
			y.vals, y.miss, y.error = map[string]bool{}, true, false
		case a.ok:
			if !y.vals[a.v] {
				w.Fail("Get(%s) finds %q, the key may hold %v", k, a.v, y.vals)
			}
			y.vals, y.miss, y.error = map[string]bool{a.v: true}, false, false
		default:
			if !y.miss {
				w.Fail("Get(%s) is a miss, the key must hold %v", k, y.vals)
			}
			if a.v != "" {
				w.Fail("Get(%s) is a miss, but answers %q", k, a.v)
			}
			y.vals, y.miss, y.error = map[string]bool{}, true, false
		}
	}
	get := func(k string) {
		rs, _ := ffOp{op: ffGet, keys: []string{k}}.call(c)
		check(k, rs[k])
	}
	must := func(o ffOp) {
		if _, err := o.call(c); err != nil {
			w.Fail("%v: error %v", o, err)
		}
		for i, k := range o.keys {
			y := mays[k]
			y.vals, y.miss, y.error = map[string]bool{}, o.op == ffDelete, false
			if o.op != ffDelete {
				y.vals[o.vals[i]] = true
			}
		}
		if o.op == ffPurge {
			for _, y := range mays {
				y.vals, y.miss, y.error = map[string]bool{}, true, false
			}
		}
	}
	all := func() {
		for _, k := range []string{"a", "b", "c", "a", "b"} {
			get(k)
		}
	}
	hour := time.Hour
	switch r.then {
	case 0:
		all()
		must(ffOp{ffSet, []string{"a"}, []string{"new"}, hour})
		all()
	case 1:
		for i := 0; i < 4; i++ {
			o := ffOp{op: ffMGet, keys: []string{"a", "b", "c"}}
			reads, err := o.call(c)
			if err == nil {
				for _, k := range o.keys {
					check(k, reads[k])
				}
				break
			}
			n := 0 // each error is that of one damaged entry
			for _, y := range mays {
				if y.error {
					n++
				}
			}
			if n <= i {
				w.Fail("%v returns error number %d: %v", o, i+1, err)
			}
			if i == 0 {
				for _, y := range mays {
					if y.error {
						y.miss = true
					}
				}
			}
		}
		all()
	case 2:
		must(ffOp{ffSet, []string{"a"}, []string{"new"}, hour})
		all()
		must(ffOp{ffSet, []string{"b"}, []string{"new b"}, hour})
		all()
	case 3:
		must(ffOp{op: ffDelete, keys: []string{"a"}})
		all()
		must(ffOp{op: ffDelete, keys: []string{"b", "a"}})
		all()
	case 4:
		if _, _, err := c.Get(context.Background(), "other"); err != nil {
			w.Fail("Get(other): %v", err)
		}
		rt.Advance(11 * time.Second)
		if _, _, err := c.Get(context.Background(), "other"); err != nil {
			w.Fail("Get(other): %v", err)
		}
		rt.Settle()
		for _, y := range mays {
			// damaged entries may have been removed
			y.miss = y.miss || y.error
		}
		now := m.apply(last, rt.Now().UnixNano()-int64(11*time.Second))
		for k, y := range mays { // those that had little time left
			for v := range y.vals {
				over := true
				for _, e := range []ffModel{m, now} {
					if x, ok := e.live(k); ok && x == v {
						over = false
					}
				}
				if over {
					delete(y.vals, v)
					y.miss = true
				}
			}
		}
		all()
	case 5:
		must(ffOp{op: ffPurge})
		all()
		must(ffOp{ffSet, []string{"b"}, []string{"new"}, hour})
		all()
	case 6:
		must(ffOp{ffMSet, []string{"b", "a"}, []string{"new b", "new a"}, hour})
		all()
	case 7:
		get("a")
		c = ffOpen()
		all()
	case 8:
		must(ffOp{ffSet, []string{"c"}, []string{"new"}, hour})
		c = ffOpen()
		get("b")
		must(ffOp{op: ffDelete, keys: []string{"c"}})
		all()
	}
	rt.Settle()
	return seen
}

func filePlans(thorough bool) []rt.Prog {
	const hour, short = time.Hour, 5 * time.Second
	set := func(k, v string, ttl time.Duration) ffOp { return ffOp{ffSet, []string{k}, []string{v}, ttl} }
	alpha := []ffOp{
		set("a", "old a", hour), set("b", "b's \"value\"", hour), set("a", "", short),
		{ffMSet, []string{"a", "b"}, []string{"both a", "both b"}, hour},
		{op: ffDelete, keys: []string{"a"}}, {op: ffDelete, keys: []string{"a", "b"}},
		{op: ffPurge},
	}
	lasts := append(append([]ffOp(nil), alpha...), set("a", "newer", hour), ffOp{op: ffGet, keys: []string{"a"}}, ffOp{op: ffMGet, keys: []string{"b", "a"}}, ffOp{op: ffClean})
	var pres [][]ffOp
	pres = append(pres, nil)
	for _, a := range alpha {
		pres = append(pres, []ffOp{a})
	}
	for _, a := range alpha {
		for _, b := range alpha {
			pres = append(pres, []ffOp{a, b})
		}
	}
	if thorough {
		for _, a := range alpha[:4] {
			for _, b := range append(alpha[:4:4], ffOp{op: ffClean}) {
				for _, c := range alpha {
					pres = append(pres, []ffOp{a, b, c})
				}
			}
		}
	}
	var hists [][]ffOp
	for _, pre := range pres {
		for _, l := range lasts {
			hists = append(hists, append(append([]ffOp(nil), pre...), l))
		}
	}
	for _, n := range []int{5000} {
		big, other := strings.Repeat("big ", n/4), strings.Repeat("<bad>", n/5)
		hists = append(hists, []ffOp{set("a", big, hour)}, []ffOp{set("a", "old a", hour), set("a", big, hour)}, []ffOp{set("a", big, hour), set("a", other, hour)},
			[]ffOp{set("a", big, hour), set("a", "", hour)}, []ffOp{set("a", big, hour), {op: ffGet, keys: []string{"a"}}}, []ffOp{{ffMSet, []string{"a", "b"}, []string{big, other}, hour}})
	}
	var ps []rt.Prog
	for _, h := range hists {
		name := fmt.Sprint("crashes and failures in ", h)
		ps = append(ps, rt.Prog{Name: name, Machine: func(c *core.Ctx, exec func(func())) { crashes(c, exec, name, h, thorough) }})
	}
	ps = append(ps, rt.Prog{Name: "damaged files", Machine: damages})
	return ps
}

// each runs the cases.
func each(c *core.Ctx, exec func(func()), name string, cases []*ffRun) {
	var n, different int64
	c.Serial(func(w *core.W) {
		for _, r := range cases {
			if c.Stopped() {
				return
			}
			n++
			different++
			w.Case(func() string { return r.String() }, func() { exec(func() { r.run(w) }) })
		}
	})
	c.AddEvals(n, different)
	if len(cases) > 0 {
		c.Sample(cases[len(cases)/2].String())
	}
}

func crashes(c *core.Ctx, exec func(func()), name string, h []ffOp, thorough bool) {
	var seen ffSeen
	r0 := &ffRun{hist: h, crash: -1}
	c.Serial(func(w *core.W) {
		w.Case(func() string { return r0.String() }, func() { exec(func() { seen = r0.run(w) }) })
	})
	if c.Stopped() {
		return
	}
	c.AddEvals(1, 0)
	var cases []*ffRun
	add := func(r ffRun) {
		r.hist = h
		for t := 0; t < ffThens; t++ {
			r := r
			r.then = t
			cases = append(cases, &r)
		}
	}
	for s := 0; s <= seen.steps; s++ {
		wr := 0
		if s < seen.steps {
			wr = seen.written[s]
		} else if s > 0 {
			wr = seen.written[s-1]
			if strings.HasPrefix(seen.names[s-1], "write ") {
				wr = seen.bytes[s-1]
			}
		}
		add(ffRun{crash: s})
		if s > 0 && wr > 0 {
			for cut := 1; cut <= wr; cut++ {
				if left := wr - cut; wr > 1000 && cut > 12 && left > 12 && (left+2)%4096 > 4 && left != wr/2 {
					continue // of long files, the ends and the borders of blocks
				}
				add(ffRun{crash: s, cut: cut})
				if thorough || cut%7 == 0 || cut == 1 || cut == wr {
					add(ffRun{crash: s, cut: cut, zero: true})
				}
			}
		}
	}
	for s := 0; s < seen.steps; s++ {
		for _, e := range []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EACCES} {
			parts := []int{0}
			if n := seen.bytes[s]; n > 0 {
				parts = append(parts, 1, n/2, n-1)
				if thorough && e == syscall.EIO {
					parts = nil
					for i := 0; i < n; i++ {
						parts = append(parts, i)
					}
				}
			}
			for _, p := range parts {
				add(ffRun{crash: -1, fail: []int{s}, part: p, errn: e})
			}
			if e == syscall.EIO {
				for s2 := s + 1; s2 < seen.steps; s2++ {
					add(ffRun{crash: -1, fail: []int{s, s2}, errn: e})
				}
			}
		}
	}
	each(c, exec, name, cases)
}

// damages replaces the file of an entry by other contents that are not those of an entry.
func damages(c *core.Ctx, exec func(func())) {
	h := []ffOp{{ffSet, []string{"a"}, []string{"the \"value\""}, time.Hour}}
	var content string
	read := func(h []ffOp) {
		x := memfs.Reset()
		if _, err := h[0].call(ffOpen()); err != nil {
			return
		}
		for name, d := range x.Files() {
			if strings.HasPrefix(name, fileDir) {
				content = string(d)
			}
		}
	}
	exec(func() { read(h) })
	contents := []string{"null", "{}", "[]", "0", "\"\"", "true", "garbage", content + "}", content + content, "{\"Data\":1,\"Exp\":9e18}", strings.Repeat("[", 20000), strings.Repeat("\x00", len(content)), "\x1f\x8b\x08"}
	for i := 0; i < len(content); i++ {
		contents = append(contents, content[:i], content[:i]+"\x00"+content[i+1:])
	}
	var cases []*ffRun
	for _, d := range contents {
		if strings.TrimSpace(d) == strings.TrimSpace(content) {
			continue
		}
		for t := 0; t < ffThens; t++ {
			cases = append(cases, &ffRun{hist: h, crash: -1, damage: true, content: d, then: t})
		}
	}
	// a long entry that ends early
	long := []ffOp{{ffSet, []string{"a"}, []string{strings.Repeat("the value ", 2_000)}, time.Hour}}
	exec(func() { read(long) })
	for n := 0; n < len(content); n++ {
		if n > 12 && len(content)-n > 12 && (n+1)%4096 > 2 && n != len(content)/2 {
			continue
		}
		if n >= len(strings.TrimSpace(content)) {
			break
		}
		for t := 0; t < ffThens; t++ {
			cases = append(cases, &ffRun{hist: long, crash: -1, damage: true, content: content[:n], then: t})
		}
	}
	each(c, exec, "damaged files", cases)
}
