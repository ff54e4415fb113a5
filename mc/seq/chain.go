package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"maps"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/miniLCT/gosb/library/cachex"
	"verif/core"
)

func init() {
	core.Register("K01", "exploration", "a model of the chain: per level a fixed map and the keys asked for. One case is a chain, the contents of its levels and a request; non-trivial if some level has a requested key", chainReads)
	core.Register("K02", "fault_enumeration", "a model of the chain's error policy. One case assigns success, miss or error (with or without an answer) to every level; non-trivial if some level fails", chainErrors)
	core.Register("K03", "exploration", "the selections computed directly from keys, hits and values. One case is a key list with a hit pattern; non-trivial if there are hits and misses", batchViews)
}

// answer is what a level does when asked.
type answer int

const (
	answers     answer = iota // from its contents
	failsEmpty                // an error and nothing else
	failsHit                  // an error, but the answers are there
	answersNils               // a miss of everything, told by nil slices
)

type ctxKey struct{}

// level is a cache that holds fixed contents and records what it is asked.
type level struct {
	id    int
	data  map[int]string
	mode  answer
	wmode bool // writes fail
	err   error
	werr  error
	asked [][]int
	sets  []map[int]string
	setsT []time.Duration
	dels  [][]int
	multi bool // a batch call was made
	bad   string
}

func (l *level) ctx(ctx context.Context) {
	if ctx == nil || ctx.Value(ctxKey{}) != "x" {
		l.bad = "another context was passed on"
	}
}

// levelError is the error of a level: one of its own, a well-known one or one that wraps such.
func levelError(what string, level, kind int) error {
	if level < 6 {
		switch kind % 6 {
		case 0:
			return fmt.Errorf("%s error of level %d: %w", what, level, context.Canceled)
		case 1:
			return context.DeadlineExceeded
		case 2:
			return fmt.Errorf("%s error of level %d: %w", what, level, io.EOF)
		case 3:
			return fs.ErrNotExist
		case 4:
			return errors.Join(fmt.Errorf("%s error of level %d", what, level), io.ErrUnexpectedEOF)
		}
	}
	return fmt.Errorf("%s error of level %d", what, level)
}

func (l *level) Get(ctx context.Context, key int) (string, bool, error) {
	l.ctx(ctx)
	l.asked = append(l.asked, []int{key})
	v, ok := l.data[key]
	switch l.mode {
	case failsEmpty:
		return "", false, l.err
	case failsHit:
		return v, ok, l.err
	case answersNils:
		return "", false, nil
	}
	return v, ok, nil
}

func (l *level) MGet(ctx context.Context, keys ...int) ([]string, []bool, error) {
	l.ctx(ctx)
	l.asked = append(l.asked, slices.Clone(keys))
	l.multi = true
	vals, oks := make([]string, len(keys)), make([]bool, len(keys))
	for i, k := range keys {
		vals[i], oks[i] = l.data[k], l.data[k] != ""
	}
	switch l.mode {
	case failsEmpty:
		return nil, nil, l.err
	case failsHit:
		return vals, oks, l.err
	case answersNils:
		return nil, nil, nil
	}
	return vals, oks, nil
}

func (l *level) Set(ctx context.Context, key int, value string, ttl time.Duration) error {
	l.ctx(ctx)
	l.sets = append(l.sets, map[int]string{key: value})
	l.setsT = append(l.setsT, ttl)
	if l.wmode {
		return l.werr
	}
	return nil
}

func (l *level) MSet(ctx context.Context, kvs map[int]string, ttl time.Duration) error {
	l.ctx(ctx)
	l.sets = append(l.sets, maps.Clone(kvs))
	l.setsT = append(l.setsT, ttl)
	l.multi = true
	if l.wmode {
		return l.werr
	}
	return nil
}

func (l *level) Delete(ctx context.Context, keys ...int) error {
	l.ctx(ctx)
	l.dels = append(l.dels, slices.Clone(keys))
	if l.wmode {
		return l.werr
	}
	return nil
}

// stored is the union of what was stored in the level.
func (l *level) stored(w *core.W) map[int]string {
	u := map[int]string{}
	for i, s := range l.sets {
		if l.setsT[i] != levelTTL(l.id) {
			w.Fail("level %d was written with time-to-live %v, its own is %v", l.id, l.setsT[i], levelTTL(l.id))
		}
		for k, v := range s {
			if old, ok := u[k]; ok && old != v {
				w.Fail("level %d was backfilled with %q and %q for key %d", l.id, old, v, k)
			}
			u[k] = v
		}
	}
	return u
}

func levelTTL(i int) time.Duration { return time.Duration(i+1) * time.Hour }

type chainCase struct {
	data [][]int // per level: 1 if it has key k
	mode []answer
	wbad []bool
	cont bool
	keys []int
}

func (cc chainCase) String() string {
	var sb strings.Builder
	for i := range cc.data {
		fmt.Fprintf(&sb, "level %d has %v mode %d writes fail %v; ", i, cc.data[i], cc.mode[i], cc.wbad[i])
	}
	return fmt.Sprintf("%scontinue %v; keys %v", sb.String(), cc.cont, cc.keys)
}

func (cc chainCase) build() (*cachex.Chain[int, string], []*level) {
	ch := &cachex.Chain[int, string]{ContinueOnReadErr: cc.cont}
	var ls []*level
	for i := range cc.data {
		l := &level{id: i, data: map[int]string{}, mode: cc.mode[i], wmode: cc.wbad[i], err: levelError("read", i, i), werr: levelError("write", i, i+3)}
		for k, has := range cc.data[i] {
			if has == 1 {
				l.data[k] = fmt.Sprintf("L%dK%d", i, k)
			}
		}
		ls = append(ls, l)
		ch.Caches = append(ch.Caches, &cachex.ChainItem[int, string]{Cache: l, TTL: levelTTL(i)})
	}
	return ch, ls
}

var chainCtx = context.WithValue(context.Background(), ctxKey{}, "x")

func keySet(keys []int) []int {
	s := slices.Clone(keys)
	sort.Ints(s)
	return slices.Compact(s)
}

// checkRead runs a Get (single) or MGet and compares everything observable with the model.
func (cc chainCase) checkRead(w *core.W, single bool) {
	ch, ls := cc.build()
	keys := slices.Clone(cc.keys)
	var vals []string
	var oks []bool
	var err error
	if single {
		v, ok, e := ch.Get(chainCtx, keys[0])
		vals, oks, err = []string{v}, []bool{ok}, e
	} else {
		vals, oks, err = ch.MGet(chainCtx, keys...)
		if !slices.Equal(keys, cc.keys) {
			w.Fail("the caller's keys were changed to %v", keys)
		}
	}
	// model
	n := len(cc.keys)
	wantV, wantOK := make([]string, n), make([]bool, n)
	fill := make([]map[int]string, len(ls))
	for i := range fill {
		fill[i] = map[int]string{}
	}
	left := keySet(cc.keys)
	failed, asked := 0, 0
	var stop error
	for i, l := range ls {
		if len(left) == 0 {
			for j := i; j < len(ls); j++ {
				if len(ls[j].asked) > 0 {
					w.Fail("level %d was asked for %v, all keys had been found above", j, ls[j].asked)
				}
			}
			break
		}
		asked++
		var u []int
		for _, a := range l.asked {
			u = append(u, a...)
		}
		if !slices.Equal(keySet(u), left) {
			w.Fail("level %d was asked for %v, not found so far are %v", i, l.asked, left)
		}
		fails := l.mode == failsEmpty || l.mode == failsHit
		if fails {
			failed++
		}
		if fails && !cc.cont && !(single && l.mode == failsHit && l.data[left[0]] != "") {
			stop = l.err
			for j := i + 1; j < len(ls); j++ {
				if len(ls[j].asked) > 0 {
					w.Fail("level %d was asked for %v although level %d had failed", j, ls[j].asked, i)
				}
			}
			break
		}
		if l.mode == failsEmpty || l.mode == answersNils {
			continue
		}
		var still []int
		for _, k := range left {
			v := l.data[k]
			if v == "" {
				still = append(still, k)
				continue
			}
			for p, q := range cc.keys {
				if q == k {
					wantV[p], wantOK[p] = v, true
				}
			}
			for j := 0; j < i; j++ {
				fill[j][k] = v
			}
		}
		left = still
	}
	for _, l := range ls {
		if l.bad != "" {
			w.Fail("level %d: %s", l.id, l.bad)
		}
		if len(l.dels) > 0 {
			w.Fail("a read deleted %v in level %d", l.dels, l.id)
		}
		if got := l.stored(w); !maps.Equal(got, fill[l.id]) {
			w.Fail("level %d was backfilled with %v, expected %v", l.id, got, fill[l.id])
		}
	}
	if stop != nil {
		if !errors.Is(err, stop) {
			w.Fail("returned error %v, level's error is %v", err, stop)
		}
		if single && (oks[0] || vals[0] != "") {
			w.Fail("returned (%q, %v) with error %v of a level without a hit", vals[0], oks[0], err)
		}
		for i, ok := range oks {
			if ok && (!wantOK[i] || i < len(vals) && vals[i] != wantV[i]) {
				w.Fail("returned hit %v with values %v", oks, vals)
			}
		}
		return
	}
	if n > 0 && (len(vals) != n || len(oks) != n) || n == 0 && len(vals)+len(oks) > 0 {
		w.Fail("returned %d values and %d flags for %d keys", len(vals), len(oks), n)
	}
	if !slices.Equal(oks, wantOK) && n > 0 {
		w.Fail("returned flags %v, expected %v (values %v)", oks, wantOK, vals)
	}
	for i := range wantOK {
		if vals[i] != wantV[i] {
			w.Fail("returned %q at position %d, expected %q (flags %v)", vals[i], i, wantV[i], oks)
		}
	}
	switch {
	case single && wantOK[0], failed == 0:
		if err != nil {
			w.Fail("returned error %v", err)
		}
	case failed == asked && len(left) > 0: // nothing but errors
		if err == nil {
			w.Fail("every level asked failed, no error was returned")
		}
	}
	if err != nil && failed > 0 {
		some := false
		for _, l := range ls {
			some = some || errors.Is(err, l.err)
		}
		if !some {
			w.Fail("returned error %v, which is none of the levels'", err)
		}
	}
}

var depths = []int{5, 6, 7, 8, 9, 10, 16, 17, 33, 60}

// deepReads asks chains of many levels for three keys, of which two begin somewhere and the third is nowhere.
func deepReads(c *core.Ctx, failing bool) {
	reqs := [][]int{{0}, {0, 1}, {1, 2, 0}, {0, 1, 0, 2, 1}}
	hows := []answer{answers}
	if failing {
		hows = []answer{failsEmpty, failsHit}
	}
	for _, n := range depths {
		near := n <= 10
		others := 4
		if near {
			others = n + 1
		}
		bads := 6
		per := []int{n + 1, others, bads, len(reqs), 4, len(hows), 2}
		decode := func(i int) chainCase {
			d := core.Mixed(i, per...)
			cc := chainCase{keys: reqs[d[3]], cont: d[6] == 1}
			first := [3]int{d[0], d[1], n}
			if !near {
				first[1] = []int{0, d[0], d[0] + 1, n - 1}[d[1]]
			}
			bad := []int{-1, 0, d[0] - 1, d[0], d[0] + 1, n - 1}[d[2]]
			for l := 0; l < n; l++ {
				var data []int
				for _, f := range first {
					has := 0
					if l == f || l > f && (l-f)%3 == 0 {
						has = 1
					}
					data = append(data, has)
				}
				cc.data = append(cc.data, data)
				mode := answers
				if failing && (l == bad || d[4] == 3 && l%2 == 0) {
					mode = hows[d[5]]
				}
				cc.mode = append(cc.mode, mode)
				cc.wbad = append(cc.wbad, d[4] == 1 && l == max(bad, 0) || d[4] == 2)
			}
			return cc
		}
		what := "reads"
		if failing {
			what = "failing reads"
		}
		c.Enum(fmt.Sprintf("%s through %d levels, two keys", what, n), core.Prod(per...), func(i int) string { return decode(i).String() }, func(w *core.W, i int) bool {
			cc := decode(i)
			cc.checkRead(w, false)
			if len(cc.keys) == 1 {
				cc.checkRead(w, true)
			}
			return true
		})
	}
}

// deepWrites writes to chains of many levels of which none, one, two or all fail.
func deepWrites(c *core.Ctx) {
	for _, n := range depths {
		per := []int{12, n + 2, n + 1}
		c.Enum(fmt.Sprintf("writes through %d levels, two fail", n), core.Prod(per...), func(i int) string {
			return fmt.Sprintf("[operation, failing level, failing level] = %v (%d: none, %d: all)", core.Mixed(i, per...), n, n+1)
		}, func(w *core.W, i int) bool {
			d := core.Mixed(i, per...)
			bad := 0
			for _, l := range d[1:] {
				if l < n {
					bad |= 1 << l
				}
			}
			if d[1] == n+1 {
				bad = 1<<n - 1
			}
			return chainWrite(w, d[0], n, bad, 2)
		})
	}
}

func bitPat(i, n int) []int {
	r := make([]int, n)
	for k := range r {
		r[k] = i >> k & 1
	}
	return r
}

func chainReads(c *core.Ctx) {
	wideReads(c, false)
	deepReads(c, false)
	for levels := 0; levels <= core.Pick(c, 3, 4); levels++ {
		nk := core.Pick(c, 3, 3)
		sp := core.Words{Base: nk, Lo: 0, Hi: core.Pick(c, 4, 5)}
		per := []int{sp.N()}
		for i := 0; i < levels; i++ {
			per = append(per, 1<<nk)
			if levels < 4 {
				per = append(per, 2, 2)
			} else {
				per = append(per, 1, 1)
			}
		}
		decode := func(i int) chainCase {
			d := core.Mixed(i, per...)
			cc := chainCase{keys: sp.At(d[0])}
			for l := 0; l < levels; l++ {
				cc.data = append(cc.data, bitPat(d[1+3*l], nk))
				mode := answers
				if d[2+3*l] == 1 {
					mode = answersNils
				}
				cc.mode = append(cc.mode, mode)
				cc.wbad = append(cc.wbad, d[3+3*l] == 1)
			}
			return cc
		}
		c.Enum(fmt.Sprintf("reads through %d levels", levels), core.Prod(per...), func(i int) string { return decode(i).String() }, func(w *core.W, i int) bool {
			cc := decode(i)
			for l, m := range cc.mode {
				if m == answersNils && slices.Contains(cc.data[l], 1) {
					return false // such a level has no contents: the same as another case
				}
			}
			cc.checkRead(w, false)
			if len(cc.keys) == 1 {
				cc.checkRead(w, true)
			}
			for l := range cc.data {
				for _, k := range cc.keys {
					if cc.data[l][k] == 1 {
						return true
					}
				}
			}
			return false
		})
	}
}

// wide lists chains over many keys: per case a number of keys, levels, a periodic pattern of contents and an order of the
// requested keys; fail places one failing level (0: none).
var widths = []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300}

// veryWide are asked for with fewer patterns.
var veryWide = []int{511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4097, 10001}

func wideKeys(order, n int) []int {
	keys := make([]int, 0, 2*n)
	for k := 0; k < n; k++ {
		switch order {
		case 0:
			keys = append(keys, k)
		case 1:
			keys = append(keys, n-1-k)
		case 2: // every key twice, apart
			keys = append(keys, k%((n+1)/2))
		case 3: // in a scattered order
			keys = append(keys, k*7%n)
		case 4: // every key twice, side by side
			keys = append(keys, k/2)
		}
	}
	return keys
}

// widePat tells which keys a level holds: period, number of hits per period and a shift from level to level.
func widePat(pat, level, n int) []int {
	m := []int{1, 2, 3, 5, 8, 1 << 20}[pat%6]
	t := 1 + pat/6%3 // hits per period
	r := make([]int, n)
	for k := range r {
		if (k+level*(1+pat/18))%m < t && (m < 1<<20 || k < t) {
			r[k] = 1
		}
	}
	if pat/18 == 2 { // turned round
		for k := range r {
			r[k] = 1 - r[k]
		}
	}
	return r
}

func wideReads(c *core.Ctx, failing bool) {
	wideReads1(c, failing, widths, 54)
	ws := veryWide
	if failing && !c.Thorough {
		ws = []int{513, 1025, 4097}
	}
	wideReads1(c, failing, ws, core.Pick(c, 6, 54))
}

func wideReads1(c *core.Ctx, failing bool, ws []int, patterns int) {
	per := []int{len(ws), 5, 4, patterns} // width, order, levels, pattern
	if failing {
		per = append(per, 4, 3, 2)
	}
	decode := func(i int) chainCase {
		d := core.Mixed(i, per...)
		n := ws[d[0]]
		cc := chainCase{keys: wideKeys(d[1], n)}
		for l := 0; l <= d[2]; l++ {
			cc.data = append(cc.data, widePat(d[3], l, n))
			cc.mode = append(cc.mode, answers)
			cc.wbad = append(cc.wbad, false)
		}
		if failing {
			if d[4] <= d[2] {
				cc.mode[d[4]] = answer(1 + d[5])
			}
			cc.cont = d[6] == 1
		}
		return cc
	}
	what := "reads of many keys"
	if failing {
		what = "failing reads of many keys"
	}
	c.Enum(what, core.Prod(per...), func(i int) string {
		return fmt.Sprintf("[width, order, levels-1, pattern, failing level, how, continue] = %v (widths %v)", core.Mixed(i, per...), ws)
	}, func(w *core.W, i int) bool {
		cc := decode(i)
		cc.checkRead(w, false)
		return slices.Contains(cc.data[0], 1)
	})
}

func chainErrors(c *core.Ctx) {
	wideReads(c, true)
	deepReads(c, true)
	deepWrites(c)
	// reads
	for levels := 0; levels <= core.Pick(c, 3, 4); levels++ {
		nk := 2
		sp := core.Words{Base: nk, Lo: 0, Hi: core.Pick(c, 3, 4)}
		per := []int{sp.N(), 2}
		for i := 0; i < levels; i++ {
			per = append(per, 1<<nk, 4, 2)
		}
		decode := func(i int) chainCase {
			d := core.Mixed(i, per...)
			cc := chainCase{keys: sp.At(d[0]), cont: d[1] == 1}
			for l := 0; l < levels; l++ {
				cc.data = append(cc.data, bitPat(d[2+3*l], nk))
				cc.mode = append(cc.mode, answer(d[3+3*l]))
				cc.wbad = append(cc.wbad, d[4+3*l] == 1)
			}
			return cc
		}
		c.Enum(fmt.Sprintf("failing reads through %d levels", levels), core.Prod(per...), func(i int) string { return decode(i).String() }, func(w *core.W, i int) bool {
			cc := decode(i)
			cc.checkRead(w, false)
			if len(cc.keys) == 1 {
				cc.checkRead(w, true)
			}
			return slices.Contains(cc.mode, failsEmpty) || slices.Contains(cc.mode, failsHit)
		})
	}
	// writes
	for levels := 0; levels <= core.Pick(c, 4, 6); levels++ {
		c.Enum(fmt.Sprintf("writes through %d levels", levels), 12<<levels, func(i int) string {
			return fmt.Sprintf("operation %d with failing levels %v", i%12, bitPat(i/12, levels))
		}, func(w *core.W, i int) bool {
			return chainWrite(w, i%12, levels, i/12, 2)
		})
	}
	ws := append(slices.Clone(widths), veryWide...)
	per := []int{len(ws), 2, 4, 16}
	c.Enum("writes of many keys", core.Prod(per...), func(i int) string {
		return fmt.Sprintf("[width, operation, levels-1, failing] = %v (widths %v)", core.Mixed(i, per...), ws)
	}, func(w *core.W, i int) bool {
		d := core.Mixed(i, per...)
		return chainWrite(w, []int{1, 4}[d[1]], d[2]+1, d[3]&(2<<d[2]-1), ws[d[0]])
	})
}

// chainWrite does operation op through levels of which those of the bits in bad fail.
func chainWrite(w *core.W, op, levels, bad, n int) bool {
	pat := bitPat(bad, levels)
	cc := chainCase{cont: op >= 6}
	for l := range pat {
		cc.data = append(cc.data, []int{1, 0})
		cc.mode = append(cc.mode, answers)
		cc.wbad = append(cc.wbad, pat[l] == 1)
	}
	ch, ls := cc.build()
	var err error
	kvs := map[int]string{}
	var dels []int
	switch op % 6 {
	case 0:
		kvs[1] = "a"
		err = ch.Set(chainCtx, 1, "a", time.Second)
	case 1:
		kvs[1], kvs[2] = "a", ""
		for k := 3; k <= n; k++ {
			kvs[k] = fmt.Sprint(k)
		}
		err = ch.MSet(chainCtx, maps.Clone(kvs), time.Second)
	case 2:
		kvs[0] = ""
		err = ch.MSet(chainCtx, maps.Clone(kvs), 0)
	case 3:
		dels = []int{1}
		err = ch.Delete(chainCtx, 1)
	case 4:
		dels = []int{0, 2, 1}
		for k := 3; k <= n; k++ {
			dels = append(dels, k)
		}
		err = ch.Delete(chainCtx, slices.Clone(dels)...)
	case 5:
		kvs[1] = "a"
		err = ch.Set(chainCtx, 1, "a", levelTTL(0))
	}
	any := false
	for l, lv := range ls {
		if lv.bad != "" {
			w.Fail("level %d: %s", l, lv.bad)
		}
		if got := lv.stored(w); !maps.Equal(got, kvs) {
			w.Fail("level %d got %v instead of %v", l, got, kvs)
		}
		var u []int
		for _, d := range lv.dels {
			u = append(u, d...)
		}
		if !slices.Equal(keySet(u), keySet(dels)) {
			w.Fail("level %d was told to delete %v instead of %v", l, lv.dels, dels)
		}
		if len(lv.asked) > 0 {
			w.Fail("a write read level %d", l)
		}
		if pat[l] == 1 {
			any = true
			if !errors.Is(err, lv.werr) || !strings.Contains(err.Error(), lv.werr.Error()) {
				w.Fail("returned error %v, it lacks %v", err, lv.werr)
			}
		} else if errors.Is(err, lv.werr) {
			w.Fail("returned error %v, level %d did not fail", err, l)
		}
	}
	if !any && err != nil {
		w.Fail("returned error %v, no level failed", err)
	}
	return any
}

func batchViews(c *core.Ctx) {
	// per position: a key of three (equal keys agree, as a cache answers them)
	sp := core.Words{Base: 3, Lo: 0, Hi: core.Pick(c, 6, 8)}
	c.Enum("batch results", sp.N()*8*2, func(i int) string {
		return fmt.Sprintf("keys %v, cached %v", sp.At(i/16), bitPat(i%8, 3))
	}, func(w *core.W, i int) bool {
		return batchView(w, sp.At(i/16), bitPat(i%8, 3), i/8%2 == 1)
	})
	ws := append(slices.Clone(widths), veryWide...)
	per := []int{len(ws), 5, 54, 2}
	c.Enum("batch results of many keys", core.Prod(per...), func(i int) string {
		return fmt.Sprintf("[width, order, pattern, error] = %v (widths %v)", core.Mixed(i, per...), ws)
	}, func(w *core.W, i int) bool {
		d := core.Mixed(i, per...)
		n := ws[d[0]]
		return batchView(w, wideKeys(d[1], n), widePat(d[2], 1, n), d[3] == 1)
	})
}

func batchView(w *core.W, keys, has []int, fails bool) bool {
	l := &level{data: map[int]string{}, err: errors.New("partial")}
	if fails {
		l.mode = failsHit
	}
	for k, h := range has {
		if h == 1 {
			l.data[k] = fmt.Sprintf("V%d", k)
		}
	}
	r, err := cachex.MGet[int, string](chainCtx, l, keys...)
	if (l.mode == failsHit) != (err != nil) || err != nil && !errors.Is(err, l.err) {
		w.Fail("returned error %v", err)
	}
	if l.bad != "" {
		w.Fail("%s", l.bad)
	}
	if len(l.asked) != 1 || !slices.Equal(l.asked[0], keys) {
		w.Fail("the cache was asked for %v", l.asked)
	}
	type item struct {
		key int
		hit bool
		val string
	}
	var all []item
	hits, misses := []int{}, []int{}
	vals := map[int]string{}
	for _, k := range keys {
		v := l.data[k]
		all = append(all, item{k, v != "", v})
		if v != "" {
			hits = append(hits, k)
			vals[k] = v
		} else {
			misses = append(misses, k)
		}
	}
	for stop := 1; stop <= len(keys)+1; stop++ {
		if len(keys) > 10 && stop > 3 && stop < len(keys)-1 && stop != len(keys)/2 {
			continue
		}
		var got, gotHit []item
		var gotMiss []int
		r.Range(func(k int, hit bool, v string) bool {
			got = append(got, item{k, hit, v})
			return len(got) < stop
		})
		r.RangeHit(func(k int, v string) bool {
			gotHit = append(gotHit, item{k, true, v})
			return len(gotHit) < stop
		})
		r.RangeMiss(func(k int) bool {
			gotMiss = append(gotMiss, k)
			return len(gotMiss) < stop
		})
		if !slices.Equal(got, all[:min(stop, len(all))]) {
			w.Fail("Range stopped after %d visited %v of %v", stop, got, all)
		}
		if !slices.Equal(gotMiss, misses[:min(stop, len(misses))]) {
			w.Fail("RangeMiss stopped after %d visited %v of %v", stop, gotMiss, misses)
		}
		var wantHit []item
		for _, k := range hits[:min(stop, len(hits))] {
			wantHit = append(wantHit, item{k, true, vals[k]})
		}
		if !slices.Equal(gotHit, wantHit) {
			w.Fail("RangeHit stopped after %d visited %v of %v", stop, gotHit, wantHit)
		}
	}
	h2, m2 := r.HitMissKeys()
	if !slices.Equal(r.HitKeys(), hits) || !slices.Equal(h2, hits) {
		w.Fail("hit keys %v and %v, expected %v", r.HitKeys(), h2, hits)
	}
	if !slices.Equal(r.MissKeys(), misses) || !slices.Equal(m2, misses) {
		w.Fail("missed keys %v and %v, expected %v", r.MissKeys(), m2, misses)
	}
	if !maps.Equal(r.HitMapValues(), vals) {
		w.Fail("map of hits %v, expected %v", r.HitMapValues(), vals)
	}
	// the results are the caller's own
	for order := 0; order < 2; order++ {
		h1, m1 := r.HitKeys(), r.MissKeys()
		h2, m2 := r.HitMissKeys()
		lists := [][]int{h1, h2, m1, m2}
		if order == 1 {
			lists = [][]int{m2, m1, h2, h1}
		}
		for n, l := range lists {
			for i, end := 0, len(l)+2; i < end; i++ { // writes the elements, then appends
				l = append(l[:i], -1-n)
			}
		}
		for n, l := range lists {
			if slices.ContainsFunc(l, func(k int) bool { return k != -1-n }) {
				w.Fail("writing or appending to one of the key lists changes another: %v", lists)
			}
		}
	}
	hm := r.HitMapValues()
	hm[-1] = "x"
	for k := range vals {
		delete(hm, k)
	}
	if !slices.Equal(r.HitKeys(), hits) || !slices.Equal(r.MissKeys(), misses) || !maps.Equal(r.HitMapValues(), vals) {
		w.Fail("writing to the results changes the view: hits %v, misses %v, values %v", r.HitKeys(), r.MissKeys(), r.HitMapValues())
	}
	// the no-op cache
	var nc cachex.NoCache[int, string]
	for _, k := range keys {
		if e := errors.Join(nc.Set(chainCtx, k, "x", time.Hour), nc.MSet(chainCtx, map[int]string{k: "x"}, time.Hour), nc.Delete(chainCtx, k)); e != nil {
			w.Fail("the no-op cache returned error %v", e)
		}
		if v, ok, e := nc.Get(chainCtx, k); v != "" || ok || e != nil {
			w.Fail("the no-op cache's Get returned (%q, %v, %v)", v, ok, e)
		}
	}
	vs, oks, e := nc.MGet(chainCtx, keys...)
	if e != nil || len(vs) != len(keys) || len(oks) != len(keys) || slices.Contains(oks, true) || slices.ContainsFunc(vs, func(s string) bool { return s != "" }) {
		w.Fail("the no-op cache's MGet returned (%q, %v, %v)", vs, oks, e)
	}
	if m := func() []int { r, _ := cachex.MGet[int, string](chainCtx, &nc, keys...); return r.MissKeys() }(); !slices.Equal(m, keys) && len(keys) > 0 {
		w.Fail("the no-op cache misses %v of %v", m, keys)
	}
	return len(hits) > 0 && len(misses) > 0
}
