package progs

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"sort"
	"time"

	"github.com/miniLCT/gosb/gogenerics/gconcurrent/mr"
	gsync "github.com/miniLCT/gosb/gogenerics/gconcurrent/sync"
	"github.com/miniLCT/gosb/gogenerics/gconstraints"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gheap"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/glist"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gmap"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gqueue"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gring"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gset"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gslice"
	grbt "github.com/miniLCT/gosb/gogenerics/gds/grbt"
	"github.com/miniLCT/gosb/gogenerics/gds/gskiplist"
	"github.com/miniLCT/gosb/gogenerics/gnumerics"
	"github.com/miniLCT/gosb/hack/fastrand"
	"github.com/miniLCT/gosb/hack/unsafex"
	"github.com/miniLCT/gosb/library/bitset"
	"github.com/miniLCT/gosb/library/cachex"
	"github.com/miniLCT/gosb/library/cryptox"
	"github.com/miniLCT/gosb/library/password"
	"github.com/miniLCT/gosb/library/stringx"

	"verif/rt"
	"verif/v/memfs"
)

// What goroutines that share nothing, or only read what they share, do at the same time.

// pureIn are values that every call may read and none may change. The slices have room behind their ends.
type pureIn struct {
	key, text, cbc, cbc64, ctr, ctr64, ecb []byte
	ints, more, few                        []int
	strs                                   []string
	m, m2                                  map[string]int
	entries                                []gconstraints.Entry[string, int]
	num                                    int
}

func room[T any](s ...T) []T {
	return append(make([]T, 0, len(s)+40), s...)
}

func newPureIn() *pureIn {
	return &pureIn{
		key:  room([]byte("0123456789abcdef")...),
		text: room([]byte("some text to be used by everybody")...),
		// made with the functions of this library and the key and text above
		cbc: room([]byte(pureCBC)...), ctr: room([]byte(pureCTR)...), ecb: room([]byte(pureECB)...),
		cbc64: room([]byte(pureCBC64)...), ctr64: room([]byte(pureCTR64)...),
		ints: room(3, 1, 2, 3, 1), more: room(5, 6), few: room(1, 2, 4, 8),
		strs: room("b", "a", "b"),
		m:    map[string]int{"x": 1, "y": 2}, m2: map[string]int{"x": 1, "y": 2},
		entries: room(gconstraints.Entry[string, int]{Key: "x", Value: 1}, gconstraints.Entry[string, int]{Key: "y", Value: 2}),
		num:     7,
	}
}

const (
	pureCBC64 = "JdcTOs8U-AiGL9Zy3uyT2qlFizNatyemcRcq72JXwzbiWrDyv8yOteyfMWnmUJaSlL2yLWqo0v8ycOetJ_l45g"
	pureCBC   = "25d7133acf14f808862fd672deec93daa9458b335ab727a671172aef6257c336e25ab0f2bfcc8eb5ec9f3169e650969294bdb22d6aa8d2ff3270e7ad27f978e6"
	pureCTR64 = "su5M0EvPReSt6OABW1PppghOiF63zKTZE2yRR_qfi8rSbckAz2cS9T4Y_xayeeRcjQ"
	pureCTR   = "b2ee4cd04bcf45e4ade8e0015b53e9a6084e885eb7cca4d9136c9147fa9f8bcad26dc900cf6712f53e18ff16b279e45c8d"
	pureECB   = "c3e9f09bd6d5149e9673e24e64476ba867440db1573b5eefd97986fb1ab8f03251427f57d175f7b9fb8aebdef0bf44b4"
)

func (in *pureIn) show() string {
	return fmt.Sprint(in.key[:cap(in.key)], in.text[:cap(in.text)], in.cbc[:cap(in.cbc)], in.cbc64[:cap(in.cbc64)], in.ctr[:cap(in.ctr)],
		in.ctr64[:cap(in.ctr64)], in.ecb[:cap(in.ecb)], in.ints[:cap(in.ints)], in.more[:cap(in.more)], in.few[:cap(in.few)], in.strs[:cap(in.strs)],
		in.m, in.m2, in.entries[:cap(in.entries)], in.num)
}

// pureCall is a call. It returns what shows its result, which may be asked for again later. The given function
// is called from the function that the call gets, if it gets one.
type pureCall struct {
	name string
	back bool // has a function
	do   func(in *pureIn, f func()) func() string
	dir  string // what else it uses
}

func val(v ...any) func() string { return func() string { return fmt.Sprintf("%#v", v) } }

func valErr(b []byte, err error) func() string {
	return func() string { return fmt.Sprintf("%q %v", b, err) }
}

func sorted[T any](s []T) func() string {
	return func() string {
		var out []string
		for _, x := range s {
			out = append(out, fmt.Sprintf("%#v", x))
		}
		sort.Strings(out)
		return fmt.Sprint(out)
	}
}

func pureCalls() []pureCall {
	var cs []pureCall
	add := func(name string, do func(in *pureIn) func() string) {
		cs = append(cs, pureCall{name: name, do: func(in *pureIn, _ func()) func() string { return do(in) }})
	}
	call := func(name string, do func(in *pureIn, f func()) func() string) {
		cs = append(cs, pureCall{name: name, back: true, do: do})
	}
	str := func(name string, f func(string) string, args ...string) {
		for _, a := range args {
			a := a
			add(fmt.Sprintf("%s(%q)", name, a), func(*pureIn) func() string { s := f(a); return func() string { return s } })
		}
	}
	sum := func(name string, f func([]byte) string) {
		add(name, func(in *pureIn) func() string { return val(f(in.text)) })
		add(name+" of nothing", func(in *pureIn) func() string { return val(f(nil)) })
	}
	// cryptox
	sum("Md5", cryptox.Md5)
	sum("Sha1", cryptox.Sha1)
	sum("Sha256", cryptox.Sha256)
	sum("Sha512", cryptox.Sha512)
	add("Fnv1aToUint32", func(in *pureIn) func() string { return val(cryptox.Fnv1aToUint32(in.text)) })
	add("Fnv1aToUint64", func(in *pureIn) func() string { return val(cryptox.Fnv1aToUint64(in.text)) })
	for _, b64 := range []bool{false, true} {
		b64 := b64
		opened := func(c []byte, open func(k, c []byte, b ...bool) ([]byte, error), in *pureIn) func() string {
			return func() string {
				p, err := open(in.key, append([]byte(nil), c...), b64)
				return fmt.Sprintf("%q %v", p, err)
			}
		}
		add(fmt.Sprint("AESEncrypt ", b64), func(in *pureIn) func() string {
			c := cryptox.AESEncrypt(in.key, in.text, b64)
			return func() string { return fmt.Sprintf("%q", c) }
		})
		add(fmt.Sprint("AESCBCEncrypt ", b64), func(in *pureIn) func() string {
			return opened(cryptox.AESCBCEncrypt(in.key, in.text, b64), cryptox.AESCBCDecrypt, in)
		})
		add(fmt.Sprint("AESCTREncrypt ", b64), func(in *pureIn) func() string {
			return opened(cryptox.AESCTREncrypt(in.key, in.text, b64), cryptox.AESCTRDecrypt, in)
		})
	}
	add("AESDecrypt", func(in *pureIn) func() string { return valErr(cryptox.AESDecrypt(in.key, in.ecb)) })
	add("AESCBCDecrypt", func(in *pureIn) func() string { return valErr(cryptox.AESCBCDecrypt(in.key, in.cbc)) })
	add("AESCBCDecrypt base64", func(in *pureIn) func() string { return valErr(cryptox.AESCBCDecrypt(in.key, in.cbc64, true)) })
	add("AESCTRDecrypt", func(in *pureIn) func() string { return valErr(cryptox.AESCTRDecrypt(in.key, in.ctr)) })
	add("AESCTRDecrypt base64", func(in *pureIn) func() string { return valErr(cryptox.AESCTRDecrypt(in.key, in.ctr64, true)) })
	add("AESDecrypt of garbage", func(in *pureIn) func() string { return valErr(cryptox.AESDecrypt(in.key, in.text)) })
	// stringx
	str("SnakeString", stringx.SnakeString, "", "XxYy", "someLongerName")
	str("CamelString", stringx.CamelString, "", "xx_yy", "_some_longer_name")
	str("LintCamelString", stringx.LintCamelString, "", "id", "http_server_url_of_json")
	str("SpaceInOne", stringx.SpaceInOne, "", " a\t b\n\n\r c  ", "ab")
	str("HTMLEntityToUTF8", func(s string) string { return stringx.HTMLEntityToUTF8(s, 16) }, "", "&#4f60;&#597d;!", "a&#zz;b")
	str("CodePointToUTF8", func(s string) string { return stringx.CodePointToUTF8(s, 16) }, "", `\u4f60\u597d!`, `a\uzzb`)
	str("Indent", func(s string) string { return stringx.Indent(s, "> ") }, "", "a\nb\n", "a\n\n")
	for _, html := range []bool{false, true} {
		for _, s := range []string{"", "a\"b\\c<d>\n\x01\u2028\xff", "plain"} {
			html, s := html, s
			add(fmt.Sprintf("StringMarshalJSON(%q, %v)", s, html), func(*pureIn) func() string {
				b := stringx.StringMarshalJSON(s, html)
				return func() string { return string(b) }
			})
		}
	}
	add("CheckPassword", func(in *pureIn) func() string {
		return val(password.CheckPassword("aB1!", password.N|password.L|password.U|password.S, 1, 8),
			password.CheckPassword("ab", password.LorU, 1), password.CheckPassword("ab", password.N, 1, 8))
	})
	add("SliceToString", func(in *pureIn) func() string { s := unsafex.SliceToString(in.text); return func() string { return s } })
	add("StringToSlice", func(in *pureIn) func() string {
		b := unsafex.StringToSlice("text in a string")
		return func() string { return string(b) }
	})
	// fastrand: what is checked is the range of what comes out
	ok := func(name string, f func() bool) {
		add(name, func(*pureIn) func() string { return val(f()) })
	}
	perm := func(p []int) bool {
		seen := make([]bool, len(p))
		for _, x := range p {
			if x < 0 || x >= len(p) || seen[x] {
				return false
			}
			seen[x] = true
		}
		return true
	}
	ok("fastrand numbers", func() bool {
		a, b, c, d, e, f := fastrand.Int31n(7), fastrand.Int63n(7), fastrand.Intn(7), fastrand.Uint32n(7), fastrand.Uint64n(7), fastrand.Uintn(7)
		return a >= 0 && a < 7 && b >= 0 && b < 7 && c >= 0 && c < 7 && d < 7 && e < 7 && f < 7 &&
			fastrand.Int() >= 0 && fastrand.Int31() >= 0 && fastrand.Int63() >= 0 && fastrand.Float32() < 1 && fastrand.Float64() < 1
	})
	ok("fastrand words", func() bool { return fastrand.Uint64()|uint64(fastrand.Uint32())|uint64(fastrand.Uint()) != 0 })
	ok("fastrand.Perm", func() bool { return perm(fastrand.Perm(7)) })
	add("fastrand.Perm kept", func(*pureIn) func() string {
		p := fastrand.Perm(9)
		return func() string { return fmt.Sprint(perm(p)) }
	})
	add("fastrand.Read", func(*pureIn) func() string {
		b := make([]byte, 32)
		n, err := fastrand.Read(b[:21])
		return val(n, err, bytes.Equal(b[21:], make([]byte, 11)))
	})
	call("fastrand.Shuffle", func(_ *pureIn, f func()) func() string {
		p := []int{0, 1, 2, 3}
		fastrand.Shuffle(4, func(i, j int) { f(); p[i], p[j] = p[j], p[i] })
		return func() string { return fmt.Sprint(perm(p)) }
	})
	// slices
	add("gslice.Copy", func(in *pureIn) func() string { return val(gslice.Copy(in.ints)) })
	add("gslice.Equal", func(in *pureIn) func() string {
		return val(gslice.Equal(in.ints, in.ints), gslice.Equal(in.ints, in.more))
	})
	call("gslice.EqualWithFunc", func(in *pureIn, f func()) func() string {
		return val(gslice.EqualWithFunc(in.ints, in.ints, func(a, b int) bool { f(); return a == b }))
	})
	add("gslice.Index", func(in *pureIn) func() string { return val(gslice.Index(in.ints, 2), gslice.Contains(in.strs, "c")) })
	call("gslice.IndexWithFunc", func(in *pureIn, f func()) func() string {
		return val(gslice.IndexWithFunc(in.ints, func(a int) bool { f(); return a == 2 }), gslice.ContainsWithFunc(in.ints, func(a int) bool { return a == 9 }))
	})
	add("gslice.Unique", func(in *pureIn) func() string { return val(gslice.Unique(in.ints)) })
	add("gslice.Unique of strings", func(in *pureIn) func() string { return val(gslice.Unique(in.strs)) })
	call("gslice.UniqueWithFunc", func(in *pureIn, f func()) func() string {
		return val(gslice.UniqueWithFunc(in.ints, func(a int) int { f(); return a % 2 }))
	})
	add("gslice.Merge", func(in *pureIn) func() string { return val(gslice.Merge(in.ints, in.more)) })
	add("gslice.Merge with nil", func(in *pureIn) func() string { return val(gslice.Merge(in.ints, nil), gslice.Merge(nil, in.ints)) })
	add("gslice.IsSorted", func(in *pureIn) func() string {
		return val(gslice.IsSorted(in.few), gslice.IsSorted(in.ints), gslice.Len(in.ints))
	})
	call("gslice.IsSortedFunc", func(in *pureIn, f func()) func() string {
		return val(gslice.IsSortedFunc(in.few, func(a, b int) bool { f(); return a < b }))
	})
	add("gslice.Reverse", func(*pureIn) func() string { return val(gslice.Reverse([]int{1, 2, 3, 4})) })
	add("gslice.Shuffle", func(*pureIn) func() string { return val(perm(gslice.Shuffle([]int{3, 2, 0, 1}))) })
	// maps and sets
	add("gmap.Keys", func(in *pureIn) func() string { return sorted(gmap.Keys(in.m)) })
	add("gmap.Values", func(in *pureIn) func() string { return sorted(gmap.Values(in.m)) })
	add("gmap.Copy", func(in *pureIn) func() string { c := gmap.Copy(in.m); return func() string { return fmt.Sprint(c) } })
	add("gmap.Contains", func(in *pureIn) func() string {
		return val(gmap.Contains(in.m, "x"), gmap.Contains(in.m, "z"), gmap.Len(in.m))
	})
	add("gmap.Map2Entries", func(in *pureIn) func() string { return sorted(gmap.Map2Entries(in.m)) })
	add("gmap.Entries2Map", func(in *pureIn) func() string {
		m := gmap.Entries2Map(in.entries)
		return func() string { return fmt.Sprint(m) }
	})
	add("gmap.Equal", func(in *pureIn) func() string { return val(gmap.Equal(in.m, in.m2), gmap.Equal(in.m, nil)) })
	call("gmap.EqualWithFunc", func(in *pureIn, f func()) func() string {
		return val(gmap.EqualWithFunc(in.m, in.m2, func(a, b int) bool { f(); return a == b }))
	})
	// numbers and values
	add("gnumerics", func(in *pureIn) func() string {
		return val(gnumerics.Max(1, 2), gnumerics.Min("a", "b"), gnumerics.MaxCollection(in.ints), gnumerics.MinCollection(in.ints))
	})
	call("gnumerics.MaxBy", func(in *pureIn, f func()) func() string {
		return val(gnumerics.MaxBy(in.ints, func(a, b int) bool { f(); return a > b }))
	})
	call("gnumerics.MinBy", func(in *pureIn, f func()) func() string {
		return val(gnumerics.MinBy(in.ints, func(a, b int) bool { f(); return a < b }))
	})
	add("gconstraints", func(in *pureIn) func() string {
		p, q := gconstraints.ToPtr(in.num), gconstraints.ToPtr("x")
		a, b := gconstraints.Pack(1, "x").Unpack()
		return func() string {
			return fmt.Sprint(*p, *q, a, b, gconstraints.Empty[int](), gconstraints.IsEmpty(0), gconstraints.IsNotEmpty(""), gconstraints.ToValue[int](nil), gconstraints.ToValue(&in.num))
		}
	})
	// one object each; f is called between the steps and from its functions
	obj := func(name string, do func(f func(), say func(...any))) {
		call(name, func(_ *pureIn, f func()) func() string {
			out := ""
			do(f, func(a ...any) { out += fmt.Sprintln(a...) })
			return func() string { return out }
		})
	}
	obj("a skip list", func(f func(), say func(...any)) {
		t := gskiplist.New[int, string]()
		for i, k := range []int{5, 1, 3, 1, 4} {
			t.Insert(k, fmt.Sprint(k, ".", i))
		}
		f()
		t.Delete(3)
		t.Delete(9)
		t.Insert(3, "new")
		say(t.ChangeValue(4, "x"), t.ChangeValue(7, "y"), t.GetNodeCount(), t.IsEmpty())
		f()
		for e, i := t.GetSmallestNode(), 0; i < t.GetNodeCount(); e, i = t.Next(e), i+1 {
			say(e.GetValue())
		}
		e, found := t.FindGreaterOrEqual(2)
		say(e.GetValue(), found, t.GetLargestNode().GetValue())
		v, found := t.Find(6)
		say(v, found)
	})
	obj("a tree", func(f func(), say func(...any)) {
		t := grbt.New[int, string](func(a, b int) bool { return a < b })
		for i, k := range []int{5, 1, 3, 1, 4, 2, 7} {
			say(t.Insert(k, fmt.Sprint(k, ".", i)))
		}
		f()
		say(t.Delete(3), t.Delete(9), t.Get(4), t.Search(3), t.Len())
		say(t.Update(4, "x"))
		v := t.SubTree(1, false, 5, true)
		say(v.Keys(), v.Values())
		f()
		t.Delete(4)
		v.Delete(2)
		say(t.Keys(), t.Nodes(), v.Keys(), v.Len(), t.GetIf(func(k int) bool { f(); return k == 5 }))
		t.Clear()
		say(t.Empty(), t.Insert(1, "again"), t.Values())
	})
	obj("a heap", func(f func(), say func(...any)) {
		h := gheap.NewWithData([]int{5, 3, 4, 1}, func(a, b int) bool { return a < b })
		g := gheap.New(func(a, b int) bool { return a > b })
		for _, x := range []int{2, 9, 0} {
			gheap.Push(h, x)
			gheap.Push(g, x)
		}
		f()
		for i := 0; i < 7; i++ {
			say(gheap.Pop(h))
		}
		say(gheap.Pop(g), gheap.Pop(g))
	})
	obj("a list", func(f func(), say func(...any)) {
		l, m := glist.New[int](), glist.New[int]()
		a := l.PushBack(1)
		l.PushFront(2)
		b := l.InsertAfter(3, a)
		m.PushBack(8)
		f()
		l.MoveToFront(b)
		m.PushBackList(l)
		say(l.Remove(a), l.Len(), m.Len())
		l.PushBack(4)
		f()
		m.Range(func(e *glist.Element[int]) { say(e.Value) })
		for e := l.Front(); e != nil; e = e.Next() {
			say(e.Value)
		}
	})
	obj("a ring", func(f func(), say func(...any)) {
		r, s := gring.New[int](3), gring.New[int](2)
		for i := 0; i < 3; i++ {
			r.Value, s.Value = i+1, i+10
			r, s = r.Next(), s.Next()
		}
		f()
		r.Link(s)
		say(r.Len())
		x := r.Unlink(2)
		f()
		x.Do(func(v any) { say(v) })
		r.Move(-1).Do(func(v any) { say(v) })
	})
	obj("a queue", func(f func(), say func(...any)) {
		q := gqueue.Gen([]int{1, 2, 3})
		say(q.Push(4))
		say(q.Pop())
		f()
		say(gqueue.PeekAll(q))
		for v := range gqueue.Iterator(q) {
			say(v)
		}
		f()
		say(q.Len())
		gqueue.Clear(q)
		say(q.Pop())
		q = gqueue.New[int]()
		say(gqueue.IsEmpty(q), q.Push(7))
		say(gqueue.Peek(q))
	})
	obj("a set", func(f func(), say func(...any)) {
		s, t := gset.NewSet[int](), gset.NewSetWithSize[int](4)
		say(gset.Add(s, 1), gset.Add(s, 1), gset.Add(t, 2), gset.Add(s, 3), gset.Remove(s, 3), gset.Remove(t, 9))
		f()
		say(gset.Items(s), gset.Len(t), gset.Contains(s, 2))
		gset.Clear(t)
		say(gset.Items(t), gset.Items(s))
		m := map[int]int{1: 1}
		gmap.Clear(m)
		say(m)
	})
	obj("bit sets", func(f func(), say func(...any)) {
		a, b := bitset.New(0x0f, 0xf0), bitset.New(0x33)
		h, err := bitset.NewFromHex("ff00ff")
		say(h, err)
		_, err = bitset.NewFromHex("xy")
		say(err != nil)
		say(a.Set(20, true))
		f()
		say(a.And(b), a.Or(b, h), a.Xor(h), h.AndNot(a), a.Not(), a.Sub(2, 13), a.Count(0, -1), a.Size(), a.Binary("_"), a.Bytes())
		b.Range(func(i int, on bool) bool { say(i, on); return i < 5 })
		b.Clear()
		f()
		say(b.Get(2), b.Size(), a.Get(20), h.Get(0))
	})
	obj("an LRU cache", func(f func(), say func(...any)) {
		ctx := context.Background()
		c := cachex.NewLRUCacheV2[int, string](2, 0)
		for i := 0; i < 3; i++ {
			say(c.Set(ctx, i, fmt.Sprint("v", i), time.Hour))
		}
		f()
		say(c.MGet(ctx, 0, 1, 2))
		say(c.MSet(ctx, map[int]string{7: "z"}, time.Hour), c.Delete(ctx, 2))
		f()
		say(c.MGet(ctx, 1, 2, 7))
	})
	obj("a concurrent map", func(f func(), say func(...any)) {
		var m gsync.Map[int, string]
		m.Store(1, "a")
		say(m.LoadOrStore(2, "b"))
		say(m.Load(1))
		say(m.Swap(1, "c"))
		f()
		say(m.LoadAndDelete(2))
		m.Delete(9)
		m.Range(func(k int, v string) bool { say(k, v); return true })
		say(m.CompareAndSwap(1, "c", "d"), m.CompareAndDelete(1, "x"))
		say(m.Load(1))
	})
	obj("an error holder", func(f func(), say func(...any)) {
		var e gconstraints.AtomicError
		say(e.Load())
		e.Set(errors.New("one"))
		f()
		e.Set(nil)
		say(e.Load())
	})
	obj("a chain of caches", func(f func(), say func(...any)) {
		ctx := context.Background()
		low := cachex.NewLRUCacheV2[int, string](4, 0)
		c := &cachex.Chain[int, string]{Caches: []*cachex.ChainItem[int, string]{
			{Cache: cachex.NewLRUCacheV2[int, string](4, 0), TTL: time.Hour},
			{Cache: &cachex.NoCache[int, string]{}, TTL: time.Hour},
			{Cache: low, TTL: time.Hour}}}
		low.Set(ctx, 1, "a", time.Hour)
		low.Set(ctx, 3, "c", time.Hour)
		say(c.Get(ctx, 1))
		f()
		say(c.MGet(ctx, 1, 2, 3))
		say(c.Set(ctx, 2, "b", 0), c.Delete(ctx, 1))
		r, err := cachex.MGet[int, string](ctx, c, 1, 2, 3)
		f()
		say(r.HitKeys(), r.MissKeys(), r.HitMapValues(), err)
		hit, miss := r.HitMissKeys()
		r.Range(func(k int, ok bool, v string) bool { say(k, ok, v); return true })
		say(hit, miss)
	})
	return cs
}

// bigCalls take more steps of the scheduler.
func bigCalls() []pureCall {
	var cs []pureCall
	obj := func(name string, do func(f func(), say func(...any))) {
		cs = append(cs, pureCall{name: name, back: true, do: func(_ *pureIn, f func()) func() string {
			out := ""
			do(f, func(a ...any) { out += fmt.Sprintln(a...) })
			return func() string { return out }
		}})
	}
	gen := func(c chan<- int) { c <- 1; c <- 2 }
	obj("MapReduce", func(f func(), say func(...any)) {
		say(mr.MapReduce(gen, func(x int, w mr.Writer[int], cancel func(error)) { f(); w.Write(x * 10) },
			func(pipe <-chan int, w mr.Writer[int], cancel func(error)) {
				s := 0
				for v := range pipe {
					s += v
				}
				w.Write(s)
			}, mr.WithWorkers(1)))
	})
	obj("cancelled MapReduce", func(f func(), say func(...any)) {
		say(mr.MapReduce(gen, func(x int, w mr.Writer[int], cancel func(error)) { f(); cancel(errors.New("enough")) },
			func(pipe <-chan int, w mr.Writer[int], cancel func(error)) {
				for range pipe {
				}
			}, mr.WithWorkers(1)))
	})
	obj("ForEach", func(f func(), say func(...any)) {
		var n rt.Var
		mr.ForEach(gen, func(x int) { f(); n.Add(x) }, mr.WithWorkers(1))
		say(n.Get())
	})
	obj("Finish", func(f func(), say func(...any)) {
		say(mr.Finish(func() error { f(); return nil }, func() error { return errors.New("bad") }))
	})
	for _, dir := range []string{"/tmp/a", "/tmp/b"} {
		dir := dir
		obj("file cache in "+dir, func(f func(), say func(...any)) {
			ctx := context.Background()
			c := &cachex.FileStore[string, string]{Dir: dir}
			say(c.Set(ctx, "k", dir, time.Hour))
			say(c.Get(ctx, "k"))
			say(c.Delete(ctx, "k"))
			say(c.Get(ctx, "k"))
		})
		cs[len(cs)-1].dir, cs[len(cs)-1].back = dir, false
	}
	return cs
}

// pureProg makes calls by goroutines of their own, each call repeat times, and compares with the answers of later, lonely calls.
// Package variables have their initial values in the beginning.
func pureProg(repeat int, calls ...pureCall) rt.Prog {
	name := fmt.Sprintf("%d times", repeat)
	for _, c := range calls {
		name += ", " + c.name
	}
	return rt.Prog{Name: name, MaxStates: 20_000, Run: func() {
		memfs.Reset()
		in := newPureIn()
		before := in.show()
		type answer struct {
			show  func() string
			first string
		}
		got := make([][]answer, len(calls))
		var fs []func()
		for i, c := range calls {
			i, c := i, c
			fs = append(fs, func() {
				for n := 0; n < repeat; n++ {
					show := c.do(in, func() {})
					got[i] = append(got[i], answer{show, show()})
				}
			})
		}
		rt.Par(fs...)
		for i, c := range calls {
			for _, a := range got[i] {
				if now := a.show(); now != a.first {
					rt.Fail("a result that changes", "%s answered %s, later changed to %s", c.name, a.first, now)
				}
			}
		}
		if after := in.show(); after != before {
			rt.Fail("arguments", "arguments are changed from %s to %s", before, after)
		}
		for i, c := range calls {
			want := c.do(in, func() {})()
			for _, a := range got[i] {
				if a.first != want {
					rt.Fail("another result than alone", "%s answers %s while others run, alone %s", c.name, a.first, want)
				}
			}
		}
	}}
}

// nestedProg makes a call from within another one.
func nestedProg(a, b pureCall) rt.Prog {
	return rt.Prog{Name: fmt.Sprintf("%s, calling %s", a.name, b.name), MaxStates: 20_000, Run: func() {
		memfs.Reset()
		in := newPureIn()
		want := b.do(in, func() {})()
		wantA := a.do(in, func() {})()
		got := a.do(in, func() {
			show := b.do(in, func() {})
			if s := show(); s != want {
				rt.Fail("another result than alone", "%s answers %s when called from %s, else %s", b.name, s, a.name, want)
			}
		})()
		if got != wantA {
			rt.Fail("another result than alone", "%s answers %s when its function calls %s, else %s", a.name, got, b.name, wantA)
		}
	}}
}

func purePrograms(thorough bool) []rt.Prog {
	var ps []rt.Prog
	cs := pureCalls()
	for _, a := range cs {
		for _, b := range cs {
			ps = append(ps, pureProg(1, a, b))
			if a.back {
				ps = append(ps, nestedProg(a, b))
			}
		}
		ps = append(ps, pureProg(2, a, a))
		if thorough {
			ps = append(ps, pureProg(2, a, a, a))
		}
	}
	big := bigCalls()
	for i, a := range big {
		for _, b := range big[i:] {
			if a.dir != "" && a.dir == b.dir {
				continue // two file caches in one directory share it
			}
			ps = large(thorough, ps, func() rt.Prog { return pureProg(1, a, b) })
		}
		for _, b := range cs {
			if thorough || b.back {
				ps = large(false, ps, func() rt.Prog { return pureProg(1, a, b) })
			}
		}
		for _, b := range append(big[:len(big):len(big)], cs...) {
			if a.back && (b.back || b.dir != "" || thorough) {
				ps = large(false, ps, func() rt.Prog { return nestedProg(a, b) })
			}
			if a.dir == "" && b.back && b.dir == "" {
				ps = large(false, ps, func() rt.Prog { return nestedProg(b, a) })
			}
		}
	}
	return ps
}

// ---------------------------------------------------------------- readers of one container

// shared are containers that goroutines only read.
type shared struct {
	skip  *gskiplist.SkipList[int, string]
	tree  *grbt.RbTree[int, string]
	view  *grbt.RbTree[int, string]
	list  *glist.List[int]
	set   gset.Set[int]
	hits  cachex.MGetResult[int, string]
	chain *cachex.Chain[int, string]
	none  *cachex.NoCache[int, string]
}

func newShared(n int, gone bool) *shared {
	s := &shared{skip: gskiplist.New[int, string](), tree: grbt.New[int, string](func(a, b int) bool { return a < b }), list: glist.New[int](), set: gset.NewSet[int](), none: &cachex.NoCache[int, string]{}}
	for i := 0; i < n; i++ {
		s.skip.Insert(i, fmt.Sprint(i))
		s.tree.Insert(i, fmt.Sprint(i))
		s.list.PushBack(i)
		gset.Add(s.set, i)
	}
	if gone { // what reading meets after a removal
		s.skip.Delete(n - 1)
		s.skip.Insert(n-1, "again")
		s.skip.Delete(0)
		s.tree.Delete(n - 1)
		s.tree.Delete(0)
		if e := s.list.Front(); e != nil {
			s.list.Remove(e)
		}
		gset.Remove(s.set, 0)
	}
	s.view = s.tree.LeftSubTree(n/2, true)
	lru := cachex.NewLRUCacheV2[int, string](n+1, 0)
	for i := 0; i < n; i++ {
		lru.Set(context.Background(), 2*i, fmt.Sprint(i), time.Hour)
	}
	s.chain = &cachex.Chain[int, string]{Caches: []*cachex.ChainItem[int, string]{{Cache: lru, TTL: time.Hour}}}
	s.hits, _ = cachex.MGet[int, string](context.Background(), lru, 0, 1, 2)
	return s
}

type reader struct {
	name string
	do   func(s *shared) func() string
}

func readers() []reader {
	var rs []reader
	r := func(name string, f func(s *shared, say func(...any))) {
		rs = append(rs, reader{name, func(s *shared) func() string {
			out := ""
			f(s, func(a ...any) { out += fmt.Sprintln(a...) })
			return func() string { return out }
		}})
	}
	r("skip list Find", func(s *shared, say func(...any)) {
		for k := -1; k < 6; k++ {
			say(s.skip.Find(k))
		}
	})
	r("skip list FindGreaterOrEqual", func(s *shared, say func(...any)) {
		for k := 6; k >= -1; k-- {
			if e, ok := s.skip.FindGreaterOrEqual(k); ok {
				say(k, e.GetValue())
			}
		}
	})
	r("skip list from both ends", func(s *shared, say func(...any)) {
		say(s.skip.GetNodeCount(), s.skip.IsEmpty())
		if s.skip.IsEmpty() {
			return
		}
		e, f := s.skip.GetSmallestNode(), s.skip.GetLargestNode()
		for i := 0; i < s.skip.GetNodeCount()+1; i++ {
			say(e.GetValue(), f.GetValue())
			e, f = s.skip.Next(e), s.skip.Prev(f)
		}
	})
	r("skip list String", func(s *shared, say func(...any)) { say(len(s.skip.String()) > 0) })
	r("tree Get and Search", func(s *shared, say func(...any)) {
		for k := -1; k < 6; k++ {
			say(s.tree.Get(k), s.tree.Search(k))
		}
	})
	r("tree Keys, Values and Nodes", func(s *shared, say func(...any)) { say(s.tree.Keys(), s.tree.Values(), s.tree.Nodes()) })
	r("tree String and Len", func(s *shared, say func(...any)) { say(s.tree.String(), s.tree.Len(), s.tree.Empty()) })
	r("tree GetIf", func(s *shared, say func(...any)) { say(s.tree.GetIf(func(k int) bool { return k%2 == 0 })) })
	r("tree views", func(s *shared, say func(...any)) {
		say(s.tree.SubTree(1, true, 3, false).Keys(), s.tree.RightSubTree(2, true).Values(), s.tree.LeftSubTree(2, false).Len())
	})
	r("a view changed", func(s *shared, say func(...any)) {
		v := s.tree.RightSubTree(1, true)
		v.Insert(100, "x")
		v.Delete(2)
		say(v.Keys(), v.Get(100))
	})
	r("view", func(s *shared, say func(...any)) { say(s.view.Keys(), s.view.Get(1), s.view.Len()) })
	r("list", func(s *shared, say func(...any)) {
		say(s.list.Len())
		for e, f := s.list.Front(), s.list.Back(); e != nil; e, f = e.Next(), f.Prev() {
			say(e.Value, f.Value)
		}
		s.list.Range(func(e *glist.Element[int]) { say(e.Value) })
	})
	r("list as a source", func(s *shared, say func(...any)) {
		l := glist.New[int]()
		l.PushBackList(s.list)
		l.PushFrontList(s.list)
		l.Range(func(e *glist.Element[int]) { say(e.Value) })
	})
	r("set", func(s *shared, say func(...any)) {
		say(sorted(gset.Items(s.set))(), gset.Len(s.set), gset.Contains(s.set, 1), gset.Contains(s.set, 9))
	})
	r("lists of hits", func(s *shared, say func(...any)) {
		hit, miss := s.hits.HitMissKeys()
		say(s.hits.HitKeys(), s.hits.MissKeys(), hit, miss, s.hits.HitMapValues())
	})
	r("ranges over hits", func(s *shared, say func(...any)) {
		s.hits.Range(func(k int, ok bool, v string) bool { say(k, ok, v); return true })
		s.hits.RangeHit(func(k int, v string) bool { say(k, v); return true })
		s.hits.RangeMiss(func(k int) bool { say(k); return true })
	})
	r("chain Get", func(s *shared, say func(...any)) { say(s.chain.Get(context.Background(), 0)) })
	r("chain MGet", func(s *shared, say func(...any)) { say(s.chain.MGet(context.Background(), 0, 1, 2)) })
	r("no cache", func(s *shared, say func(...any)) {
		say(s.none.MGet(context.Background(), 0, 1))
		say(s.none.Set(context.Background(), 0, "x", time.Hour))
		say(s.none.Get(context.Background(), 0))
	})
	return rs
}

// readProg lets goroutines read one set of containers.
func readProg(n int, gone bool, rs ...reader) rt.Prog {
	name := fmt.Sprintf("containers of %d, removals %v", n, gone)
	for _, r := range rs {
		name += ", " + r.name
	}
	return rt.Prog{Name: name, MaxStates: 20_000, Run: func() {
		s := newShared(n, gone)
		first, shows := make([]string, len(rs)), make([]func() string, len(rs))
		var fs []func()
		for i, r := range rs {
			i, r := i, r
			fs = append(fs, func() { shows[i] = r.do(s); first[i] = shows[i]() })
		}
		rt.Par(fs...)
		for i, r := range rs {
			if again := r.do(s)(); first[i] != again {
				rt.Fail("readers", "%s reads %s beside other readers, and %s alone", r.name, first[i], again)
			}
		}
	}}
}

func readPrograms(thorough bool) []rt.Prog {
	var ps []rt.Prog
	rs := readers()
	for _, gone := range []bool{false, true} {
		for _, n := range []int{0, 1, 2, 3, 5, 9} {
			for i, a := range rs {
				for j, b := range rs[i:] {
					ps = append(ps, readProg(n, gone, a, b), readProg(n, gone, b, a))
					if thorough {
						for _, c := range rs[i+j:] {
							ps = append(ps, readProg(n, gone, a, b, c))
						}
					}
				}
			}
		}
	}
	return ps
}
