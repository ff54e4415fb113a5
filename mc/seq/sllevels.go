package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/miniLCT/gosb/gogenerics/gds/gskiplist"

	"verif/core"
)

// The levels of a skip list, read off its own drawing (String): what makes a search skip. Values are unique and
// stand for their elements.

const noLink = "---"

type drawing struct {
	start, end []string
	values     []string
	prev       []string
	next       [][]string // per element, per level
}

// cells splits "[a] -> [b]" and "[a]    -> [b]".
func cells(w *core.W, text, s string) (r []string) {
	s = strings.TrimSpace(s)
	if s == "" {
		return nil
	}
	for _, p := range strings.Split(s, "->") {
		p = strings.TrimSpace(p)
		if len(p) < 2 || p[0] != '[' || p[len(p)-1] != ']' {
			w.Fail("String: %q is no cell, in\n%s", p, text)
		}
		r = append(r, p[1:len(p)-1])
	}
	return r
}

func parseDrawing(w *core.W, text string) (d drawing) {
	lines := strings.Split(strings.TrimRight(text, "\n"), "\n")
	if len(lines) < 2 {
		w.Fail("String: %q", text)
	}
	edge := func(l string) []string {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "-->") {
			w.Fail("String: %q does not show the ends, in\n%s", l, text)
		}
		return cells(w, text, l[3:])
	}
	d.start, d.end = edge(lines[0]), edge(lines[len(lines)-1])
	for _, l := range lines[1 : len(lines)-1] {
		v, rest, ok := strings.Cut(l, ": ")
		c := cells(w, text, rest)
		if !ok || len(c) == 0 {
			w.Fail("String: line %q, in\n%s", l, text)
		}
		p, n, ok := strings.Cut(c[0], "|")
		if !ok {
			w.Fail("String: line %q, in\n%s", l, text)
		}
		c[0] = n
		d.values, d.prev, d.next = append(d.values, v), append(d.prev, p), append(d.next, c)
	}
	return d
}

// slLevels checks that the elements are drawn in order, that every level links exactly the elements that reach it,
// and that the ends know the first and the last of every level.
func slLevels(w *core.W, s *slInst[int]) {
	text := s.list.String()
	d := parseDrawing(w, text)
	ks := s.keys()
	if len(ks) != len(d.values) {
		w.Fail("String draws %d elements, the list has %d:\n%s", len(d.values), len(ks), text)
	}
	at := func(i int) string {
		if i < 0 || i >= len(d.values) {
			return noLink
		}
		return d.values[i]
	}
	top := 0
	for i, k := range ks {
		if d.values[i] != strconv.Itoa(s.mod[k]) {
			w.Fail("String draws %s as element %d, should be %d:\n%s", d.values[i], i, s.mod[k], text)
		}
		if d.prev[i] != at(i-1) {
			w.Fail("%s has %s before it, should be %s:\n%s", d.values[i], d.prev[i], at(i-1), text)
		}
		top = max(top, len(d.next[i]))
	}
	for lv := 0; lv < max(top, len(d.start), len(d.end)); lv++ {
		last, first := noLink, noLink
		for i := len(ks) - 1; i >= 0; i-- {
			if len(d.next[i]) <= lv {
				continue
			}
			if d.next[i][lv] != first {
				w.Fail("level %d leads from %s to %s, should to %s:\n%s", lv, d.values[i], d.next[i][lv], first, text)
			}
			if last == noLink {
				last = d.values[i]
			}
			first = d.values[i]
		}
		for _, e := range []struct {
			name string
			got  []string
			want string
		}{{"starts", d.start, first}, {"ends", d.end, last}} {
			got := noLink
			if lv < len(e.got) {
				got = e.got[lv]
			}
			if got != e.want {
				w.Fail("level %d %s with %s, should with %s:\n%s", lv, e.name, got, e.want, text)
			}
		}
	}
}

func slLevelChecks(c *core.Ctx) {
	n := core.Pick(c, 4, 5)
	var keys []int
	for i := range n {
		keys = append(keys, 2*i)
	}
	words := []uint64{1, 2, 4, 8}
	c.BFS(slMachine(fmt.Sprintf("levels of %d keys, towers 0..3", n), keys, nil, words, func(i int, second bool) int {
		if second {
			return 100 + i
		}
		return 10 + i
	}, 0, func(w *core.W, s *slInst[int], _ []int) { slLevels(w, s) }, true))
	slPermuted(c, core.Pick(c, 6, 7), func(w *core.W, s *slInst[int]) { slLevels(w, s) })
	slLong(c, core.Pick(c, []int{17, 40, 130}, []int{17, 40, 130, 300}), core.Pick(c, 12, 40), func(w *core.W, s *slInst[int], _ []int) { slLevels(w, s) })

	// which words of the random source give which height: every pattern of some bits, repeated over the word from every
	// place on; from each level a fair share goes on to the next
	const b = 12
	before := []string{"nothing", "emptied from the lowest tower on", "emptied from the highest tower on", "every other element deleted", "all but one deleted", "the higher half deleted"}
	c.Enum("heights for every random word of repeated patterns", b*len(before), func(i int) string {
		return fmt.Sprintf("patterns of %d bits, from bit %d on; before: %s", b, i/len(before), before[i%len(before)])
	}, func(w *core.W, i int) bool {
		i, past := i/len(before), i%len(before)
		total := 1 << b
		// the list is high before the counted ones come
		var hw []uint64
		for h := range 30 {
			hw = append(hw, 1<<h)
		}
		counts := make([]int, 64)
		for base := 0; base < total; base += 128 {
			list := gskiplist.New[int, int]()
			s := &slInst[int]{list, map[int]int{}}
			fill := func() {
				for h := range hw {
					withWords(hw[h:h+1], func() { list.Insert(-100+h, 100_000+h) })
					s.mod[-100+h] = 100_000 + h
				}
			}
			fill()
			for k := range hw {
				h := k
				switch past {
				case 0:
					continue
				case 2:
					h = len(hw) - 1 - k
				case 3:
					if k%2 == 0 {
						continue
					}
				case 4:
					if k == 3 {
						continue
					}
				case 5:
					if k < len(hw)/2 {
						continue
					}
				}
				list.Delete(-100 + h)
				delete(s.mod, -100+h)
			}
			fill()
			for x := base; x < base+128; x++ {
				p := uint64(x)
				var word uint64
				for k := range 64 {
					word |= p >> ((k + i) % b) & 1 << k
				}
				withWords([]uint64{word}, func() { list.Insert(x, x) })
				s.mod[x] = x
			}
			slLevels(w, s)
			d := parseDrawing(w, list.String())
			for _, l := range d.next[len(hw):] {
				counts[len(l)-1]++
			}
		}
		above := total
		for lv := 0; lv < 7; lv++ {
			next := above - counts[lv]
			if next*10 < above || next*4 > above*3 {
				w.Fail("of %d elements that reach level %d, %d reach the next: levels %v", above, lv, next, counts)
			}
			above = next
		}
		return true
	})
}

// slPermuted inserts keys in every order with a spread of towers and deletes them again.
func slPermuted(c *core.Ctx, n int, check func(w *core.W, s *slInst[int])) {
	perms := permutations(n)
	words := []uint64{1, 2, 4, 8, 1, 16, 2, 1 << 24, 32, 1}
	c.Enum("every order of inserting", len(perms)*8, func(i int) string {
		return fmt.Sprintf("insert keys 2*%v with towers rotated by %d, then delete, in reverse: %v", perms[i/8], i/2%4, i%2 == 1)
	}, func(w *core.W, i int) bool {
		p, rot := perms[i/8], i/2%4
		s := &slInst[int]{gskiplist.New[int, int](), map[int]int{}}
		for j, k := range p {
			withWords([]uint64{words[(j+rot*3)%len(words)]}, func() { s.list.Insert(2*k, 10+k) })
			s.mod[2*k] = 10 + k
			check(w, s)
		}
		for j := range p {
			k := p[j]
			if i%2 == 1 {
				k = p[n-1-j]
			}
			s.list.Delete(2 * k)
			delete(s.mod, 2*k)
			check(w, s)
		}
		return true
	})
}

func init() {
	core.Register("S03", "model_checking", "the drawing of the list shows, after every operation, every level as the elements that reach it, in order, between the right ends", slLevelChecks)
}
