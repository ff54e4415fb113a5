package main

import (
	"encoding/json"
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
	"unsafe"

	"github.com/miniLCT/gosb/library/stringx"
	"verif/core"
)

func init() {
	core.Register("X01", "exploration", "encoding/json decoding the result, and a tokeniser that compares every character of the input with the token written for it. One case is a string under both settings; non-trivial if something has to be escaped", jsonStrings)
	core.Register("X02", "exploration", "a comparison of the runs of spaces of input and output by the stated rules. One case is a string; non-trivial if it has two adjacent spaces", spaces)
	core.Register("X03", "exploration", "own scanners for both kinds of escape. One case is a text and a base; non-trivial if an escape is replaced", escapes)
	core.Register("X04", "exploration", "the conversion rules written over words and positions. One case is a string; non-trivial if the conversion changes it", cases)
}

// fresh returns s in memory of its own that would show a write.
func fresh(s string) (string, func() bool) {
	b := []byte(s)
	if len(b) == 0 {
		return "", func() bool { return true }
	}
	t := unsafe.String(&b[0], len(b))
	return t, func() bool { return string(b) == s }
}

func textOf(alphabet []string, v []int) string {
	var sb strings.Builder
	for _, x := range v {
		sb.WriteString(alphabet[x])
	}
	return sb.String()
}

// enumTexts enumerates all concatenations of up to n fragments.
func enumTexts(c *core.Ctx, name string, alphabet []string, n int, f func(w *core.W, s string) bool) {
	sp := core.Words{Base: len(alphabet), Lo: 0, Hi: n}
	c.Enum(name, sp.N(), func(i int) string { return fmt.Sprintf("%q", textOf(alphabet, sp.At(i))) }, func(w *core.W, i int) bool { return f(w, textOf(alphabet, sp.At(i))) })
}

// longTexts enumerates long texts: every word of up to period fragments repeated a number of times, with one other
// fragment at the front, at the end, in the middle or nowhere.
func longTexts(c *core.Ctx, name string, alphabet []string, period int, reps []int, f func(w *core.W, s string) bool) {
	longTexts1(c, name, alphabet, period, reps, f)
	longTexts1(c, "very "+name, alphabet, 1, core.Pick(c, []int{1100, 4097, 17000}, []int{1023, 1024, 1025, 2048, 4096, 4097, 16000, 40000, 65537}), f)
}

func longTexts1(c *core.Ctx, name string, alphabet []string, period int, reps []int, f func(w *core.W, s string) bool) {
	sp := core.Words{Base: len(alphabet), Lo: 1, Hi: period}
	per := []int{sp.N(), len(reps), len(alphabet), 4}
	at := func(i int) string {
		d := core.Mixed(i, per...)
		word, n, x := textOf(alphabet, sp.At(d[0])), reps[d[1]], alphabet[d[2]]
		switch d[3] {
		case 1:
			return x + strings.Repeat(word, n)
		case 2:
			return strings.Repeat(word, n) + x
		case 3:
			return strings.Repeat(word, n/2) + x + strings.Repeat(word, n-n/2)
		}
		return strings.Repeat(word, n)
	}
	c.Enum(name, core.Prod(per...), func(i int) string {
		if d := core.Mixed(i, per...); reps[d[1]] > 1000 {
			return fmt.Sprintf("%q %d times, %q (place %d)", textOf(alphabet, sp.At(d[0])), reps[d[1]], alphabet[d[2]], d[3])
		}
		return fmt.Sprintf("%q", at(i))
	}, func(w *core.W, i int) bool {
		if d := core.Mixed(i, per...); d[3] == 0 && d[2] > 0 {
			return false
		}
		return f(w, at(i))
	})
}

// ---------------------------------------------------------------- X01

func jsonString(w *core.W, s string) bool {
	in, same := fresh(s)
	escaped := false
	for _, html := range []bool{false, true} {
		out := string(stringx.StringMarshalJSON(in, html))
		if !same() {
			w.Fail("StringMarshalJSON changed its input")
		}
		var dec string
		if err := json.Unmarshal([]byte(out), &dec); err != nil {
			w.Fail("StringMarshalJSON(%q, %v) gives %q: %v", s, html, out, err)
		}
		if want := string([]rune(s)); dec != want {
			w.Fail("StringMarshalJSON(%q, %v) gives %q, which decodes to %q", s, html, out, dec)
		}
		if !utf8.ValidString(out) {
			w.Fail("StringMarshalJSON(%q, %v) gives invalid UTF-8 %q", s, html, out)
		}
		rest := out[1 : len(out)-1]
		for i, r := range s {
			n := utf8.RuneLen(r)
			literal := !strings.HasPrefix(rest, `\`)
			if !literal {
				escaped = true
				if n = 2; rest[1] == 'u' {
					n = 6
				}
			}
			plain := r >= 0x20 && r < 0x7f && r != '"' && r != '\\' && !(html && (r == '<' || r == '>' || r == '&'))
			if plain && !literal {
				w.Fail("StringMarshalJSON(%q, %v) gives %q, which escapes %q at %d needlessly", s, html, out, r, i)
			}
			if (r == 0x2028 || r == 0x2029 || html && (r == '<' || r == '>' || r == '&')) && literal {
				w.Fail("StringMarshalJSON(%q, %v) gives %q, which does not escape %q at %d", s, html, out, r, i)
			}
			if n > len(rest) {
				w.Fail("StringMarshalJSON(%q, %v) gives %q: nothing is left for %q at %d", s, html, out, r, i)
			}
			rest = rest[n:]
		}
		if rest != "" {
			w.Fail("StringMarshalJSON(%q, %v) gives %q: %q is left over", s, html, out, rest)
		}
	}
	return escaped
}

func jsonStrings(c *core.Ctx) {
	c.Enum("every pair of bytes", 65536+256+1, func(i int) string { return fmt.Sprint(i) }, func(w *core.W, i int) bool {
		switch {
		case i == 0:
			return jsonString(w, "")
		case i <= 256:
			return jsonString(w, string([]byte{byte(i - 1)}))
		}
		i -= 257
		return jsonString(w, string([]byte{byte(i), byte(i >> 8)}))
	})
	c.Enum("every code point, alone and between others", 0x110000, func(i int) string { return fmt.Sprintf("%U", i) }, func(w *core.W, i int) bool {
		r := string(rune(i))
		return jsonString(w, "x"+r+"<"+r+r)
	})
	alphabet := []string{"a", "\"", "\\", "<", "&", "\n", "\x00", "\x1f", "\x7f", "\x80", "\xc3", "\xa8", "\xe2", "\xed", "\xf0", "\xff", "é", "\u2028", "\u2029", "\u2027", "\ufffd", "\U0001F600", "u", "/"}
	enumTexts(c, "strings of fragments", alphabet, core.Pick(c, 4, 5), jsonString)
	n := core.Pick(c, 200, 1000)
	c.Enum("long strings", n*3, func(i int) string { return fmt.Sprintf("%d bytes, variant %d", i/3, i%3) }, func(w *core.W, i int) bool {
		return jsonString(w, strings.Repeat([]string{"a", "\x01", "aé\xff"}[i%3], i/3))
	})
	longTexts(c, "long texts", alphabet, 2, core.Pick(c, []int{8, 33, 150}, []int{7, 8, 16, 33, 64, 150, 600}), jsonString)
	c.Enum("all triples of bytes that start a multi-byte character", 62*256*256/16, func(i int) string { return fmt.Sprint(i) }, func(w *core.W, i int) bool {
		b := byte(0xc2 + i%62)
		x := byte(i / 62)
		y := []byte{0x00, 0x22, 0x5c, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xa8, 0xa9, 0xbf, 0xc0, 0xe2, 0xff}[i/62/256%16]
		return jsonString(w, string([]byte{b, x, y}))
	})
}

// ---------------------------------------------------------------- X02

const spaceKinds = " \n\r\t\v\f\u0085\u00a0"

// runsOf splits s into texts and the runs of spaces between them: texts[i] runs[i] texts[i+1] ...
func runsOf(s string) (texts []string, runs [][]rune) {
	text, run := "", []rune(nil)
	for len(s) > 0 {
		r, n := utf8.DecodeRuneInString(s)
		if strings.ContainsRune(spaceKinds, r) && !(r == utf8.RuneError && n == 1) {
			if run == nil {
				texts = append(texts, text)
				text = ""
			}
			run = append(run, r)
		} else {
			if run != nil {
				runs = append(runs, run)
				run = nil
			}
			text += s[:n]
		}
		s = s[n:]
	}
	if run != nil {
		runs = append(runs, run)
	}
	return append(texts, text), runs
}

func combineSpaces(w *core.W, s string) bool {
	in, same := fresh(s)
	out := strings.Clone(stringx.SpaceInOne(in))
	if !same() {
		w.Fail("SpaceInOne changed its input")
	}
	texts, runs := runsOf(s)
	texts2, runs2 := runsOf(out)
	if strings.Join(texts, "\x00") != strings.Join(texts2, "\x00") || len(runs) != len(runs2) {
		w.Fail("SpaceInOne(%q) is %q: the text or the places of spaces changed", s, out)
	}
	some := false
	for i, in := range runs {
		o := runs2[i]
		some = some || len(in) > 1
		k := 0
		for _, r := range in {
			if k < len(o) && o[k] == r {
				k++
			}
		}
		if k < len(o) {
			w.Fail("SpaceInOne(%q) is %q: the spaces %q are no selection of %q", s, out, string(o), string(in))
		}
		has := map[rune]bool{}
		for _, r := range in {
			has[r] = true
		}
		if len(has) == 1 && len(o) != 1 {
			w.Fail("SpaceInOne(%q) is %q: the spaces %q became %q", s, out, string(in), string(o))
		}
		for r := range has {
			if strings.ContainsRune(string(o), r) {
				continue
			}
			if r == ' ' && (has['\t'] || has['\n']) || r == '\t' && has['\n'] {
				continue
			}
			w.Fail("SpaceInOne(%q) is %q: no %q is left of %q", s, out, r, string(in))
		}
		for k := 1; k < len(o); k++ {
			if o[k] == o[k-1] {
				w.Fail("SpaceInOne(%q) is %q: %q is repeated", s, out, o[k])
			}
		}
		for _, bad := range []string{" \n", "\t\n", " \t", "\t ", "\r\n\r\n"} {
			if strings.Contains(string(o), bad) {
				w.Fail("SpaceInOne(%q) is %q: %q is left", s, out, bad)
			}
		}
	}
	if again := stringx.SpaceInOne(out); again != out {
		w.Fail("SpaceInOne(%q) is %q, and applied again %q", s, out, again)
	}
	return some
}

func spaces(c *core.Ctx) {
	enumTexts(c, "strings of spaces and letters", []string{" ", "\n", "\r", "\t", "\v", "\f", "\u0085", "\u00a0", "a", "é"}, core.Pick(c, 6, 7), combineSpaces)
	enumTexts(c, "strings of the interacting spaces", []string{" ", "\n", "\r", "\t", "a"}, core.Pick(c, 8, 10), combineSpaces)
	enumTexts(c, "strings of bytes of the two-byte spaces", []string{"\xc2", "\x85", "\xa0", " ", "\u0085", "\u2028", "\xe2\x80"}, core.Pick(c, 6, 7), combineSpaces)
	longTexts(c, "long texts", []string{" ", "\n", "\r", "\t", "\v", "\f", "\u0085", "\u00a0", "a", "世"}, 2, core.Pick(c, []int{8, 33, 150}, []int{7, 8, 16, 33, 64, 150, 600}), combineSpaces)
	n := core.Pick(c, 300, 2000)
	kinds := []string{" ", "\n", "\r", "\t", "\v", "\f", "\u0085", "\u00a0", "\r\n", " \t", "\t ", " \n", "\n ", "\n\t", "\r ", "a"}
	c.Enum("long runs", n*len(kinds)*len(kinds), func(i int) string {
		d := core.Mixed(i, len(kinds), len(kinds), n)
		return fmt.Sprintf("%q %d times between %q", kinds[d[0]], d[2], kinds[d[1]])
	}, func(w *core.W, i int) bool {
		d := core.Mixed(i, len(kinds), len(kinds), n)
		return combineSpaces(w, kinds[d[1]]+strings.Repeat(kinds[d[0]], d[2])+kinds[d[1]])
	})
}

// ---------------------------------------------------------------- X03

func digitVal(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'z':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'Z':
		return int(c-'A') + 10
	}
	return 99
}

// number is the value of digits in the base, if they are all valid and it fits 32 bits with a sign.
func number(digits string, base int) (int64, bool) {
	var x int64
	for i := 0; i < len(digits); i++ {
		v := digitVal(digits[i])
		if v >= base {
			return 0, false
		}
		if x = x*int64(base) + int64(v); x > 1<<31-1 {
			return 0, false
		}
	}
	return x, len(digits) > 0
}

func entitiesRef(s string, base int) string {
	var sb strings.Builder
	for len(s) > 0 {
		if strings.HasPrefix(s, "&#") {
			n := 2
			for n < len(s) && digitVal(s[n]) < 36 {
				n++
			}
			m := n
			for m < len(s) && s[m] == ';' {
				m++
			}
			if x, ok := number(s[2:n], base); ok {
				sb.WriteString(string(rune(x)))
				s = s[m:]
				continue
			}
		}
		sb.WriteByte(s[0])
		s = s[1:]
	}
	return sb.String()
}

func codePointsRef(s string, base int) string {
	most := 0
	for x := 0xffff; x > 0; x /= base {
		most++
	}
	var sb strings.Builder
	for len(s) > 0 {
		if strings.HasPrefix(s, `\u`) {
			n := 2
			for n < len(s) && n-2 < most && digitVal(s[n]) < base {
				n++
			}
			if x, ok := number(s[2:n], base); ok {
				sb.WriteString(string(rune(x)))
				s = s[n:]
				continue
			}
		}
		sb.WriteByte(s[0])
		s = s[1:]
	}
	return sb.String()
}

func escapes(c *core.Ctx) {
	bases := []int{10, 16, 2, 8, 36}
	html := func(w *core.W, s string) bool {
		some := false
		for _, b := range bases {
			in, same := fresh(s)
			want := entitiesRef(s, b)
			if got := stringx.HTMLEntityToUTF8(in, b); got != want {
				w.Fail("HTMLEntityToUTF8(%q, %d) is %q, not %q", s, b, got, want)
			}
			if !same() {
				w.Fail("HTMLEntityToUTF8 changed its input")
			}
			some = some || want != s
		}
		return some
	}
	points := func(w *core.W, s string) bool {
		some := false
		for _, b := range bases {
			in, same := fresh(s)
			want := codePointsRef(s, b)
			if got := stringx.CodePointToUTF8(in, b); got != want {
				w.Fail("CodePointToUTF8(%q, %d) is %q, not %q", s, b, got, want)
			}
			if !same() {
				w.Fail("CodePointToUTF8 changed its input")
			}
			some = some || want != s
		}
		return some
	}
	enumTexts(c, "entities", []string{"&#", "&", "#", "65", "7", "f", "z", ";", " ", "é", "&#x"}, core.Pick(c, 5, 6), html)
	enumTexts(c, "entities of one digit", []string{"&#", "1", "b", ";", "-", "\n"}, core.Pick(c, 7, 8), html)
	enumTexts(c, "code points", []string{`\u`, `\`, "u", "65", "7", "f", "1", " ", "é", "z", "+"}, core.Pick(c, 5, 6), points)
	enumTexts(c, "code points of one digit", []string{`\u`, "1", "0", "b", "g", "_"}, core.Pick(c, 7, 8), points)
	reps := core.Pick(c, []int{5, 18, 70}, []int{5, 8, 18, 33, 70, 300})
	longTexts(c, "long texts with entities", []string{"&#", "&", "#", "65", "7", "f", ";", " é"}, 3, reps, html)
	longTexts(c, "long texts with code points", []string{`\u`, `\`, "u", "65", "7", "f", "1", " é"}, 3, reps, points)
	long := []string{"10ffff", "110000", "1114111", "1114112", "d800", "dfff", "55296", "ffffffff", "7fffffff", "80000000", "2147483647", "2147483648", "4294967361", "18446744073709551681", "00000000000000041", "0", "000000000000000000000000000000065"}
	c.Enum("large numbers", len(long)*5, func(i int) string { return fmt.Sprintf("%s, %d", long[i/5], i%5) }, func(w *core.W, i int) bool {
		s := long[i/5] + strings.Repeat(";", i%5)
		a := html(w, "&#"+s+"x&#"+s+"&#"+s)
		b := points(w, `\u`+s+`x\u`+s+`\u`+s)
		return a || b
	})
	odd := []int{-1 << 63, -16, -2, -1, 1, 37, 64, 1 << 40}
	texts := []string{"", `\u`, `\u0041`, `a\u0041b\u1`, `\u41\u41`, "&#65;", "a&#1;b&#65;&#", "&#&#65"}
	c.Enum("bases that do not exist", len(odd)*len(texts), func(i int) string { return fmt.Sprintf("base %d, %q", odd[i%len(odd)], texts[i/len(odd)]) }, func(w *core.W, i int) bool {
		s, b := texts[i/len(odd)], odd[i%len(odd)]
		if got := stringx.CodePointToUTF8(s, b); got != s {
			w.Fail("CodePointToUTF8(%q, %d) is %q", s, b, got)
		}
		if got := stringx.HTMLEntityToUTF8(s, b); got != s {
			w.Fail("HTMLEntityToUTF8(%q, %d) is %q", s, b, got)
		}
		return true
	})
	c.Enum("every code point", 0x110000, func(i int) string { return fmt.Sprintf("%U", i) }, func(w *core.W, i int) bool {
		for _, b := range []int{10, 16} {
			d := strconv.FormatInt(int64(i), b)
			want := "a" + string(rune(i)) + "b" + string(rune(i)) + " "
			if got := stringx.HTMLEntityToUTF8("a&#"+d+";b&#"+d+" ", b); got != want {
				w.Fail("&#%s; in base %d is %q", d, b, got)
			}
			if i > 0xffff {
				continue
			}
			want = "x" + string(rune(i)) + "\"" + string(rune(i)) + string(rune(i))
			if got := stringx.CodePointToUTF8(`x\u`+d+`"\u`+strings.ToUpper(d)+`\u`+d, b); got != want {
				w.Fail("\\u%s in base %d gives %q", d, b, got)
			}
		}
		return true
	})
}

// ---------------------------------------------------------------- X04

func snakeRef(s string) string {
	var sb strings.Builder
	other := false
	for i := 0; i < len(s); i++ {
		capital := 'A' <= s[i] && s[i] <= 'Z'
		if capital && other {
			sb.WriteByte('_')
			other = false
		}
		if !capital && s[i] != '_' {
			other = true
		}
		sb.WriteByte(s[i])
	}
	return strings.ToLower(sb.String())
}

var smallWord = regexp.MustCompile(`_[a-z]`)

func camelRef(s string) string {
	f := strings.IndexFunc(s, func(r rune) bool { return r < 128 && unicode.IsLetter(r) })
	if f < 0 {
		return s
	}
	return s[:f] + strings.ToUpper(s[f:f+1]) + smallWord.ReplaceAllStringFunc(s[f+1:], func(m string) string { return strings.ToUpper(m[1:]) })
}

var initialisms = map[string]bool{}

func init() {
	for _, s := range strings.Fields(`ACL API ASCII CPU CSS DNS EOF GUID HTML HTTP HTTPS ID IP JSON LHS QPS RAM RHS RPC SLA SMTP SQL SSH TCP TLS TTL UDP UI UID UUID URI URL UTF8 VM XML XMPP XSRF XSS`) {
		initialisms[s] = true
	}
}

func lintRef(name string) string {
	if name != "" && strings.Trim(name, "_") == "" {
		return "_"
	}
	s := []rune(strings.TrimLeft(name, "_"))
	if len(s) == 0 {
		return ""
	}
	s[0] = unicode.ToUpper(s[0])
	// parts between runs of underscores, with the underscore that stays between digits
	var parts []string
	for _, p := range strings.Split(string(s), "_") {
		if p == "" {
			continue
		}
		if n := len(parts); n > 0 {
			last, _ := utf8.DecodeLastRuneInString(parts[n-1])
			first, _ := utf8.DecodeRuneInString(p)
			if unicode.IsDigit(last) && unicode.IsDigit(first) {
				p = "_" + p
			}
		}
		parts = append(parts, p)
	}
	out := ""
	for _, p := range parts {
		// words of a part end where a small letter is followed by something else
		var words []string
		word := ""
		rs := []rune(p)
		for i, r := range rs {
			word += string(r)
			if i+1 == len(rs) || unicode.IsLower(r) && !unicode.IsLower(rs[i+1]) {
				words = append(words, word)
				word = ""
			}
		}
		for _, x := range words {
			switch {
			case initialisms[strings.ToUpper(x)]:
				x = strings.ToUpper(x)
			case out != "" && strings.ToLower(x) == x:
				r, n := utf8.DecodeRuneInString(x)
				x = string(unicode.ToUpper(r)) + x[n:]
			}
			out += x
		}
	}
	return out
}

func indentRef(text, prefix string) string {
	if prefix == "" {
		return text
	}
	parts := strings.Split(text, "\n")
	for i := range parts {
		if i == len(parts)-1 && i > 0 && parts[i] == "" {
			continue
		}
		parts[i] = prefix + parts[i]
	}
	return strings.Join(parts, "\n")
}

func convert(w *core.W, s string) bool {
	in, same := fresh(s)
	some := false
	for _, f := range []struct {
		name string
		got  string
		want string
	}{
		{"SnakeString", stringx.SnakeString(in), snakeRef(s)},
		{"CamelString", stringx.CamelString(in), camelRef(s)},
	} {
		if f.got != f.want {
			w.Fail("%s(%q) is %q, not %q", f.name, s, f.got, f.want)
		}
		some = some || f.want != s
	}
	if utf8.ValidString(s) {
		want := lintRef(s)
		if got := stringx.LintCamelString(in); got != want {
			w.Fail("LintCamelString(%q) is %q, not %q", s, got, want)
		}
		some = some || want != s
	}
	if !same() {
		w.Fail("a conversion of %q changed its input", s)
	}
	return some
}

func cases(c *core.Ctx) {
	enumTexts(c, "conversions of letters", []string{"i", "d", "I", "D", "_", "1", "é", "-"}, core.Pick(c, 6, 7), convert)
	enumTexts(c, "conversions of boundary characters", []string{"a", "z", "A", "Z", "_", "0", "@", "[", "`", "{", "É", "世", "ß", "\xff"}, core.Pick(c, 4, 5), convert)
	var frags []string
	for x := range initialisms {
		frags = append(frags, x)
	}
	sortStrings(frags)
	frags = append(frags, "CAT", "IDS", "UTF")
	forms := []func(string) string{strings.ToLower, strings.ToUpper, func(s string) string { return s[:1] + strings.ToLower(s[1:]) }, func(s string) string { return strings.ToLower(s[:1]) + s[1:] }, func(s string) string { return s[:len(s)-1] + strings.ToLower(s[len(s)-1:]) }}
	seps := []string{"_", "", "__", "1_2", "_3", "4_", "_x_", "é", "5__6"}
	ends := []string{"", "_", "s", "9", "_7_8"}
	radix := []int{len(frags), len(frags), len(forms), len(forms), len(seps), len(ends)}
	c.Enum("conversions of words of the initialism table", core.Prod(radix...), func(i int) string { return fmt.Sprint(core.Mixed(i, radix...)) }, func(w *core.W, i int) bool {
		d := core.Mixed(i, radix...)
		return convert(w, forms[d[2]](frags[d[0]])+seps[d[4]]+forms[d[3]](frags[d[1]])+ends[d[5]])
	})
	longTexts(c, "long conversions", []string{"i", "d", "I", "D", "_", "1", "é", "-", "html"}, 3, core.Pick(c, []int{3, 7, 30}, []int{3, 4, 7, 16, 30, 100}), convert)
	prefixes := []string{"", " ", "\t", "ab", "\n", "é", "a\n", "\n\n"}
	indent := func(w *core.W, s string) bool {
		for _, p := range prefixes {
			in, same := fresh(s)
			if got, want := stringx.Indent(in, p), indentRef(s, p); got != want {
				w.Fail("Indent(%q, %q) is %q, not %q", s, p, got, want)
			}
			if !same() {
				w.Fail("Indent changed its input")
			}
		}
		return s != ""
	}
	enumTexts(c, "indents", []string{"\n", "a", "\r", " ", "é", "\xff"}, core.Pick(c, 6, 7), indent)
	longTexts(c, "long indents", []string{"\n", "a", "\r", " bcd", "é"}, 3, []int{2, 8, 33, 300}, indent)
}
