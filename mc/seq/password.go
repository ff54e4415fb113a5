package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/miniLCT/gosb/library/password"
	"verif/core"
)

func init() {
	core.Register("W01", "exploration", "the acceptance rule stated over character classes taken from a table of the printable ASCII characters. One case is a string with all 256 flag values and several length limits; non-trivial if the string is accepted for some flag", passwords)
}

const (
	pwDigits  = "0123456789"
	pwLower   = "abcdefghijklmnopqrstuvwxyz"
	pwUpper   = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
	pwSymbols = "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~"
)

var pwClass = func() (t [256]byte) {
	for i, s := range []string{pwDigits, pwLower, pwUpper, pwSymbols} {
		for _, c := range s {
			t[c] = 1 << i
		}
	}
	return
}()

// pwAccept is the rule; judged is false where it leaves the answer open.
func pwAccept(pw string, flag password.Flag) (ok, judged bool) {
	var has byte
	for i := 0; i < len(pw); i++ {
		k := pwClass[pw[i]]
		if k == 0 {
			return false, true
		}
		has |= k
	}
	f := func(x password.Flag) bool { return flag&x != 0 }
	digits, lower, upper, symbols := has&1 != 0, has&2 != 0, has&4 != 0, has&8 != 0
	if f(password.N) != digits || f(password.S) != symbols {
		return false, true
	}
	if f(password.L|password.U|password.LorU) != (lower || upper) {
		return false, true
	}
	if f(password.L) && !lower || f(password.U) && !upper {
		return false, true
	}
	if f(password.L) != f(password.U) && lower && upper {
		return false, false // the rule does not say whether the other case may be there as well
	}
	return true, true
}

func passwords(c *core.Ctx) {
	flags := func(w *core.W, pw string) bool {
		some := false
		for f := 0; f < 256; f++ {
			flag := password.Flag(f)
			want, judged := pwAccept(pw, flag)
			if !judged {
				continue
			}
			some = some || want
			if got := password.CheckPassword(pw, flag, 0); got != want {
				w.Fail("flag %#x: CheckPassword(%q) is %v", f, pw, got)
			}
			if f < 32 {
				if got := password.CheckPassword(pw, flag, len(pw), len(pw)); got != want {
					w.Fail("flag %#x with both limits %d: CheckPassword(%q) is %v", f, len(pw), pw, got)
				}
				if password.CheckPassword(pw, flag, len(pw)+1) || len(pw) > 0 && password.CheckPassword(pw, flag, 0, len(pw)-1) {
					w.Fail("flag %#x: CheckPassword(%q) accepts a password outside the length limits", f, pw)
				}
			}
		}
		return some
	}
	c.Enum("single bytes", 256, func(i int) string { return fmt.Sprintf("%q", string([]byte{byte(i)})) }, func(w *core.W, i int) bool {
		return flags(w, string([]byte{byte(i)}))
	})
	c.Enum("pairs of bytes", 65536, func(i int) string { return fmt.Sprintf("%q", string([]byte{byte(i), byte(i >> 8)})) }, func(w *core.W, i int) bool {
		return flags(w, string([]byte{byte(i), byte(i >> 8)}))
	})
	c.Enum("single characters", 0x110000, func(i int) string { return fmt.Sprintf("%U", i) }, func(w *core.W, i int) bool {
		if !utf8.ValidRune(rune(i)) {
			return false
		}
		for f := password.Flag(0); f < 32; f++ {
			for _, pw := range []string{string(rune(i)), "a" + string(rune(i)), string(rune(i)) + "B9"} {
				if want, judged := pwAccept(pw, f); judged && password.CheckPassword(pw, f, 0) != want {
					w.Fail("flag %#x: CheckPassword(%q) is %v", f, pw, !want)
				}
			}
		}
		return i < 128
	})
	alphabet := "09az" + "AZ" + "!/:@[`{~" + " \x7f\x00\xff"
	sp := core.Words{Base: len(alphabet), Lo: 0, Hi: core.Pick(c, 4, 5)}
	word := func(i int) string {
		v := sp.At(i)
		b := make([]byte, len(v))
		for k, x := range v {
			b[k] = alphabet[x]
		}
		return string(b)
	}
	c.Enum("strings over the boundary characters", sp.N(), func(i int) string { return fmt.Sprintf("%q", word(i)) }, func(w *core.W, i int) bool { return flags(w, word(i)) })
	lens := core.Pick(c, []int{8, 17, 65}, []int{7, 8, 9, 16, 17, 33, 65, 130, 260})
	longTexts(c, "long passwords", strings.Split("0 9 a z A Z ! ~ \x7f @ ` é", " "), 2, lens, flags)
	// limits
	c.Enum("length limits", 12*12*14*14, func(i int) string {
		d := core.Mixed(i, 12, 12, 14, 14)
		return fmt.Sprintf("%d letters, %d digits, limits %d and %d", d[0], d[1], d[2]-1, d[3]-2)
	}, func(w *core.W, i int) bool {
		d := core.Mixed(i, 12, 12, 14, 14)
		lo, hi := d[2]-1, d[3]-2
		pw := ""
		for k := 0; k < d[0]; k++ {
			pw += "q"
		}
		for k := 0; k < d[1]; k++ {
			pw += "7"
		}
		var flag password.Flag
		if d[0] > 0 {
			flag |= password.L
		}
		if d[1] > 0 {
			flag |= password.N
		}
		want := len(pw) >= lo
		var got bool
		if hi >= -1 {
			want = want && len(pw) <= hi
			got = password.CheckPassword(pw, flag, lo, hi)
		} else {
			got = password.CheckPassword(pw, flag, lo)
		}
		if got != want {
			w.Fail("CheckPassword(%q, %#x, %d, %d) is %v", pw, flag, lo, hi, got)
		}
		return want
	})
}
