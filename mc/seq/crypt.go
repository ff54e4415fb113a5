package main

import (
	"bytes"
	"crypto/aes"
	"crypto/md5"
	"crypto/rand"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"io"

	"github.com/miniLCT/gosb/library/cryptox"
	"verif/core"
)

func init() {
	core.Register("C01", "exploration", "an own implementation of ECB, CBC and CTR with PKCS padding on the AES block function. One case is a mode, key size, encoding, plaintext length and content; non-trivial if the plaintext is not empty", cryptRoundTrip)
	core.Register("C02", "exploration", "the rules of PKCS padding and of the encodings stated separately. One case is a ciphertext given to a decryption function; non-trivial if it must be rejected", cryptReject)
	core.Register("C03", "exploration", "the standard library's streaming digests fed byte by byte, published vectors, and FNV-1a computed by its definition. One case is an input; non-trivial if it is not empty", digests)
}

type aesMode struct {
	name string
	enc  func(key, text []byte, b64 ...bool) []byte
	dec  func(key, text []byte, b64 ...bool) ([]byte, error)
}

var aesModes = []aesMode{
	{"ECB", cryptox.AESEncrypt, cryptox.AESDecrypt},
	{"CBC", cryptox.AESCBCEncrypt, cryptox.AESCBCDecrypt},
	{"CTR", cryptox.AESCTREncrypt, cryptox.AESCTRDecrypt},
}

func encodeRef(enc int, b []byte) []byte {
	if enc == 1 {
		return []byte(base64.RawURLEncoding.EncodeToString(b))
	}
	return []byte(hex.EncodeToString(b))
}

func b64Args(enc int) []bool {
	switch enc {
	case 1:
		return []bool{true}
	case 2:
		return []bool{false}
	}
	return nil
}

func padRef(text []byte) []byte {
	n := 16 - len(text)%16
	return append(bytes.Clone(text), bytes.Repeat([]byte{byte(n)}, n)...)
}

// encryptRef encrypts raw: data is padded already except for CTR.
func encryptRef(mode string, key, iv, data []byte) []byte {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic("machinery: " + err.Error())
	}
	out := make([]byte, len(data))
	switch mode {
	case "ECB":
		for i := 0; i < len(data); i += 16 {
			b.Encrypt(out[i:i+16], data[i:i+16])
		}
		return out
	case "CBC":
		prev := iv
		for i := 0; i < len(data); i += 16 {
			var x [16]byte
			for j := range x {
				x[j] = data[i+j] ^ prev[j]
			}
			b.Encrypt(out[i:i+16], x[:])
			prev = out[i : i+16]
		}
	case "CTR":
		ctr := bytes.Clone(iv)
		var ks [16]byte
		for i := range data {
			if i%16 == 0 {
				b.Encrypt(ks[:], ctr)
				for j := 15; j >= 0; j-- {
					ctr[j]++
					if ctr[j] != 0 {
						break
					}
				}
			}
			out[i] = data[i] ^ ks[i%16]
		}
	}
	return append(bytes.Clone(iv), out...)
}

func testKey(size, variant int) []byte {
	k := make([]byte, size)
	for i := range k {
		switch variant {
		case 0:
			k[i] = byte(i*7 + 1)
		case 1:
			k[i] = 0
		default:
			k[i] = 0xff - byte(i)
		}
	}
	return k
}

func testText(n, variant int) []byte {
	t := make([]byte, n)
	for i := range t {
		switch variant {
		case 0:
			t[i] = byte(i + 'A')
		case 1:
			t[i] = 0
		case 2:
			t[i] = 0xff
		case 3:
			t[i] = byte(16 - n%16) // looks like padding
		case 4:
			t[i] = 1
		case 5:
			t[i] = 16
		}
	}
	return t
}

// guarded copies b into the middle of a larger array and returns the slice, with spare capacity, and a check that the surroundings are as before.
func guarded(b []byte, spare int) ([]byte, func() bool) {
	mem := bytes.Repeat([]byte{0xA5}, 8+len(b)+spare)
	copy(mem[8:], b)
	was := bytes.Clone(mem)
	return mem[8 : 8+len(b) : 8+len(b)+spare], func() bool { return bytes.Equal(mem, was) }
}

// countingReader gives every byte a different non-zero value, a few at a time.
type countingReader struct{ n, step int }

func (r *countingReader) Read(p []byte) (int, error) {
	n := min(len(p), r.step)
	for i := 0; i < n; i++ {
		r.n++
		p[i] = byte(1 + (r.n*37)%251)
	}
	return n, nil
}

func cryptRoundTrip(c *core.Ctx) {
	var lens []int
	for n := 0; n < core.Pick(c, 66, 300); n++ {
		lens = append(lens, n)
	}
	radix := []int{3, 3, 3, 3, 6, 3, len(lens)}
	desc := func(i int) string {
		d := core.Mixed(i, radix...)
		return fmt.Sprintf("%s, key of %d bytes variant %d, encoding argument %v, text variant %d of %d bytes, spare capacity %d", aesModes[d[0]].name, 16+8*d[1], d[2], b64Args(d[3]), d[4], lens[d[6]], []int{0, 1, 40}[d[5]])
	}
	f := func(w *core.W, i int) bool {
		d := core.Mixed(i, radix...)
		m, b64 := aesModes[d[0]], b64Args(d[3])
		spare := []int{0, 1, 40}[d[5]]
		key, keyOK := guarded(testKey(16+8*d[1], d[2]), spare)
		text, textOK := guarded(testText(lens[d[6]], d[4]), spare)
		var cts [2][]byte
		for r := range cts {
			ct := m.enc(key, text, b64...)
			if !keyOK() || !textOK() {
				w.Fail("encryption changed the caller's memory")
			}
			var raw []byte
			var err error
			if d[3] == 1 {
				raw, err = base64.RawURLEncoding.Strict().DecodeString(string(ct))
			} else {
				raw, err = hex.DecodeString(string(ct))
			}
			if err != nil || !bytes.Equal(encodeRef(d[3], raw), ct) {
				w.Fail("the ciphertext %q is not properly encoded: %v", ct, err)
			}
			data := text
			if m.name != "CTR" {
				data = padRef(text)
			}
			var iv []byte
			if m.name != "ECB" {
				if len(raw) < 16 {
					w.Fail("the ciphertext %q has no initialisation vector", ct)
				}
				iv = raw[:16]
			}
			if want := encryptRef(m.name, key, iv, data); !bytes.Equal(raw, want) {
				w.Fail("the ciphertext is %x, the standard mode gives %x", raw, want)
			}
			cts[r] = bytes.Clone(ct)
			in, inOK := guarded(ct, spare)
			pt, err := m.dec(key, in, b64...)
			if err != nil || !bytes.Equal(pt, text) {
				w.Fail("decryption returned %x, %v", pt, err)
			}
			if !keyOK() || !inOK() || !textOK() {
				w.Fail("decryption changed the caller's memory")
			}
			for j := range pt { // the result is the caller's
				pt[j] ^= 0xff
			}
			if !keyOK() || !inOK() || !textOK() {
				w.Fail("the result of decryption shares memory with its input")
			}
			for j := range ct {
				ct[j] ^= 0xff
			}
			if !keyOK() || !textOK() {
				w.Fail("the ciphertext shares memory with the input")
			}
		}
		if m.name != "ECB" && bytes.Equal(cts[0], cts[1]) {
			w.Fail("two encryptions used the same initialisation vector")
		}
		if m.name == "ECB" && !bytes.Equal(cts[0], cts[1]) {
			w.Fail("two encryptions differ: %q %q", cts[0], cts[1])
		}
		return lens[d[6]] > 0
	}
	c.Enum("encrypt and decrypt", core.Prod(radix...), desc, f)
	lens = []int{127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4094, 4095, 4096, 4097, 65535, 65536, 65537}
	radix = []int{3, 3, 1, 3, 2, 1, len(lens)}
	c.Enum("encrypt and decrypt long texts", core.Prod(radix...), desc, f)
	// the random source read for the initialisation vector
	c.Serial(func(w *core.W) {
		real := rand.Reader
		defer func() { rand.Reader = real }()
		n := int64(0)
		for step := 1; step <= 17; step++ {
			for _, m := range aesModes[1:] {
				for l := 0; l <= 33; l++ {
					w.Case(func() string {
						return fmt.Sprintf("%s, text of %d bytes, the random source gives at most %d bytes at a time", m.name, l, step)
					}, func() {
						src := &countingReader{step: step}
						rand.Reader = src
						ct := m.enc(testKey(16, 0), testText(l, 0))
						rand.Reader = real
						raw, err := hex.DecodeString(string(ct))
						if err != nil || len(raw) < 16 {
							w.Fail("returned %q", ct)
						}
						for k := 0; k < 16; k++ {
							if raw[k] == 0 {
								w.Fail("byte %d of the initialisation vector %x was not taken from the random source", k, raw[:16])
							}
							for j := 0; j < k; j++ {
								if raw[j] == raw[k] {
									w.Fail("bytes %d and %d of the initialisation vector %x are the same random byte", j, k, raw[:16])
								}
							}
						}
						n++
					})
				}
			}
		}
		c.AddEvals(n, n)
		c.Bound(true, "initialisation vectors from a random source giving 1 to 17 bytes at a time")
	})
}

// cryptReject: every decryption either accepts a well-formed ciphertext, giving the text, or returns an error and no data.
func cryptReject(c *core.Ctx) {
	// call decrypts and checks that nothing changed and nothing comes with an error
	call := func(w *core.W, m aesMode, key, ct []byte, enc int) ([]byte, error) {
		in, ok := guarded(ct, 3)
		k, kok := guarded(key, 3)
		pt, err := m.dec(k, in, b64Args(enc)...)
		if !ok() || !kok() {
			w.Fail("decryption changed the caller's memory")
		}
		if err != nil && len(pt) > 0 {
			w.Fail("decryption returned data %x with error %v", pt, err)
		}
		return pt, err
	}
	iv := testKey(16, 2)
	// every way the padding can look: last byte n, the number of bytes before it that are equal to it
	for _, m := range aesModes[:2] {
		sizes := []int{1, 2, 3, 7, 33, 257}
		matches := []int{17, 18, 24, 31, 32, 33, 64, 128, 255, 256} // and every number up to 16
		for n := 16; n >= 0; n-- {
			matches = append([]int{n}, matches...)
		}
		radix := []int{256, len(matches), len(sizes), 2, 3}
		c.Enum(m.name+" paddings", core.Prod(radix...), func(i int) string {
			d := core.Mixed(i, radix...)
			return fmt.Sprintf("last byte %d, %d matching bytes, %d blocks, encoding %d, rest variant %d", d[0], matches[d[1]], sizes[d[2]], d[3], d[4])
		}, func(w *core.W, i int) bool {
			d := core.Mixed(i, radix...)
			last, match, blocks := d[0], min(matches[d[1]], 16*sizes[d[2]]), sizes[d[2]]
			data := make([]byte, 16*blocks)
			for j := range data {
				data[j] = []byte{byte(last) ^ 1, byte(last) ^ 0x80, byte(last) + 1}[d[4]]
			}
			for j := 0; j < match; j++ {
				data[len(data)-1-j] = byte(last)
			}
			data[len(data)-1] = byte(last)
			match = max(match, 1)
			valid := last >= 1 && last <= 16 && match >= last
			key := testKey(16+8*(d[0]%3), 0)
			pt, err := call(w, m, key, encodeRef(d[3], encryptRef(m.name, key, iv, data)), d[3])
			if valid {
				if err != nil || !bytes.Equal(pt, data[:len(data)-last]) {
					w.Fail("well-formed, but decryption returned %x, %v", pt, err)
				}
			} else if err == nil {
				w.Fail("malformed padding, decryption returned %x", pt)
			}
			return !valid
		})
		// one wrong byte inside the padding
		c.Enum(m.name+" damaged paddings", 16*16*255, func(i int) string {
			d := core.Mixed(i, 16, 16, 255)
			return fmt.Sprintf("padding of %d bytes, byte %d from the end changed by %#x", d[0]+1, d[1]+1, d[2]+1)
		}, func(w *core.W, i int) bool {
			d := core.Mixed(i, 16, 16, 255)
			n, at := d[0]+1, d[1]+1
			data := padRef(testText(32-n, 0))
			data[len(data)-at] ^= byte(d[2] + 1)
			last := int(data[len(data)-1])
			valid := last >= 1 && last <= 16
			for j := 1; j <= last && valid; j++ {
				valid = int(data[len(data)-j]) == last
			}
			key := testKey(16, 0)
			pt, err := call(w, m, key, encodeRef(0, encryptRef(m.name, key, iv, data)), 0)
			if valid != (err == nil) || valid && !bytes.Equal(pt, data[:len(data)-last]) {
				w.Fail("well-formed: %v, decryption returned %x, %v", valid, pt, err)
			}
			return !valid
		})
	}
	// every length and key size
	var sizes []int
	for n := 0; n < core.Pick(c, 80, 200); n++ {
		sizes = append(sizes, n)
	}
	for _, n := range []int{256, 512, 1024, 4096, 16384} {
		for k := -17; k <= 17; k++ {
			sizes = append(sizes, n+k)
		}
	}
	keySizes := []int{0, 1, 8, 15, 16, 17, 23, 24, 25, 31, 32, 33, 64}
	radix := []int{3, len(sizes), len(keySizes), 2}
	c.Enum("ciphertext lengths and key sizes", core.Prod(radix...), func(i int) string {
		d := core.Mixed(i, radix...)
		return fmt.Sprintf("%s, %d bytes, key of %d bytes, encoding %d", aesModes[d[0]].name, sizes[d[1]], keySizes[d[2]], d[3])
	}, func(w *core.W, i int) bool {
		d := core.Mixed(i, radix...)
		m, n, ks := aesModes[d[0]], sizes[d[1]], keySizes[d[2]]
		keyOK := ks == 16 || ks == 24 || ks == 32
		// as much as possible of a valid ciphertext: its last n bytes, or with zeros before
		key := testKey(16, 0)
		if keyOK {
			key = testKey(ks, 0)
		}
		var ct, want []byte
		fits := false
		switch m.name {
		case "ECB":
			if fits = n%16 == 0 && n > 0; fits {
				want = testText(n-1, 0)
				ct = encryptRef(m.name, key, nil, padRef(want))
			}
		case "CBC":
			if fits = n%16 == 0 && n > 16; fits {
				want = testText(n-17, 0)
				ct = encryptRef(m.name, key, iv, padRef(want))
			}
		default:
			if fits = n >= 16; fits {
				want = testText(n-16, 0)
				ct = encryptRef(m.name, key, iv, want)
			}
		}
		if !fits {
			for _, text := range [][]byte{nil, testText(15, 0), testText(40, 0)} { // cut out of something valid
				whole := encryptRef(m.name, key, iv, padRef(text))
				if len(whole) >= n {
					ct = whole[:n]
				}
			}
			if ct == nil {
				ct = testText(n, 0)
			}
		}
		if !keyOK {
			key = testKey(ks, 0)
		}
		pt, err := call(w, m, key, encodeRef(d[3], ct), d[3])
		if fits && keyOK {
			if err != nil || !bytes.Equal(pt, want) {
				w.Fail("well-formed, but decryption returned %x, %v", pt, err)
			}
			return false
		}
		if err == nil {
			w.Fail("malformed, decryption returned %x", pt)
		}
		if !keyOK {
			if _, p := core.Catch(func() { m.enc(key, []byte("x")) }); !p {
				w.Fail("encryption accepts a key of %d bytes", ks)
			}
		}
		return true
	})
	// every single-byte change of the encoded text, and every truncation
	radix = []int{3, 2, 2, 256, 100}
	c.Enum("damaged encodings", core.Prod(radix...), func(i int) string {
		d := core.Mixed(i, radix...)
		return fmt.Sprintf("%s, encoding %d, %d, byte %d put at %d", aesModes[d[0]].name, d[1], d[2], d[3], d[4])
	}, func(w *core.W, i int) bool {
		d := core.Mixed(i, radix...)
		m, enc := aesModes[d[0]], d[1]
		key := testKey(16, 0)
		data := padRef(testText(20, 0))
		ct := encodeRef(enc, encryptRef(m.name, key, iv, data))
		if d[4] >= len(ct) {
			return false
		}
		if d[2] == 0 {
			ct[d[4]] = byte(d[3])
		} else { // insert
			ct = append(ct[:d[4]:d[4]], append([]byte{byte(d[3])}, ct[d[4]:]...)...)
		}
		var valid bool
		if enc == 0 {
			_, err := hex.DecodeString(string(ct))
			valid = err == nil
		} else {
			_, err := base64.RawURLEncoding.DecodeString(string(ct))
			valid = err == nil
		}
		_, err := call(w, m, key, ct, enc)
		if !valid && err == nil {
			w.Fail("decryption accepts the text %q", ct)
		}
		return !valid
	})
	c.Enum("truncated encodings", 3*2*130, func(i int) string { return fmt.Sprint(core.Mixed(i, 3, 2, 130)) }, func(w *core.W, i int) bool {
		d := core.Mixed(i, 3, 2, 130)
		m, enc := aesModes[d[0]], d[1]
		key := testKey(16, 0)
		text := testText(20, 0)
		if m.name != "CTR" {
			text = padRef(text)
		}
		ct := encodeRef(enc, encryptRef(m.name, key, iv, text))
		if d[2] >= len(ct) {
			return false
		}
		ct = ct[:d[2]]
		pt, err := call(w, m, key, ct, enc)
		var raw []byte
		var e error
		if enc == 0 {
			raw, e = hex.DecodeString(string(ct))
		} else {
			raw, e = base64.RawURLEncoding.DecodeString(string(ct))
		}
		if e != nil && err == nil {
			w.Fail("decryption accepts the text %q", ct)
		}
		if e == nil && m.name == "CTR" && len(raw) >= 16 && (err != nil || !bytes.Equal(pt, text[:len(raw)-16])) {
			w.Fail("decryption of %d bytes returned %x, %v", len(raw), pt, err)
		}
		return true
	})
}

func digests(c *core.Ctx) {
	check := func(w *core.W, in []byte) {
		b, ok := guarded(in, 5)
		for r := 0; r < 2; r++ {
			f64, f32 := uint64(14695981039346656037), uint32(2166136261)
			hs := []io.Writer{md5.New(), sha1.New(), sha256.New(), sha512.New()}
			for _, x := range in {
				f64 = (f64 ^ uint64(x)) * 1099511628211
				f32 = (f32 ^ uint32(x)) * 16777619
				for _, h := range hs {
					h.Write([]byte{x})
				}
			}
			got := []string{cryptox.Md5(b), cryptox.Sha1(b), cryptox.Sha256(b), cryptox.Sha512(b)}
			for k, h := range hs {
				if want := fmt.Sprintf("%x", h.(interface{ Sum([]byte) []byte }).Sum(nil)); got[k] != want {
					w.Fail("digest %d is %s, the standard one %s", k, got[k], want)
				}
			}
			if g := cryptox.Fnv1aToUint64(b); g != f64 {
				w.Fail("64-bit FNV-1a is %d, not %d", g, f64)
			}
			if g := cryptox.Fnv1aToUint32(b); g != f32 {
				w.Fail("32-bit FNV-1a is %d, not %d", g, f32)
			}
		}
		if !ok() {
			w.Fail("the input was changed")
		}
	}
	sp := core.Words{Base: 256, Lo: 0, Hi: 2}
	c.Enum("all inputs of up to two bytes", sp.N(), func(i int) string { return fmt.Sprint(sp.At(i)) }, func(w *core.W, i int) bool {
		var in []byte
		for _, x := range sp.At(i) {
			in = append(in, byte(x))
		}
		check(w, in)
		return len(in) > 0
	})
	n := core.Pick(c, 301, 3000)
	c.Enum("all lengths", n*6, func(i int) string { return fmt.Sprintf("%d bytes, variant %d", i/6, i%6) }, func(w *core.W, i int) bool {
		check(w, testText(i/6, i%6))
		return i >= 6
	})
	big := []int{511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537, 100000, 1 << 18, 1<<18 + 1}
	c.Enum("long inputs", len(big)*6, func(i int) string { return fmt.Sprintf("%d bytes, variant %d", big[i/6], i%6) }, func(w *core.W, i int) bool {
		check(w, testText(big[i/6], i%6))
		return true
	})
	vectors := []struct{ f, in, want string }{
		{"md5", "", "d41d8cd98f00b204e9800998ecf8427e"},
		{"md5", "abc", "900150983cd24fb0d6963f7d28e17f72"},
		{"sha1", "", "da39a3ee5e6b4b0d3255bfef95601890afd80709"},
		{"sha1", "abc", "a9993e364706816aba3e25717850c26c9cd0d89d"},
		{"sha256", "", "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855"},
		{"sha256", "abc", "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"},
		{"sha512", "abc", "ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f"},
		{"fnv64", "", "14695981039346656037"},
		{"fnv64", "a", "12638187200555641996"},
		{"fnv32", "", "2166136261"},
		{"fnv32", "a", "3826002220"},
	}
	c.Enum("published vectors", len(vectors), func(i int) string { return fmt.Sprint(vectors[i]) }, func(w *core.W, i int) bool {
		v := vectors[i]
		b := []byte(v.in)
		got := map[string]func() string{
			"md5": func() string { return cryptox.Md5(b) }, "sha1": func() string { return cryptox.Sha1(b) },
			"sha256": func() string { return cryptox.Sha256(b) }, "sha512": func() string { return cryptox.Sha512(b) },
			"fnv64": func() string { return fmt.Sprint(cryptox.Fnv1aToUint64(b)) }, "fnv32": func() string { return fmt.Sprint(cryptox.Fnv1aToUint32(b)) },
		}[v.f]()
		if got != v.want {
			w.Fail("%s(%q) is %s", v.f, v.in, got)
		}
		return v.in != ""
	})
}
