KEY="rand crypt str pass unsafe type"
R="hack/fastrand/fastrand.go"; C="library/cryptox/cryptox.go"; S="library/stringx/stringx.go"
EDITS=[
(R,'''	if l >= 8 {
		var i int
		uint64p := *(*[]uint64)(unsafe.Pointer(&p))
		for l >= 8 {
			uint64p[i] = r.Uint64()
			i++
			l -= 8
		}
	}

	if l > 0 {
		for l > 0 {
			p[len(p)-l] = byte(r.Uint64() >> (l * 8))
			l--
		}
	}

	return len(p), nil
''','''	rest := p
	for len(rest) >= 8 {
		binary.LittleEndian.PutUint64(rest, r.Uint64())
		rest = rest[8:]
	}
	for i := range rest {
		rest[i] = byte(r.Uint64() >> ((len(rest) - i) * 8))
	}

	return l, nil
'''),
(R,'''	"math/bits"
	"unsafe"
''','''	"encoding/binary"
	"math/bits"
	_ "unsafe"
'''),
(R,'''	max := int64((1 << 63) - 1 - (1<<63)%uint64(n))
	v := Int63()
	for v > max {
		v = Int63()
	}
	return v % n
''','''	max := int64((1 << 63) - 1 - (1<<63)%uint64(n))
	for {
		if v := Int63(); v <= max {
			return v % n
		}
	}
'''),
(C,'''	pad := r[l-last : l]
	isPad := true
	for _, v := range pad {
		if v != n {
			isPad = false
			break
		}
	}
	if !isPad {
		return nil, errors.New("remove pad error")
	}
	return r[:l-last], nil
''','''	for i := l - 2; i >= l-last; i-- {
		if r[i] != n {
			return nil, errors.New("remove pad error")
		}
	}
	return r[:l-last], nil
'''),
(C,'''	for len(plainText) > 0 {
		block.Encrypt(dst, plainText)
		plainText = plainText[blockSize:]
		dst = dst[blockSize:]
	}
	return encode(r, useBase64)
''','''	for i := 0; i < len(plainText); i += blockSize {
		block.Encrypt(dst[i:i+blockSize], plainText[i:i+blockSize])
	}
	return encode(r, useBase64)
'''),
(S,'''	var old string
	for old != s {
		old = s
		s = spaceReplacer.Replace(s)
	}
	return s
''','''	for {
		next := spaceReplacer.Replace(s)
		if next == s {
			return s
		}
		s = next
	}
'''),
(S,'''			case '\\n':
				buf.WriteByte('\\\\')
				buf.WriteByte('n')
			case '\\r':
				buf.WriteByte('\\\\')
				buf.WriteByte('r')
''','''			case '\\n':
				buf.WriteString(`\\n`)
			case '\\r':
				buf.WriteString(`\\r`)
'''),
(S,'''	has := strings.HasSuffix(text, "\\n")
	text = prefix + strings.ReplaceAll(text, "\\n", "\\n"+prefix)
	if has {
		return text[:len(text)-len(prefix)]
	}
	return text
''','''	end := ""
	if strings.HasSuffix(text, "\\n") {
		text, end = text[:len(text)-1], "\\n"
	}
	return prefix + strings.Join(strings.Split(text, "\\n"), "\\n"+prefix) + end
'''),
]
