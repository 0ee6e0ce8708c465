package main

import (
	"math/rand"
)

var boxMagic = []byte{0, 0, 0, 12, 'J', 'X', 'L', ' ', 13, 10, 0x87, 10}

func be(v uint64, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[n-1-i] = byte(v >> uint(8*i))
	}
	return b
}

// box writes a box; mode 0: 32 bit size, 1: 64 bit size, 2: up to the end of the file, 3: damaged size.
func box(r *rand.Rand, typ string, body []byte, mode int) []byte {
	var o []byte
	n := uint64(len(body))
	switch mode {
	case 1:
		o = append(be(1, 4), typ...)
		o = append(o, be(n+16, 8)...)
	case 2:
		o = append(be(0, 4), typ...)
	case 3:
		s := []uint64{2 + uint64(r.Intn(6)), n + 9 + uint64(r.Intn(40)), n + 8 - uint64(r.Intn(int(n)+1)), 0xffffffff, 1 << 31}[r.Intn(5)]
		if r.Intn(3) == 0 {
			o = append(be(1, 4), typ...)
			s = []uint64{uint64(r.Intn(16)), n + 17 + uint64(r.Intn(40)), n + 16 - uint64(r.Intn(int(n)+1)), 1<<32 + n + 16, 1 << 63, 1<<64 - 1, 1<<64 - 16, 1<<63 + n + 16}[r.Intn(8)]
			o = append(o, be(s, 8)...)
		} else {
			o = append(be(s, 4), typ...)
		}
	default:
		o = append(be(n+8, 4), typ...)
	}
	return append(o, body...)
}

// wrap puts a codestream into a container.
func wrap(r *rand.Rand, cs []byte) []byte {
	out := append([]byte{}, boxMagic...)
	type bx struct {
		typ  string
		body []byte
	}
	var l []bx
	junk := func() bx {
		b := make([]byte, []int{0, 0, 1, 5, r.Intn(40)}[r.Intn(5)])
		for i := range b {
			b[i] = byte(r.Intn(256))
		}
		switch r.Intn(6) {
		case 0:
			b = append(be(8+uint64(len(cs)), 4), append([]byte("jxlc"), cs...)...) // a box within a box
		case 1:
			b = append(append([]byte{}, boxMagic...), b...)
		}
		return bx{[]string{"Exif", "xml ", "brob", "jumb", "free", "jbrd", "JXLC", "jxli", "\x00\x00\x00\x00"}[r.Intn(9)], b}
	}
	if r.Intn(8) > 0 {
		l = append(l, bx{"ftyp", []byte("jxl \x00\x00\x00\x00jxl ")})
	}
	if r.Intn(3) == 0 {
		l = append(l, bx{"jxll", []byte{[]byte{5, 10, 10, 10, 5, 10, 5, 6}[r.Intn(8)]}})
		if r.Intn(20) == 0 {
			l[len(l)-1].body = make([]byte, r.Intn(4))
		}
	}
	for i := r.Intn(3); i > 0; i-- {
		l = append(l, junk())
	}
	if r.Intn(2) == 0 {
		l = append(l, bx{"jxlc", cs})
	} else {
		n := 1 + r.Intn(4)
		rest := cs
		for i := 0; i < n; i++ {
			k := r.Intn(len(rest) + 1)
			if r.Intn(4) == 0 {
				k = r.Intn(4)
			}
			if i == n-1 || k > len(rest) {
				k = len(rest)
			}
			idx := uint64(i)
			if i == n-1 {
				idx |= 1 << 31
			}
			if r.Intn(60) == 0 {
				idx = r.Uint64()
			}
			l = append(l, bx{"jxlp", append(be(idx, 4), rest[:k]...)})
			rest = rest[k:]
			for r.Intn(3) == 0 {
				l = append(l, junk())
			}
		}
	}
	for i := r.Intn(3); i > 0; i-- {
		l = append(l, junk())
	}
	switch r.Intn(30) {
	case 0: // no codestream
		var k []bx
		for _, b := range l {
			if b.typ != "jxlc" && b.typ != "jxlp" {
				k = append(k, b)
			}
		}
		l = k
	case 1:
		l = append(l, bx{"jxlc", cs})
	case 2:
		l = append(l, bx{"jxlp", make([]byte, r.Intn(8))})
	case 3:
		r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	}
	broken := -1
	if r.Intn(8) == 0 && len(l) > 0 {
		broken = r.Intn(len(l))
	}
	for i, b := range l {
		m := []int{0, 0, 1}[r.Intn(3)]
		if i == len(l)-1 && r.Intn(2) == 0 || r.Intn(100) == 0 {
			m = 2
		}
		if i == broken {
			m = 3
		}
		out = append(out, box(r, b.typ, b.body, m)...)
	}
	switch r.Intn(20) {
	case 0:
		out = out[:12+r.Intn(len(out)-11)]
	case 1:
		for k := 1 + r.Intn(9); k > 0; k-- {
			out = append(out, byte(r.Intn(256)))
		}
	}
	return out
}

// smallImage is a little valid codestream.
func smallImage(r *rand.Rand) []byte {
	h := plainHdr(r, 1+r.Intn(6), 1+r.Intn(6))
	w := &BW{}
	h.write(r, w)
	writeFrame(r, w, h.nc(), len(h.ECs), &FrameOpts{F: plainF(h), Xf: XfOpts{Max: 1, IDs: []int{0}, Keep: 12}, TreeSz: r.Intn(3), Style: -1, VStyle: -1})
	return w.b
}

func init() {
	gens["C03"] = func(r *rand.Rand, n int, tier string, emit func(any)) {
		var cs []imgCase
		for i := 0; i < n; i++ {
			b := smallImage(r)
			if r.Intn(8) == 0 {
				b = composed(r, 3, 1+r.Intn(8), "").b
			}
			switch r.Intn(12) {
			case 0: // bare
				switch r.Intn(4) {
				case 0:
					b = b[:r.Intn(len(b))]
				case 1:
					b = append(b, boxMagic[:r.Intn(13)]...)
				}
			case 1:
				w := wrap(r, b)
				b = w[:r.Intn(40)%(len(w)+1)]
			default:
				b = wrap(r, b)
			}
			cs = append(cs, imgCase{b, "container"})
		}
		runImages(r, cs, emit)
	}
}
