package main

import (
	"bytes"
	"math/rand"

	"github.com/kpfaulkner/jxl-go/bundle"
	"github.com/kpfaulkner/jxl-go/jxlio"
)

// ICCTrace is a C16 record: a compressed profile and what two requests for the profile gave.
type ICCTrace struct {
	Bytes []int  `json:"bytes"`
	Kind  string `json:"kind"`
	Pan   bool   `json:"pan"`
	Err   bool   `json:"err"`
	Msg   string `json:"msg"`
	Out   []int  `json:"out"`
	Err2  bool   `json:"err2"`
	Out2  []int  `json:"out2"`
}

// iccEnc composes compressed profiles.
type iccEnc struct {
	r        *rand.Rand
	cmd, dat []byte
	n        int // bytes of profile so far
	tagLen   bool
}

func (e *iccEnc) varint(b *[]byte, v int) {
	for v >= 128 {
		*b = append(*b, byte(v)|128)
		v >>= 7
	}
	*b = append(*b, byte(v))
}

func (e *iccEnc) data(n int) {
	k := e.r.Intn(4)
	for i := 0; i < n; i++ {
		v := e.r.Intn(256)
		switch k {
		case 0:
			v = 0
		case 1:
			v = []int{0, 1, 255, 254, 2}[e.r.Intn(5)]
		case 2:
			v = i
		}
		e.dat = append(e.dat, byte(v))
	}
}

func (e *iccEnc) runLen() int {
	r := e.r
	switch r.Intn(4) {
	case 0:
		return r.Intn(5)
	case 1:
		return 1 + r.Intn(12)
	case 2:
		return r.Intn(40)
	}
	return 4 * r.Intn(8)
}

func (e *iccEnc) tags(spoil bool) {
	r := e.r
	if r.Intn(6) == 0 {
		e.varint(&e.cmd, 0)
		return
	}
	k := r.Intn(7)
	decl := k
	if r.Intn(4) == 0 {
		decl = []int{0, 1, 2, 20, 100, 127, 128, 300}[r.Intn(8)]
	}
	e.varint(&e.cmd, decl+1)
	e.n += 4
	for i := 0; i < k; i++ {
		code := []int{1, 2, 3, 4 + r.Intn(17), 4 + r.Intn(17)}[r.Intn(5)]
		if spoil && r.Intn(6) == 0 {
			code = 21 + r.Intn(43)
		}
		own := r.Intn(3) == 0
		sz := r.Intn(3) == 0
		c := code
		if own {
			c |= 64
		}
		if sz {
			c |= 128
		}
		e.cmd = append(e.cmd, byte(c))
		num := func() int {
			return []int{0, 1, 12, 20, 127, 128, 132, 255, 256, 16383, 16384, 70000, 2097151, 2097152, 100000000, 300000000}[r.Intn(16)]
		}
		if own {
			e.varint(&e.cmd, num())
		}
		if sz {
			e.varint(&e.cmd, num())
		}
		if code == 1 {
			if r.Intn(3) == 0 { // names that also have a code
				e.dat = append(e.dat, []string{"rXYZ", "kXYZ", "lumi", "rTRC", "desc", "wtpt", "bkpt"}[r.Intn(7)]...)
			} else {
				e.data(4)
			}
		}
		e.n += 12
		if code == 2 || code == 3 {
			e.n += 24
		}
	}
	if r.Intn(8) > 0 {
		e.cmd = append(e.cmd, byte([]int{0, 0, 64, 128, 192}[r.Intn(5)]))
	} else {
		e.tagLen = true // no terminator: no data commands can follow
	}
}

func (e *iccEnc) body(spoil bool) {
	r := e.r
	for i := r.Intn(7); i > 0; i-- {
		switch k := r.Intn(9); k {
		case 0, 1, 2:
			n := e.runLen()
			e.cmd = append(e.cmd, byte(1+k))
			e.varint(&e.cmd, n)
			e.data(n)
			e.n += n
		case 3, 4, 5, 6:
			w := []int{1, 2, 4}[r.Intn(3)]
			order := r.Intn(3)
			if spoil && r.Intn(10) == 0 {
				w = 3
			}
			if spoil && r.Intn(10) == 0 {
				order = 3
			}
			fl := w - 1 | order<<2
			if r.Intn(8) == 0 {
				fl |= 32 << uint(r.Intn(3)) // bits that mean nothing
			}
			stride := w
			lim := (e.n - 1) / 4
			st := r.Intn(2) == 0
			if st {
				fl |= 16
				stride = w + r.Intn(12)
				if r.Intn(4) == 0 || stride > lim {
					stride = lim
				}
				if spoil && r.Intn(4) == 0 {
					stride = []int{0, 1, 2, 3, lim + 1, lim + 2, e.n, e.n + 1, 1 << 20, 1 << 29}[r.Intn(10)]
				}
			}
			n := e.runLen()
			e.cmd = append(e.cmd, 4, byte(fl))
			if st {
				e.varint(&e.cmd, stride)
			}
			e.varint(&e.cmd, n)
			e.data(n)
			e.n += n
		case 7:
			e.cmd = append(e.cmd, 10)
			e.data(12)
			e.n += 20
		case 8:
			c := 16 + r.Intn(8)
			if spoil && r.Intn(3) == 0 {
				c = []int{0, 5, 6, 9, 11, 15, 24, 25, 64, 128, 255}[r.Intn(11)]
			}
			e.cmd = append(e.cmd, byte(c))
			e.n += 8
		}
	}
}

func (e *iccEnc) header(n int) {
	r := e.r
	h := make([]byte, n)
	if r.Intn(2) == 0 {
		for i := range h {
			h[i] = byte(r.Intn(256))
		}
	}
	set := func(i int, v byte) {
		if i < n {
			h[i] = v
		}
	}
	// the platform signature selects the prediction of the next three bytes
	if r.Intn(4) > 0 {
		set(40, []byte{'A', 'M', 'S', 'S', 'T', 0}[r.Intn(6)])
		set(41, []byte{0, 'G', 'U', 'U', 'G', 'I', 0}[r.Intn(7)])
	}
	e.dat = append(e.dat, h...)
	e.n = n
}

// randICC is a compressed profile; spoilt ones break a rule somewhere, or may.
func randICC(r *rand.Rand) ([]byte, string) {
	spoil := r.Intn(4) == 0
	kind := "regular"
	if spoil {
		kind = "spoilt"
	}
	e := &iccEnc{r: r}
	if r.Intn(6) == 0 {
		e.header([]int{0, 1, 3, 4, 40, 41, 42, 43, 44, 80, 100, 127, 128}[r.Intn(13)])
	} else {
		e.header(128)
		e.tags(spoil)
		if !e.tagLen {
			e.body(spoil)
		}
	}
	n, c := e.n, len(e.cmd)
	if spoil {
		switch r.Intn(8) {
		case 0:
			n += []int{1, -1, 2, 12, 128, -4, 1 << 20, 1 << 28}[r.Intn(8)]
			kind = "wrong size"
		case 1:
			c += []int{1, -1, 3, 300, 1 << 20, 1 << 28}[r.Intn(6)]
			kind = "wrong number of commands"
		}
		if n < 0 {
			n = 0
		}
		if c < 0 {
			c = 0
		}
	}
	var b []byte
	e.varint(&b, n)
	e.varint(&b, c)
	b = append(append(b, e.cmd...), e.dat...)
	if spoil && kind == "spoilt" || r.Intn(12) == 0 {
		switch r.Intn(5) {
		case 0:
			b = b[:r.Intn(len(b)+1)]
			kind = "cut"
		case 1:
			k := 2 + len(e.cmd)
			if k > len(b) {
				k = len(b)
			}
			if k > 0 {
				b[r.Intn(k)] = byte(r.Intn(256))
				kind = "changed"
			}
		case 2:
			b = append(b, byte(r.Intn(256)))
			kind = "longer"
		case 3:
			b = make([]byte, r.Intn(40))
			for i := range b {
				b[i] = byte([]int{r.Intn(256), 255, 128, 1, 0}[r.Intn(5)])
			}
			kind = "noise"
		}
	}
	return b, kind
}

func init() {
	ops["icc"] = func(j *Job, r *Res) {
		h := &bundle.ImageHeader{EncodedICC: append([]byte{}, j.Data...)}
		if j.S == "header" {
			var err error
			h, err = bundle.ParseImageHeader(jxlio.NewBitStreamReader(bytes.NewReader(j.B)), 5)
			if err != nil {
				panic("the header that carries the profile is refused: " + err.Error())
			}
		}
		a, err := h.GetDecodedICC()
		a = append([]byte{}, a...)
		b, err2 := h.GetDecodedICC()
		r.B, r.I = append([]byte{}, b...), []int{}
		r.Err = err != nil
		if err != nil {
			r.Msg = err.Error()
		}
		r.Nil = err2 != nil
		for _, v := range a {
			r.I = append(r.I, int(v))
		}
	}
	gens["C16"] = func(r *rand.Rand, n int, tier string, emit func(any)) {
		for n > 0 {
			k := n
			if k > 4000 {
				k = 4000
			}
			n -= k
			var jobs []*Job
			var ts []*ICCTrace
			for i := 0; i < k; i++ {
				b, kind := randICC(r)
				j := &Job{Op: "icc", Data: b}
				if r.Intn(4) == 0 {
					h := plainHdr(r, 3, 3)
					h.ICC, h.CE = b, nil
					w := &BW{}
					h.write(r, w)
					j.S, j.B = "header", w.b
					kind += " in a header"
				}
				jobs = append(jobs, j)
				ts = append(ts, &ICCTrace{Bytes: ints(b), Kind: kind})
			}
			for i, x := range runJobs(jobs) {
				t := ts[i]
				t.Pan, t.Err, t.Msg, t.Err2 = x.Pan, x.Err, x.Msg, x.Nil
				t.Out, t.Out2 = x.I, ints(x.B)
				if t.Out == nil {
					t.Out = []int{}
				}
				emit(t)
			}
		}
	}
}
