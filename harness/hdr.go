package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"

	"github.com/kpfaulkner/jxl-go/bundle"
	"github.com/kpfaulkner/jxl-go/colour"
	"github.com/kpfaulkner/jxl-go/jxlio"
)

// Depth is a sample format.
type Depth struct {
	Bits, Exp int
}

func (d Depth) write(r *rand.Rand, w *BW) {
	w.Bool(d.Exp > 0)
	if d.Exp > 0 {
		w.U32(r, int64(d.Bits), 32, 0, 16, 0, 24, 0, 1, 6)
		w.Put(uint64(d.Exp-1), 4)
	} else {
		w.U32(r, int64(d.Bits), 8, 0, 10, 0, 12, 0, 1, 6)
	}
}

// EC is an extra channel.
type EC struct {
	Type  int
	D     Depth
	Shift int
	Name  string
	Assoc bool
	Spot  [4]int // half float bits
	Cfa   int
}

func (e EC) write(r *rand.Rand, w *BW) {
	if e.Type == 0 && e.D == (Depth{8, 0}) && e.Shift == 0 && e.Name == "" && !e.Assoc && r.Intn(2) == 0 {
		w.Put(1, 1)
		return
	}
	w.Put(0, 1)
	w.Enum(r, e.Type)
	e.D.write(r, w)
	w.U32(r, int64(e.Shift), 0, 0, 3, 0, 4, 0, 1, 3)
	w.U32(r, int64(len(e.Name)), 0, 0, 0, 4, 16, 5, 48, 10)
	w.Bytes([]byte(e.Name))
	if e.Type == 0 {
		w.Bool(e.Assoc)
	}
	if e.Type == 2 {
		for _, s := range e.Spot {
			w.Put(uint64(s), 16)
		}
	}
	if e.Type == 5 {
		w.U32(r, int64(e.Cfa), 1, 0, 0, 2, 3, 4, 19, 8)
	}
}

// HdrP are the parameters of an image header.
type HdrP struct {
	W, H     int
	Ratio    int // 0: explicit width
	AllDef   bool
	Extra    bool
	Orient   int // 1..8
	Intr     *[2]int
	Prev     *[2]int
	PrevDiv8 bool
	Anim     bool
	D        Depth
	M16      bool
	ECs      []EC
	XYB      bool
	CE       func(r *rand.Rand, w *BW) // nil: default
	Gray     bool
	ICC      []byte // compressed ICC stream (nil: none)
	TM       func(r *rand.Rand, w *BW)
	Ext      func(r *rand.Rand, w *BW)
	TD       func(r *rand.Rand, w *BW)
	BadPad   bool
}

func writeSize(r *rand.Rand, w *BW, W, H, ratio int) {
	rw := func(h int) int {
		switch ratio {
		case 1:
			return h
		case 2:
			return h * 12 / 10
		case 3:
			return h * 4 / 3
		case 4:
			return h * 3 / 2
		case 5:
			return h * 16 / 9
		case 6:
			return h * 5 / 4
		case 7:
			return h * 2
		}
		return -1
	}
	if ratio > 0 && rw(H) != W {
		ratio = 0
	}
	div8 := H%8 == 0 && H <= 256 && (ratio > 0 || W%8 == 0 && W <= 256) && r.Intn(2) == 0
	w.Bool(div8)
	side := func(v int) {
		if div8 {
			w.Put(uint64(v/8-1), 5)
		} else {
			w.U32(r, int64(v), 1, 9, 1, 13, 1, 18, 1, 30)
		}
	}
	side(H)
	w.Put(uint64(ratio), 3)
	if ratio == 0 {
		side(W)
	}
}

func (p *HdrP) write(r *rand.Rand, w *BW) {
	w.Put(0x0aff, 16)
	writeSize(r, w, p.W, p.H, p.Ratio)
	w.Bool(p.AllDef)
	if !p.AllDef {
		w.Bool(p.Extra)
		if p.Extra {
			w.Put(uint64(p.Orient-1), 3)
			w.Bool(p.Intr != nil)
			if p.Intr != nil {
				writeSize(r, w, p.Intr[0], p.Intr[1], r.Intn(8))
			}
			w.Bool(p.Prev != nil)
			if p.Prev != nil {
				w.Bool(p.PrevDiv8)
				side := func(v int) {
					if p.PrevDiv8 {
						w.U32(r, int64(v), 16, 0, 32, 0, 1, 5, 33, 9)
					} else {
						w.U32(r, int64(v), 1, 6, 65, 8, 321, 10, 1345, 12)
					}
				}
				side(p.Prev[1])
				ra := 0
				if p.Prev[0] <= 0 {
					ra = -p.Prev[0]
				}
				w.Put(uint64(ra), 3)
				if ra == 0 {
					side(p.Prev[0])
				}
			}
			w.Bool(p.Anim)
			if p.Anim {
				w.U32(r, 100, 100, 0, 1000, 0, 1, 10, 1, 30)
				w.U32(r, 1, 1, 0, 1001, 0, 1, 8, 1, 10)
				w.U32(r, 0, 0, 0, 0, 3, 0, 16, 0, 32)
				w.Put(0, 1)
			}
		}
		p.D.write(r, w)
		w.Bool(p.M16)
		w.U32(r, int64(len(p.ECs)), 0, 0, 1, 0, 2, 4, 1, 12)
		for _, e := range p.ECs {
			e.write(r, w)
		}
		w.Bool(p.XYB)
		if p.CE != nil {
			p.CE(r, w)
		} else if p.Gray || p.ICC != nil {
			w.Put(0, 1)
			w.Bool(p.ICC != nil)
			if p.Gray {
				w.Enum(r, 1)
			} else {
				w.Enum(r, 0)
			}
			if p.ICC == nil {
				w.Enum(r, 1)
				if !p.Gray {
					w.Enum(r, 1)
				}
				w.Bool(false)
				w.Enum(r, 13)
				w.Enum(r, 1)
			}
		} else {
			w.Put(1, 1)
		}
		if p.Extra {
			if p.TM != nil {
				p.TM(r, w)
			} else {
				w.Put(1, 1)
			}
		}
		if p.Ext != nil {
			p.Ext(r, w)
		} else {
			w.U64(0)
		}
	}
	if p.TD != nil {
		p.TD(r, w)
	} else {
		w.Put(1, 1)
	}
	if p.ICC != nil {
		writeICC(r, w, p.ICC)
	}
	for w.n%8 != 0 {
		if p.BadPad {
			w.Put(1, 1)
		} else {
			w.Put(0, 1)
		}
	}
}

func iccCtx(s []byte) int {
	n := len(s)
	if n <= 128 {
		return 0
	}
	let := func(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
	dig := func(c byte) bool { return c >= '0' && c <= '9' || c == '.' || c == ',' }
	b1, b2 := s[n-1], s[n-2]
	var p1, p2 int
	switch {
	case let(b1):
	case dig(b1):
		p1 = 1
	case b1 <= 1:
		p1 = 2 + int(b1)
	case b1 < 16:
		p1 = 4
	case b1 > 240 && b1 < 255:
		p1 = 5
	case b1 == 255:
		p1 = 6
	default:
		p1 = 7
	}
	switch {
	case let(b2):
	case dig(b2):
		p2 = 1
	case b2 < 16:
		p2 = 2
	case b2 > 240:
		p2 = 3
	default:
		p2 = 4
	}
	return 1 + p1 + 8*p2
}

func writeICC(r *rand.Rand, w *BW, icc []byte) {
	w.U64(uint64(len(icc)))
	var st []Sym
	for i, b := range icc {
		st = append(st, Sym{iccCtx(icc[:i]), int64(b)})
	}
	c := NewCoder(r, 41, [][]Sym{st}, CoderOpts{MaxClusters: 6})
	w.Append(c.hdr)
	c.Write(w, 0)
}

// ---------------------------------------------------------------------------

func randDepth(r *rand.Rand, bad bool) Depth {
	if bad {
		if r.Intn(2) == 0 {
			return Depth{32 + r.Intn(33), 0}
		}
		return Depth{1 + r.Intn(64), 1 + r.Intn(16)}
	}
	if r.Intn(4) == 0 {
		e := 2 + r.Intn(7)
		m := 2 + r.Intn(22)
		return Depth{e + m + 1, e}
	}
	return Depth{[]int{1, 2, 4, 5, 8, 8, 10, 12, 16, 24, 31, 1 + r.Intn(31)}[r.Intn(12)], 0}
}

func randHalf(r *rand.Rand) int {
	for {
		h := r.Intn(65536)
		switch r.Intn(8) {
		case 0:
			h = r.Intn(1024)
		case 1:
			h = []int{0, 0x8000, 0x3c00, 0xbc00, 1, 0x8001, 0x7bff, 0x400, 0x3ff}[r.Intn(9)]
		}
		if h>>10&31 != 31 {
			return h
		}
	}
}

func randName(r *rand.Rand) string {
	n := []int{0, 0, 1, 5, 15, 16, 17, 47, 48, 49, 60}[r.Intn(11)]
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(32 + r.Intn(95))
	}
	return string(b)
}

func randHdr(r *rand.Rand) *HdrP {
	p := &HdrP{W: 1 + r.Intn(40), H: 1 + r.Intn(40), Orient: 1}
	switch r.Intn(12) {
	case 0:
		p.W, p.H = 8*(1+r.Intn(32)), 8*(1+r.Intn(32))
	case 1:
		p.W, p.H = 1+r.Intn(8192), 1+r.Intn(8192)
	case 2:
		p.W = 1 + r.Intn(1<<18)
		p.H = 1 + r.Intn((1<<28)/p.W)
		if p.H > 1<<18 {
			p.H = 1 << 18
		}
	case 3: // limits
		p.W, p.H = []int{1 << 18, 1<<18 + 1, 1 << 13, 1 << 20, 1 << 30, 1<<16 + 1}[r.Intn(6)], []int{1, 2, 1 << 18, 1<<18 + 1, 1 << 17, 1 << 13, 1 << 16, 1 << 30}[r.Intn(8)]
	case 4:
		p.W = []int{512, 513, 8192, 8193}[r.Intn(4)]
		p.H = []int{512, 513, 8192, 8193}[r.Intn(4)]
	}
	if r.Intn(3) == 0 {
		p.Ratio = 1 + r.Intn(7)
		if p.H < 100000 {
			p.W = []int{0, p.H, p.H * 12 / 10, p.H * 4 / 3, p.H * 3 / 2, p.H * 16 / 9, p.H * 5 / 4, p.H * 2}[p.Ratio]
		}
	}
	if r.Intn(8) == 0 {
		p.AllDef = true
		p.D, p.M16, p.XYB = Depth{8, 0}, true, true
	} else {
		p.Extra = r.Intn(2) == 0
		p.Orient = 1 + r.Intn(8)
		if r.Intn(6) == 0 {
			p.Intr = &[2]int{1 + r.Intn(300), 1 + r.Intn(300)}
		}
		if r.Intn(5) == 0 {
			p.PrevDiv8 = r.Intn(2) == 0
			hi := []int{10, 64, 300, 544, 1344, 4096, 5440}[r.Intn(7)]
			if p.PrevDiv8 {
				hi = []int{16, 32, 33, 300, 544}[r.Intn(5)]
			}
			p.Prev = &[2]int{1 + r.Intn(hi), 1 + r.Intn(hi)}
			if r.Intn(3) == 0 {
				p.Prev[0] = -(1 + r.Intn(7))
			}
		}
		p.Anim = r.Intn(25) == 0
		p.D = randDepth(r, r.Intn(25) == 0)
		p.M16 = r.Intn(2) == 0
		n := []int{0, 0, 1, 1, 2, 3, 5, 17}[r.Intn(8)]
		for i := 0; i < n; i++ {
			e := EC{Type: []int{0, 0, 1, 2, 3, 4, 5, 6, 16}[r.Intn(9)], D: Depth{8, 0}, Name: "", Cfa: 1}
			if r.Intn(40) == 0 {
				e.Type = r.Intn(64)
			}
			if r.Intn(3) > 0 {
				e.D = randDepth(r, r.Intn(60) == 0)
				e.Name = randName(r)
				e.Assoc = r.Intn(2) == 0
				if r.Intn(4) == 0 {
					e.Shift = []int{1, 2, 3, 3, 4}[r.Intn(5)]
				}
			}
			if e.Type == 2 {
				for j := range e.Spot {
					e.Spot[j] = randHalf(r)
					if r.Intn(60) == 0 {
						e.Spot[j] |= 0x7c00
					}
				}
			}
			if e.Type == 5 {
				e.Cfa = []int{0, 1, 2, 3, 10, 18, 19, 20, 274}[r.Intn(9)]
			}
			p.ECs = append(p.ECs, e)
		}
		p.XYB = r.Intn(2) == 0
		if r.Intn(6) == 0 {
			p.ICC = make([]byte, []int{0, 1, 20, 127, 128, 129, 130, 131, 200, 300}[r.Intn(10)])
			for i := range p.ICC {
				p.ICC[i] = []byte{0, 1, 2, 15, 16, 240, 241, 254, 255, 'a', 'z', 'A', 'Z', '0', '9', '.', ',', 100, byte(r.Intn(256)), byte(r.Intn(256))}[r.Intn(20)]
			}
			p.Gray = r.Intn(3) == 0
		} else if r.Intn(3) > 0 {
			p.CE = randCE
		}
		if r.Intn(2) == 0 {
			p.TM = func(r *rand.Rand, w *BW) {
				w.Put(0, 1)
				a, b := randHalf(r), randHalf(r)
				if r.Intn(8) > 0 {
					a &= 0x7fff
					b &= 0x7fff
					if a == 0 {
						a = 1
					}
					if a < b {
						a, b = b, a
					}
				}
				rel := r.Intn(2) == 0
				c := randHalf(r)
				if r.Intn(8) > 0 {
					c &= 0x7fff
					if rel {
						c %= 0x3c01
					}
				}
				w.Put(uint64(a), 16)
				w.Put(uint64(b), 16)
				w.Bool(rel)
				w.Put(uint64(c), 16)
			}
		}
		if r.Intn(4) == 0 {
			p.Ext = randExt
		}
	}
	if r.Intn(3) == 0 {
		p.TD = func(r *rand.Rand, w *BW) {
			w.Put(0, 1)
			h := func() {
				x := randHalf(r)
				if r.Intn(1500) == 0 {
					x |= 0x7c00
				}
				w.Put(uint64(x), 16)
			}
			if p.XYB {
				om := r.Intn(2) == 0
				w.Bool(!om)
				if om {
					for i := 0; i < 16; i++ {
						h()
					}
				}
			}
			m := r.Intn(8)
			w.Put(uint64(m), 3)
			if m&1 != 0 {
				for i := 0; i < 15; i++ {
					h()
				}
			}
			if m&2 != 0 {
				for i := 0; i < 55; i++ {
					h()
				}
			}
			if m&4 != 0 {
				for i := 0; i < 210; i++ {
					h()
				}
			}
		}
	}
	p.BadPad = r.Intn(40) == 0
	return p
}

func randExt(r *rand.Rand, w *BW) {
	key := uint64(0)
	for i := 0; i < 1+r.Intn(4); i++ {
		key |= 1 << uint(r.Intn(28))
	}
	w.U64(key)
	n := 0
	for i := 0; i < 64; i++ {
		if key>>uint(i)&1 == 1 {
			l := []int{0, 1, 7, 8, 9, 16, 40, r.Intn(100)}[r.Intn(8)]
			w.U64(uint64(l))
			n += l
		}
	}
	w.Random(r, n)
}

func randXY(r *rand.Rand, w *BW) {
	for i := 0; i < 2; i++ {
		v := []int64{0, 1, 2, 524287, 524288, 1048575, 1048576, 2097151, 2097152, 4194303, int64(r.Intn(1 << 20)), int64(r.Intn(1 << 22))}[r.Intn(12)]
		w.U32(r, v, 0, 19, 524288, 19, 1048576, 20, 2097152, 21)
	}
}

func randCE(r *rand.Rand, w *BW) {
	w.Put(0, 1)
	w.Put(0, 1)
	cs := r.Intn(2)
	if r.Intn(25) == 0 {
		cs = r.Intn(20)
	}
	w.Enum(r, cs)
	pick := func(ok []int) int {
		if r.Intn(30) == 0 {
			return r.Intn(64)
		}
		return ok[r.Intn(len(ok))]
	}
	if cs != 2 {
		wp := pick([]int{1, 2, 10, 11})
		w.Enum(r, wp)
		if wp == 2 {
			randXY(r, w)
		}
	}
	if cs != 1 && cs != 2 {
		pr := pick([]int{1, 2, 9, 11})
		w.Enum(r, pr)
		if pr == 2 {
			randXY(r, w)
			randXY(r, w)
			randXY(r, w)
		}
	}
	g := r.Intn(3) == 0
	w.Bool(g)
	if g {
		w.Put(uint64([]int{1221, 10000000, 10000001, 16777215, 4545455, 1221 + r.Intn(9990000)}[r.Intn(6)]), 24)
	} else {
		w.Enum(r, pick([]int{1, 8, 13, 16, 17, 18}))
	}
	w.Enum(r, pick([]int{0, 1, 2, 3}))
}

// ---------------------------------------------------------------------------

func f32(f float32) []int {
	b := math.Float32bits(f)
	return []int{int(b & 0xffff), int(b >> 16)}
}
func f32s(f []float32) [][]int {
	o := [][]int{}
	for _, x := range f {
		o = append(o, f32(x))
	}
	return o
}
func sameF(a, b []float32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type ecOut struct {
	Type  int     `json:"type"`
	Bits  int     `json:"bits"`
	Exp   int     `json:"exp"`
	Shift int     `json:"shift"`
	Name  []int   `json:"name"`
	Assoc bool    `json:"assoc"`
	Spot  [][]int `json:"spot"`
	Cfa   int     `json:"cfa"`
}

// HdrTrace is one image header parsed by the real code.
type HdrTrace struct {
	Bytes []int   `json:"bytes"`
	Kind  string  `json:"kind"`
	Level int     `json:"level"`
	Err   bool    `json:"err"`
	Pan   bool    `json:"pan"`
	Msg   string  `json:"msg"`
	P     int     `json:"p"`
	W     int     `json:"w"`
	H     int     `json:"h"`
	OW    int     `json:"ow"`
	OH    int     `json:"oh"`
	Or    int     `json:"orient"`
	Prev  []int   `json:"prev"`
	Bits  int     `json:"bits"`
	Exp   int     `json:"exp"`
	M16   bool    `json:"m16"`
	EC    []ecOut `json:"ec"`
	Alpha []int   `json:"alpha"`
	XYB   bool    `json:"xyb"`
	NCol  int     `json:"ncol"`
	NTot  int     `json:"ntot"`
	HasA  bool    `json:"hasa"`
	CE    ceOut   `json:"ce"`
	TM    tmOut   `json:"tm"`
	Ext   [][]any `json:"ext"`
	Opsin [][]int `json:"opsin"`
	Up2   [][]int `json:"up2"`
	Up4   [][]int `json:"up4"`
	Up8   [][]int `json:"up8"`
	ICC   []int   `json:"icc"`
}
type ceOut struct {
	ICC   bool  `json:"icc"`
	CS    int   `json:"cs"`
	WP    int   `json:"wp"`
	WXY   []int `json:"wxy"`
	Prim  int   `json:"prim"`
	PXY   []int `json:"pxy"`
	Gamma int   `json:"gamma"`
	TF    int   `json:"tf"`
	RI    int   `json:"ri"`
}
type tmOut struct {
	Target []int `json:"target"`
	Min    []int `json:"min"`
	Rel    bool  `json:"rel"`
	Below  []int `json:"below"`
}

func micro(x float32) int { return int(math.Round(float64(x) * 1e6)) }
func xyOut(p *colour.CIEXY) []int {
	if p == nil {
		return []int{}
	}
	return []int{micro(p.X), micro(p.Y)}
}

func runHdr(t *HdrTrace, b []byte) {
	defer func() {
		if e := recover(); e != nil {
			t.Pan = true
			t.Msg = fmt.Sprint("panic: ", e)
		}
	}()
	t.Prev, t.EC, t.Alpha, t.Ext, t.Opsin, t.Up2, t.Up4, t.Up8, t.ICC = []int{}, []ecOut{}, []int{}, [][]any{}, [][]int{}, [][]int{}, [][]int{}, [][]int{}, []int{}
	t.CE.WXY, t.CE.PXY, t.TM.Target, t.TM.Min, t.TM.Below = []int{}, []int{}, []int{}, []int{}, []int{}
	br := jxlio.NewBitStreamReader(bytes.NewReader(b))
	h, err := bundle.ParseImageHeader(br, int32(t.Level))
	if err != nil {
		t.Err = true
		t.Msg = err.Error()
		return
	}
	t.P = int(br.BitsRead())
	t.W, t.H, t.OW, t.OH, t.Or = int(h.Size.Width), int(h.Size.Height), int(h.OrientedWidth), int(h.OrientedHeight), int(h.Orientation)
	if s := h.GetSize(); int(s.Width) != t.W || int(s.Height) != t.H {
		t.W = -1
	}
	if h.PreviewSize != nil {
		t.Prev = []int{int(h.PreviewSize.Width), int(h.PreviewSize.Height)}
	}
	t.Bits, t.Exp = int(h.BitDepth.BitsPerSample), int(h.BitDepth.ExpBits)
	if h.BitDepth.UsesFloatSamples != (t.Exp > 0) {
		t.Exp = -1
	}
	t.M16, t.XYB = h.Modular16BitBuffers, h.XybEncoded
	for _, e := range h.ExtraChannelInfo {
		o := ecOut{Type: int(e.EcType), Bits: int(e.BitDepth.BitsPerSample), Exp: int(e.BitDepth.ExpBits), Shift: int(e.DimShift), Name: ints([]byte(e.Name)),
			Assoc: e.AlphaAssociated, Spot: f32s([]float32{e.Red, e.Green, e.Blue, e.Solidity}), Cfa: int(e.CfaIndex)}
		if e.BitDepth.UsesFloatSamples != (o.Exp > 0) {
			o.Exp = -1
		}
		t.EC = append(t.EC, o)
	}
	for _, a := range h.AlphaIndices {
		t.Alpha = append(t.Alpha, int(a))
	}
	t.NCol, t.NTot, t.HasA = h.GetColourChannelCount(), h.GetTotalChannelCount(), h.HasAlpha()
	c := h.ColourEncoding
	t.CE = ceOut{ICC: c.UseIccProfile, CS: int(c.ColourEncoding), WP: int(c.WhitePoint), WXY: xyOut(c.White), Prim: int(c.Primaries), PXY: []int{}, Gamma: -1, TF: -1, RI: int(c.RenderingIntent)}
	if c.Prim != nil {
		t.CE.PXY = append(append(xyOut(c.Prim.Red), xyOut(c.Prim.Green)...), xyOut(c.Prim.Blue)...)
	}
	if c.Tf >= 1<<24 {
		t.CE.TF = int(c.Tf) - 1<<24
	} else {
		t.CE.Gamma = int(c.Tf)
	}
	m := h.ToneMapping
	t.TM = tmOut{f32(m.IntensityTarget), f32(m.MinNits), m.RelativeToMaxDisplay, f32(m.LinearBelow)}
	for i := 0; i < 64; i++ {
		if h.Extensions.ExtensionsKey>>uint(i)&1 == 1 {
			t.Ext = append(t.Ext, []any{i, ints(h.Extensions.Payloads[i])})
		}
	}
	d := colour.NewOpsinInverseMatrix()
	om := h.OpsinInverseMatrix
	flat := func(m *colour.OpsinInverseMatrix) []float32 {
		var o []float32
		for _, x := range m.Matrix {
			o = append(o, x...)
		}
		o = append(o, m.OpsinBias...)
		o = append(o, m.QuantBias...)
		return append(o, m.QuantBiasNumerator)
	}
	if !sameF(flat(om), flat(d)) {
		t.Opsin = f32s(flat(om))
	}
	if !sameF(h.Up2Weights, bundle.DEFAULT_UP2) {
		t.Up2 = f32s(h.Up2Weights)
	}
	if !sameF(h.Up4Weights, bundle.DEFAULT_UP4) {
		t.Up4 = f32s(h.Up4Weights)
	}
	if !sameF(h.Up8Weights, bundle.DEFAULT_UP8) {
		t.Up8 = f32s(h.Up8Weights)
	}
	t.ICC = ints(h.EncodedICC)
}

// bigSize gives p sides around what level 10 allows.
func bigSize(r *rand.Rand, p *HdrP) {
	v := []int{1 << 28, 1<<28 - 1, 1<<28 + 1, 1<<28 / 16 * 9, 1<<28/16*9 + 1, 1 << 20, 1<<20 + 1, 1<<18 + 1, 1 << 12, 1<<12 + 1, 1 << 27, 1<<29 + 5, 1 + r.Intn(1<<28), 1 + r.Intn(1<<21)}
	p.W, p.H, p.Ratio = v[r.Intn(len(v))], v[r.Intn(len(v))], 0
	if r.Intn(2) == 0 {
		p.W = 1<<40/p.H + r.Intn(2)
	}
	if r.Intn(2) == 0 {
		p.Ratio = 1 + r.Intn(7)
		p.W = []int{0, p.H, p.H * 12 / 10, p.H * 4 / 3, p.H * 3 / 2, p.H * 16 / 9, p.H * 5 / 4, p.H * 2}[p.Ratio]
	}
}

func init() {
	gens["C04"] = func(r *rand.Rand, n int, tier string, emit func(any)) {
		for i := 0; i < n; i++ {
			p := randHdr(r)
			t := &HdrTrace{Kind: "valid", Level: 5}
			if r.Intn(4) == 0 {
				t.Level = 10
				if r.Intn(3) == 0 {
					bigSize(r, p)
				}
			}
			w := &BW{}
			p.write(r, w)
			b := w.b
			switch r.Intn(10) {
			case 0:
				for k := 0; k < 1+r.Intn(2); k++ {
					q := r.Intn(len(b) * 8)
					b[q/8] ^= 1 << uint(q%8)
				}
				t.Kind = "flip"
			case 1:
				b = b[:r.Intn(len(b)+1)]
				t.Kind = "cut"
			case 2:
				q := 16 + r.Intn(30)
				for ; q < len(b)*8; q++ {
					b[q/8] &^= 1 << uint(q%8)
					b[q/8] |= byte(r.Intn(2)) << uint(q%8)
				}
				t.Kind = "random"
			}
			if t.Kind != "cut" {
				for j := r.Intn(40); j > 0; j-- {
					b = append(b, byte(r.Intn(256)))
				}
			}
			t.Bytes = ints(b)
			runHdr(t, b)
			emit(t)
		}
	}
}
