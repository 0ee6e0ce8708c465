package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"

	"github.com/kpfaulkner/jxl-go/bundle"
	"github.com/kpfaulkner/jxl-go/frame"
	"github.com/kpfaulkner/jxl-go/jxlio"
	"github.com/kpfaulkner/jxl-go/options"
)

// Blend is a blending description.
type Blend struct {
	Mode, Alpha int
	Clamp       bool
	Src         int
}

func (b Blend) write(r *rand.Rand, w *BW, nec int, partial bool) {
	w.U32(r, int64(b.Mode), 0, 0, 1, 0, 2, 0, 3, 2)
	wa := nec > 0 && (b.Mode == 2 || b.Mode == 3)
	if wa {
		w.U32(r, int64(b.Alpha), 0, 0, 1, 0, 2, 0, 3, 3)
	}
	if wa || b.Mode == 4 {
		w.Bool(b.Clamp)
	}
	if b.Mode != 0 || partial {
		w.Put(uint64(b.Src), 2)
	}
}

// FHdr are the parameters of a frame header.
type FHdr struct {
	AllDef     bool
	Type       int
	Mod        bool
	Flags      uint64
	YCC        bool
	Jpeg       [3]int
	Ups        int // log2
	ECUps      []int
	ECSh       []int // shifts of the extra channels in the image header, where the frame is written with its data
	GShift     int
	Xqm, Bqm   int
	NP         int
	PShift     []int
	DS         []int // log2
	Last       []int
	LfLevel    int
	Crop       bool
	X0, Y0     int
	W, H       int
	Bl         Blend
	ECBl       []Blend
	IsLast     bool
	Save       int
	SBCT       bool
	Name       string
	RF         func(r *rand.Rand, w *BW, mod bool)
	Ext        func(r *rand.Rand, w *BW)
	XYB        bool
	ImgW, ImgH int
	Anim       bool
	Dur        int
}

func (f *FHdr) partial() bool {
	return f.normal() && f.Crop && (f.X0 > 0 || f.Y0 > 0 || f.W+f.X0 < f.ImgW || f.H+f.Y0 < f.ImgH)
}
func (f *FHdr) normal() bool { return f.Type == 0 || f.Type == 3 }

func zig(v int) int64 {
	if v >= 0 {
		return int64(v) * 2
	}
	return int64(-v)*2 - 1
}

var cropTab = []int64{0, 8, 256, 11, 2304, 14, 18688, 30}

func (f *FHdr) write(r *rand.Rand, w *BW) {
	w.Bool(f.AllDef)
	if f.AllDef {
		return
	}
	w.Put(uint64(f.Type), 2)
	w.Bool(f.Mod)
	w.U64(f.Flags)
	if !f.XYB {
		w.Bool(f.YCC)
	}
	lf := f.Flags&32 != 0
	if f.YCC && !f.XYB && !lf {
		for _, j := range f.Jpeg {
			w.Put(uint64(j), 2)
		}
	}
	if !lf {
		w.Put(uint64(f.Ups), 2)
		for _, e := range f.ECUps {
			w.Put(uint64(e), 2)
		}
	}
	if f.Mod {
		w.Put(uint64(f.GShift), 2)
	} else if f.XYB {
		w.Put(uint64(f.Xqm), 3)
		w.Put(uint64(f.Bqm), 3)
	}
	if f.Type != 2 {
		w.U32(r, int64(f.NP), 1, 0, 2, 0, 3, 0, 4, 3)
		if f.NP != 1 {
			w.U32(r, int64(len(f.DS)), 0, 0, 1, 0, 2, 0, 3, 1)
			for i := 0; i < f.NP-1; i++ {
				w.Put(uint64(f.PShift[i]), 2)
			}
			for _, d := range f.DS {
				w.Put(uint64(d), 2)
			}
			for _, l := range f.Last {
				w.U32(r, int64(l), 0, 0, 1, 0, 2, 0, 0, 3)
			}
		}
	}
	if f.Type == 1 {
		w.Put(uint64(f.LfLevel-1), 2)
	} else {
		w.Bool(f.Crop)
		if f.Crop {
			if f.Type != 2 {
				w.U32(r, zig(f.X0), cropTab...)
				w.U32(r, zig(f.Y0), cropTab...)
			}
			w.U32(r, int64(f.W), cropTab...)
			w.U32(r, int64(f.H), cropTab...)
		}
	}
	if f.normal() {
		f.Bl.write(r, w, len(f.ECBl), f.partial())
		for _, e := range f.ECBl {
			e.write(r, w, len(f.ECBl), f.partial())
		}
		if f.Anim {
			w.U32(r, int64(f.Dur), 0, 0, 1, 0, 0, 8, 0, 32)
		}
		w.Bool(f.IsLast)
	}
	if f.Type != 1 && !(f.normal() && f.IsLast) {
		w.Put(uint64(f.Save), 2)
	}
	if f.Type == 2 || f.normal() && !f.partial() && !f.IsLast && f.Bl.Mode == 0 {
		w.Bool(f.SBCT)
	}
	w.U32(r, int64(len(f.Name)), 0, 0, 0, 4, 16, 5, 48, 10)
	w.Bytes([]byte(f.Name))
	if f.RF != nil {
		f.RF(r, w, f.Mod)
	} else { // no filters
		w.Put(0, 1)
		w.Put(0, 1)
		w.Put(0, 2)
		w.U64(0)
	}
	if f.Ext != nil {
		f.Ext(r, w)
	} else {
		w.U64(0)
	}
}

func randRF(r *rand.Rand, w *BW, mod bool) {
	if r.Intn(4) == 0 {
		w.Put(1, 1)
		return
	}
	h := func(n int) {
		for i := 0; i < n; i++ {
			x := randHalf(r)
			if r.Intn(100) == 0 {
				x |= 0x7c00
			}
			w.Put(uint64(x), 16)
		}
	}
	w.Put(0, 1)
	g := r.Intn(2) == 0
	w.Bool(g)
	if g {
		c := r.Intn(3) == 0
		w.Bool(c)
		if c {
			for i := 0; i < 6; i++ {
				w.Put(uint64(r.Intn(0x3c00)), 16)
			}
		}
	}
	it := r.Intn(4)
	if r.Intn(6) > 0 {
		it = 0
	}
	w.Put(uint64(it), 2)
	if it > 0 {
		if !mod {
			c := r.Intn(2) == 0
			w.Bool(c)
			if c {
				h(8)
			}
		}
		c := r.Intn(2) == 0
		w.Bool(c)
		if c {
			h(5)
		}
		c = r.Intn(2) == 0
		w.Bool(c)
		if c {
			if !mod {
				h(1)
			}
			h(3)
		}
		if mod {
			w.Put(uint64(64+r.Intn(0x7b00)), 16)
		}
	}
	if r.Intn(6) == 0 {
		randExt(r, w)
	} else {
		w.U64(0)
	}
}

func randBlend(r *rand.Rand, nec int, odd bool) Blend {
	b := Blend{Mode: r.Intn(5), Clamp: r.Intn(2) == 0, Src: r.Intn(4)}
	if odd && r.Intn(4) == 0 {
		b.Mode = r.Intn(7)
	}
	if nec > 0 {
		b.Alpha = r.Intn(nec)
	}
	if odd && r.Intn(3) == 0 {
		b.Alpha = r.Intn(11)
	}
	if b.Alpha > 10 {
		b.Alpha = 10
	}
	return b
}

func randFHdr(r *rand.Rand, h *HdrP) *FHdr {
	f := &FHdr{XYB: h.XYB, ImgW: h.W, ImgH: h.H, W: h.W, H: h.H, NP: 1, LfLevel: 1 + r.Intn(4)}
	odd := r.Intn(6) == 0
	if r.Intn(25) == 0 {
		f.AllDef = true
		return f
	}
	f.Type = []int{0, 0, 0, 0, 1, 2, 3, 3}[r.Intn(8)]
	f.Mod = r.Intn(2) == 0
	f.Flags = []uint64{0, 0, 0, 128, 32, 1, 2, 16, uint64(r.Intn(300)), uint64(r.Intn(1 << 20))}[r.Intn(10)]
	f.YCC = r.Intn(3) == 0
	if r.Intn(2) == 0 {
		for i := range f.Jpeg {
			f.Jpeg[i] = r.Intn(4)
		}
	}
	if r.Intn(3) == 0 {
		f.Ups = r.Intn(4)
	}
	for _, e := range h.ECs {
		u := f.Ups - e.Shift
		if u < 0 {
			u = 0
		}
		if r.Intn(3) == 0 && e.Shift < 3 {
			u += r.Intn(4 - u)
		}
		if u+e.Shift > 3 && !odd {
			u = 3 - e.Shift
		}
		if odd && r.Intn(3) == 0 {
			u = r.Intn(4)
		}
		f.ECUps = append(f.ECUps, u&3)
	}
	f.GShift = r.Intn(4)
	f.Xqm, f.Bqm = r.Intn(8), r.Intn(8)
	if r.Intn(2) == 0 {
		f.NP = 2 + r.Intn(10)
		for i := 0; i < f.NP-1; i++ {
			f.PShift = append(f.PShift, r.Intn(4))
		}
		nd := r.Intn(5)
		if nd > f.NP && !odd {
			nd = f.NP
		}
		if nd > 4 {
			nd = 4
		}
		d := 3
		l := 0
		for i := 0; i < nd; i++ {
			rest := nd - i - 1
			if odd && r.Intn(3) == 0 {
				f.DS = append(f.DS, r.Intn(4))
				f.Last = append(f.Last, r.Intn(8))
				continue
			}
			if d-rest < 0 || f.NP-1-rest < l || l > 7-rest {
				break
			}
			dd := d - r.Intn(d-rest+1)
			hi := f.NP - 1 - rest
			if hi > 7-rest {
				hi = 7 - rest
			}
			ll := l + r.Intn(hi-l+1)
			f.DS = append(f.DS, dd)
			f.Last = append(f.Last, ll)
			d, l = dd-1, ll+1
		}
	}
	f.Crop = r.Intn(2) == 0
	if f.Crop {
		big := []int{20, 300, 3000, 20000, 1 << 20}[r.Intn(5)]
		f.X0, f.Y0 = r.Intn(big)-big/2, r.Intn(big)-big/2
		f.W, f.H = 1+r.Intn(big), 1+r.Intn(big)
		switch r.Intn(6) {
		case 0:
			f.X0, f.Y0, f.W, f.H = 0, 0, h.W, h.H
		case 1: // covers the image
			f.X0, f.Y0 = -r.Intn(5), -r.Intn(5)
			f.W, f.H = h.W-f.X0+r.Intn(3), h.H-f.Y0+r.Intn(3)
		case 2: // one sample short
			f.X0, f.Y0 = -r.Intn(5), -r.Intn(5)
			f.W, f.H = h.W-f.X0-r.Intn(2), h.H-f.Y0-r.Intn(2)
		}
		if odd && r.Intn(4) == 0 {
			f.W = 0
		}
		if f.W < 0 {
			f.W = 1
		}
		if f.H < 0 {
			f.H = 1
		}
		if f.Type == 2 {
			f.X0, f.Y0 = 0, 0
			if r.Intn(2) == 0 {
				f.W, f.H = h.W+r.Intn(3), h.H+r.Intn(3)
			}
		}
	}
	nec := len(h.ECs)
	f.Bl = randBlend(r, nec, odd)
	for i := 0; i < nec; i++ {
		f.ECBl = append(f.ECBl, randBlend(r, nec, odd))
	}
	f.IsLast = r.Intn(2) == 0
	f.Save = r.Intn(4)
	f.SBCT = r.Intn(2) == 0
	if f.Type == 2 && (f.Crop && (f.W < h.W || f.H < h.H)) && !odd {
		f.SBCT = true
	}
	f.Name = randName(r)
	f.RF = randRF
	if r.Intn(6) == 0 {
		f.Ext = randExt
	}
	return f
}

func writeToc(r *rand.Rand, w *BW, sizes []int, perm []int) {
	w.Bool(perm != nil)
	if perm != nil {
		n := len(perm)
		// Lehmer code
		rest := make([]int, n)
		for i := range rest {
			rest[i] = i
		}
		l := make([]int, n)
		for i, p := range perm {
			for k, x := range rest {
				if x == p {
					l[i] = k
					rest = append(rest[:k:k], rest[k+1:]...)
					break
				}
			}
		}
		end := n
		for end > 0 && l[end-1] == 0 && r.Intn(8) > 0 {
			end--
		}
		ctx := func(x int) int {
			c := ceilLog2(x + 1)
			if c > 7 {
				c = 7
			}
			return c
		}
		st := []Sym{{ctx(n), int64(end)}}
		prev := 0
		for i := 0; i < end; i++ {
			st = append(st, Sym{ctx(prev), int64(l[i])})
			prev = l[i]
		}
		c := NewCoder(r, 8, [][]Sym{st}, CoderOpts{})
		w.Append(c.hdr)
		c.Write(w, 0)
	}
	w.Align()
	for _, s := range sizes {
		w.U32(r, int64(s), 0, 10, 1024, 14, 17408, 22, 4211712, 30)
	}
	w.Align()
}

// ---------------------------------------------------------------------------

type blOut struct {
	Mode  int  `json:"mode"`
	Alpha int  `json:"alpha"`
	Clamp bool `json:"clamp"`
	Src   int  `json:"src"`
}
type fhOut struct {
	Type  int     `json:"type"`
	Enc   int     `json:"enc"`
	Flags int     `json:"flags"`
	YCC   bool    `json:"ycc"`
	Ups   int     `json:"ups"`
	ECUps []int   `json:"ecups"`
	LF    int     `json:"lf"`
	X0    int     `json:"x0"`
	Y0    int     `json:"y0"`
	BW    int     `json:"bw"`
	BH    int     `json:"bh"`
	W     int     `json:"w"`
	H     int     `json:"h"`
	Bl    blOut   `json:"bl"`
	ECBl  []blOut `json:"ecbl"`
	Last  bool    `json:"last"`
	Save  int     `json:"save"`
	SBCT  bool    `json:"sbct"`
	// fields that are not exported: sequences of at most one element, empty when not found
	Group []int   `json:"group"`
	Qm    []int   `json:"qm"`   // x, b
	Name  [][]int `json:"name"` // <<bytes>>
	Jpeg  []int   `json:"jpeg"` // x0 x1 x2 y0 y1 y2
	Pass  [][]int `json:"pass"` // n, shifts, downsamples, last passes
	Gab   []bool  `json:"gab"`
	Epf   []int   `json:"epf"`
	Gw    [][]int `json:"gw"`
	ChS   [][]int `json:"chs"`
	Smod  [][]int `json:"smod"`
	Sig   [][]int `json:"sig"` // quant multiplier, pass0, pass2, border
	Sizes [][]int `json:"sizes"`
	Perm  [][]int `json:"perm"`
}

// FhTrace is one frame header and table of contents read by the real code.
type FhTrace struct {
	Img  []int `json:"img"` // image header bytes
	P0   int   `json:"p0"`  // bit position of the frame header in bytes
	Byte []int `json:"bytes"`
	Kind string
	Err  bool   `json:"err"`
	Pan  bool   `json:"pan"`
	Msg  string `json:"msg"`
	P    int    `json:"p"`
	TErr bool   `json:"terr"`
	TPan bool   `json:"tpan"`
	TMsg string `json:"tmsg"`
	NoT  bool   `json:"not"` // table not read
	TP   int    `json:"tp"`
	F    fhOut  `json:"f"`
}

// field reads an unexported field; ok is false when there is none of that name.
func field(v reflect.Value, name string) (reflect.Value, bool) {
	for v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return reflect.Value{}, false
		}
		v = v.Elem()
	}
	f := v.FieldByName(name)
	return f, f.IsValid()
}
func numOf(v reflect.Value) (int, bool) {
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return int(v.Int()), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return int(v.Uint()), true
	}
	return 0, false
}
func getNum(v reflect.Value, name string) []int {
	if f, ok := field(v, name); ok {
		if n, ok := numOf(f); ok {
			return []int{n}
		}
	}
	return []int{}
}
func getNums(v reflect.Value, name string) ([]int, bool) {
	f, ok := field(v, name)
	if !ok || f.Kind() != reflect.Slice && f.Kind() != reflect.Array {
		return nil, false
	}
	o := []int{}
	for i := 0; i < f.Len(); i++ {
		n, ok := numOf(f.Index(i))
		if !ok {
			return nil, false
		}
		o = append(o, n)
	}
	return o, true
}
func getFs(v reflect.Value, names ...string) [][]int {
	o := [][]int{}
	for _, n := range names {
		f, ok := field(v, n)
		if !ok {
			return [][]int{}
		}
		switch f.Kind() {
		case reflect.Float32:
			o = append(o, f32(float32(f.Float())))
		case reflect.Slice, reflect.Array:
			for i := 0; i < f.Len(); i++ {
				if f.Index(i).Kind() != reflect.Float32 {
					return [][]int{}
				}
				o = append(o, f32(float32(f.Index(i).Float())))
			}
		}
	}
	return o
}

func outFrameHeader(h *frame.FrameHeader) fhOut {
	bl := func(b frame.BlendingInfo) blOut {
		return blOut{int(b.Mode), int(b.AlphaChannel), b.Clamp, int(b.Source)}
	}
	o := fhOut{Type: int(h.FrameType), Enc: int(h.Encoding), Flags: int(h.Flags), YCC: h.DoYCbCr, Ups: int(h.Upsampling), LF: int(h.LfLevel),
		X0: int(h.Bounds.Origin.X), Y0: int(h.Bounds.Origin.Y), BW: int(h.Bounds.Size.Width), BH: int(h.Bounds.Size.Height), W: int(h.Width), H: int(h.Height),
		Last: h.IsLast, Save: int(h.SaveAsReference), SBCT: h.SaveBeforeCT, ECUps: []int{}, ECBl: []blOut{},
		Group: []int{}, Qm: []int{}, Name: [][]int{}, Jpeg: []int{}, Pass: [][]int{}, Gab: []bool{}, Epf: []int{}, ChS: [][]int{}, Gw: [][]int{}, Smod: [][]int{}, Sig: [][]int{}, Sizes: [][]int{}, Perm: [][]int{}}
	for _, e := range h.EcUpsampling {
		o.ECUps = append(o.ECUps, int(e))
	}
	if h.BlendingInfo != nil {
		o.Bl = bl(*h.BlendingInfo)
	}
	for _, e := range h.EcBlendingInfo {
		o.ECBl = append(o.ECBl, bl(e))
	}
	v := reflect.ValueOf(h)
	o.Group = getNum(v, "groupDim")
	x, b := getNum(v, "xqmScale"), getNum(v, "bqmScale")
	o.Qm = append(x, b...)
	if f, ok := field(v, "name"); ok && f.Kind() == reflect.String {
		o.Name = [][]int{ints([]byte(f.String()))}
	}
	jx, ok1 := getNums(v, "jpegUpsamplingX")
	jy, ok2 := getNums(v, "jpegUpsamplingY")
	if ok1 && ok2 {
		o.Jpeg = append(jx, jy...)
	}
	if p, ok := field(v, "passes"); ok {
		n := getNum(p, "numPasses")
		nd := getNum(p, "numDS")
		sh, ok1 := getNums(p, "shift")
		ds, ok2 := getNums(p, "downSample")
		lp, ok3 := getNums(p, "lastPass")
		if len(n) > 0 && len(nd) > 0 && ok1 && ok2 && ok3 {
			cut := func(a []int, k int) []int {
				if len(a) > k {
					return a[:k]
				}
				return a
			}
			o.Pass = [][]int{n, cut(sh, n[0]-1), cut(ds, nd[0]), cut(lp, nd[0])}
		}
	}
	if rf, ok := field(v, "restorationFilter"); ok {
		if g, ok := field(rf, "gab"); ok && g.Kind() == reflect.Bool {
			o.Gab = []bool{g.Bool()}
		}
		o.Epf = getNum(rf, "epfIterations")
		o.Gw = getFs(rf, "gab1Weights", "gab2Weights")
		o.ChS = getFs(rf, "epfChannelScale")
		o.Smod = getFs(rf, "epfSigmaForModular")
		o.Sig = getFs(rf, "epfQuantMul", "epfPass0SigmaScale", "epfPass2SigmaScale", "epfBorderSadMul")
	}
	return o
}

func runFh(t *FhTrace, img, b []byte, off int) {
	ih, err := bundle.ParseImageHeader(jxlio.NewBitStreamReader(bytes.NewReader(img)), 5)
	if err != nil {
		panic("image header refused: " + err.Error())
	}
	br := jxlio.NewBitStreamReader(bytes.NewReader(b))
	br.SkipBits(uint32(8 * off))
	f := frame.NewFrameWithReader(br, ih, options.NewJXLOptions(nil))
	t.F = fhOut{ECUps: []int{}, ECBl: []blOut{}, Group: []int{}, Qm: []int{}, Name: [][]int{}, Jpeg: []int{}, Pass: [][]int{}, Gab: []bool{}, Epf: []int{}, ChS: [][]int{}, Gw: [][]int{}, Smod: [][]int{}, Sig: [][]int{}, Sizes: [][]int{}, Perm: [][]int{}}
	func() {
		defer func() {
			if e := recover(); e != nil {
				t.Pan = true
				t.Msg = fmt.Sprint("panic: ", e)
			}
		}()
		h, err := f.ReadFrameHeader()
		if err != nil {
			t.Err = true
			t.Msg = err.Error()
			return
		}
		t.P = int(br.BitsRead())
		t.F = outFrameHeader(&h)
	}()
	if t.Err || t.Pan {
		return
	}
	if t.F.BW > 20000 || t.F.BH > 20000 || t.F.BW*t.F.BH > 1<<24 {
		t.NoT = true
		return
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				t.TPan = true
				t.TMsg = fmt.Sprint("panic: ", e)
			}
		}()
		if err := f.ReadTOC(); err != nil {
			t.TErr = true
			t.TMsg = err.Error()
			return
		}
		t.TP = int(br.BitsRead())
		v := reflect.ValueOf(f)
		if s, ok := getNums(v, "tocLengths"); ok {
			t.F.Sizes = [][]int{s}
		}
		if s, ok := getNums(v, "tocPermutation"); ok {
			t.F.Perm = [][]int{s}
		}
	}()
}

// simpleHdr is an image header with the parts the frame header depends on.
func simpleHdr(r *rand.Rand) *HdrP {
	p := &HdrP{W: 1 + r.Intn(40), H: 1 + r.Intn(40), Orient: 1, D: Depth{8, 0}, XYB: r.Intn(3) == 0, Gray: r.Intn(4) == 0}
	if r.Intn(3) == 0 {
		p.W, p.H = 1+r.Intn(700), 1+r.Intn(700)
	}
	for i := r.Intn(4); i > 0; i-- {
		e := EC{Type: []int{0, 1, 4}[r.Intn(3)], D: Depth{8, 0}}
		if r.Intn(5) == 0 {
			e.Shift = r.Intn(4)
		}
		p.ECs = append(p.ECs, e)
	}
	return p
}

func init() {
	gens["C05"] = func(r *rand.Rand, n int, tier string, emit func(any)) {
		for i := 0; i < n; i++ {
			h := simpleHdr(r)
			hw := &BW{}
			h.write(r, hw)
			f := randFHdr(r, h)
			t := &FhTrace{Kind: "valid"}
			w := &BW{}
			off := r.Intn(3)
			w.Random(r, 8*off)
			f.write(r, w)
			hend := w.n
			cd := func(a, b int) int { return (a + b - 1) / b }
			gd := 128 << uint(f.GShift)
			if !f.Mod {
				gd = 256
			}
			fw, fh := f.W, f.H
			if f.AllDef {
				gd = 256
			}
			if f.Type == 1 {
				fw, fh = cd(fw, 1<<uint(3*f.LfLevel)), cd(fh, 1<<uint(3*f.LfLevel))
			}
			if f.Flags&32 == 0 {
				fw, fh = cd(fw, 1<<uint(f.Ups)), cd(fh, 1<<uint(f.Ups))
			}
			ng := cd(fw, gd) * cd(fh, gd)
			np := f.NP
			if f.Type == 2 || f.AllDef {
				np = 1
			}
			nt := 2 + cd(fw, 8*gd)*cd(fh, 8*gd) + ng*np
			if ng == 1 && np == 1 {
				nt = 1
			}
			if nt <= 300 {
				sizes := make([]int, nt)
				for k := range sizes {
					sizes[k] = []int{0, r.Intn(1024), 1024 + r.Intn(16384), 17408 + r.Intn(1<<22), 4211712 + r.Intn(1<<24)}[r.Intn(5)]
				}
				var perm []int
				if r.Intn(2) == 0 {
					perm = r.Perm(nt)
					if r.Intn(3) == 0 {
						for k := range perm {
							perm[k] = k
						}
						for k := r.Intn(4); k > 0; k-- {
							a, b := r.Intn(nt), r.Intn(nt)
							perm[a], perm[b] = perm[b], perm[a]
						}
					}
				}
				writeToc(r, w, sizes, perm)
			} else {
				w.Random(r, 200)
			}
			end := w.n
			b := w.b
			switch r.Intn(12) {
			case 0:
				q := 8*off + r.Intn(end-8*off)
				if r.Intn(2) == 0 {
					q = 8*off + r.Intn(hend-8*off)
				}
				b[q/8] ^= 1 << uint(q%8)
				t.Kind = "flip"
			case 1:
				b = b[:off+r.Intn(len(b)-off+1)]
				t.Kind = "cut"
			case 2:
				for q := 8*off + r.Intn(20); q < len(b)*8; q++ {
					b[q/8] &^= 1 << uint(q%8)
					b[q/8] |= byte(r.Intn(2)) << uint(q%8)
				}
				t.Kind = "random"
			}
			if t.Kind != "cut" {
				for j := r.Intn(40); j > 0; j-- {
					b = append(b, byte(r.Intn(256)))
				}
			}
			t.Img, t.Byte, t.P0 = ints(hw.b), ints(b), 8*off
			runFh(t, hw.b, b, off)
			emit(t)
		}
	}
}

// subsampling says how many times each colour is halved across and down
func (f *FHdr) subsampling() (hs, vs [3]uint) {
	for c, m := range f.Jpeg {
		hs[c], vs[c] = []uint{0, 1, 1, 0}[m], []uint{0, 1, 0, 1}[m]
	}
	mh, mv := max(hs[0], hs[1], hs[2]), max(vs[0], vs[1], vs[2])
	for c := range hs {
		hs[c], vs[c] = mh-hs[c], mv-vs[c]
	}
	return
}

// colour is the channel of colour c of a modular frame
func (f *FHdr) colour(c int) Chan {
	if f.Jpeg == [3]int{} {
		return Chan{f.cw(), f.ch(), 0, 0}
	}
	hs, vs := f.subsampling()
	return Chan{cdiv(f.cw(), 1<<hs[c]), cdiv(f.ch(), 1<<vs[c]), int(hs[c]), int(vs[c])}
}
