package main

import (
	"math/rand"
)

// FrameOpts describes the modular frame to generate.
type FrameOpts struct {
	F      *FHdr
	Xf     XfOpts
	TreeSz int
	Style  int // -1 random
	WP     bool
	Perm   bool
	Val    func(ch, x, y int) int // fixed samples: plain tree, no transforms
	VStyle int
	NoGlob bool         // never use a global tree
	Pre    func(b *BW)  // at the start of LfGlobal
	Used   map[int]bool // out: sections somebody needs
	Steps  bool         // steps of the low frequencies near those of the standard
	Cut    map[int]int  // bytes missing at the end of a section
}

func cdiv(a, b int) int { return (a + b - 1) / b }

// size of a frame as coded
func (f *FHdr) cw() int { return cdiv(cdiv(f.W, 1<<uint(3*f.lf())), 1<<uint(f.Ups)) }
func (f *FHdr) ch() int { return cdiv(cdiv(f.H, 1<<uint(3*f.lf())), 1<<uint(f.Ups)) }

// lf is the level of an LF frame, 0 for others
func (f *FHdr) lf() int {
	if f.Type == 1 {
		return f.LfLevel
	}
	return 0
}

// ex is extra channel i as coded
func (f *FHdr) ex(i int) Chan {
	s := f.ECUps[i] - f.Ups
	if len(f.ECSh) > 0 {
		s += f.ECSh[i]
	}
	return Chan{cdiv(f.cw(), 1<<uint(s)), cdiv(f.ch(), 1<<uint(s)), s, s}
}

// geometry of a frame
type geom struct{ gd, gx, gy, lx, ly, n, nl int }

func (f *FHdr) geom() geom {
	gd := 128 << uint(f.GShift)
	g := geom{gd: gd, gx: cdiv(f.cw(), gd), gy: cdiv(f.ch(), gd), lx: cdiv(f.cw(), 8*gd), ly: cdiv(f.ch(), 8*gd)}
	g.n, g.nl = g.gx*g.gy, g.lx*g.ly
	return g
}

func (f *FHdr) passes() int {
	if f.Type == 2 {
		return 1
	}
	return f.NP
}

// bracket of pass p
func (f *FHdr) bracket(p int) (int, int) {
	mx, mn := 2, 3
	for i := 0; ; i++ {
		for j := range f.DS {
			if f.Type != 2 && f.Last[j] == i {
				mn = f.DS[j]
			}
		}
		if i == f.passes()-1 {
			mn = 0
		}
		if i == p {
			return mn, mx
		}
		mx = mn - 1
	}
}

func sub0(r *rand.Rand, chs []Chan, sid int, o *FrameOpts) *Sub {
	s := &Sub{Chs0: chs, Chs: chs, SID: sid, Style: o.VStyle, Val: o.Val}
	if o.VStyle < 0 {
		s.Style = r.Intn(6)
		if s.Style == 5 {
			s.Style = r.Intn(5)
		}
	}
	if o.Val == nil {
		s.Xfs, s.Chs, s.Meta = randXfs(r, chs, o.Xf)
	}
	return s
}

// writeFrame appends a whole modular frame.
func writeFrame(r *rand.Rand, w *BW, nc, nec int, o *FrameOpts) {
	f := o.F
	g := f.geom()
	var chs []Chan
	for i := 0; i < nc+nec; i++ {
		if i < nc {
			chs = append(chs, f.colour(i))
		} else {
			chs = append(chs, f.ex(i-nc))
		}
	}
	multi := g.n > 1 || f.passes() > 1
	gs := sub0(r, chs, 0, o)
	gs.MaxDim = g.gd
	subs := map[int]*Sub{0: gs} // by section
	nsec := 1
	if multi {
		nsec = 2 + g.nl + g.n*f.passes()
		left := gs.left()
		cut := func(x0, y0, w, h, lo, hi int) []Chan {
			var l []Chan
			for _, i := range left {
				c := gs.Chs[i]
				m := c.HS
				if c.VS < m {
					m = c.VS
				}
				if m < lo || m > hi {
					continue
				}
				cw, ch := w>>uint(c.HS), h>>uint(c.VS)
				cx, cy := x0>>uint(c.HS), y0>>uint(c.VS)
				if cx+cw > c.W {
					cw = c.W - cx
				}
				if cy+ch > c.H {
					ch = c.H - cy
				}
				if cw > 0 && ch > 0 {
					l = append(l, Chan{cw, ch, c.HS, c.VS})
				}
			}
			return l
		}
		for k := 0; k < g.nl; k++ {
			l := cut(k%g.lx*8*g.gd, k/g.lx*8*g.gd, 8*g.gd, 8*g.gd, 3, 1000)
			if len(l) > 0 {
				subs[1+k] = sub0(r, l, 1+g.nl+k, o)
			}
		}
		for p := 0; p < f.passes(); p++ {
			lo, hi := f.bracket(p)
			for k := 0; k < g.n; k++ {
				l := cut(k%g.gx*g.gd, k/g.gx*g.gd, g.gd, g.gd, lo, hi)
				if len(l) > 0 {
					subs[2+g.nl+p*g.n+k] = sub0(r, l, 18+3*g.nl+g.n*p+k, o)
				}
			}
		}
	}
	style := func() int {
		if o.Val != nil {
			return exact
		}
		if o.Style >= 0 {
			return o.Style
		}
		return []int{exact, one, tails, tails}[r.Intn(4)]
	}
	mk := func(st int, sl []*Sub) *Tree {
		to := TreeOpts{Static: st == exact, WP: o.WP && r.Intn(3) == 0, Size: r.Intn(o.TreeSz + 1), Plain: o.Val != nil, W: f.W, H: f.H}
		for _, s := range sl {
			to.SIDs = append(to.SIDs, s.SID)
			if len(s.Chs) > to.NCh {
				to.NCh = len(s.Chs)
			}
		}
		if len(to.SIDs) == 0 {
			to.SIDs, to.NCh = []int{0}, 1
		}
		t := newTree(randTree(r, to))
		for _, s := range sl {
			s.T = t
		}
		t.finish(r, st, sl)
		return t
	}
	// who uses the global tree
	styles := map[int]int{}
	hasG := !o.NoGlob && r.Intn(2) == 0 || len(gs.todo()) == 0
	var gl []*Sub
	gst := style()
	for k := 0; k < nsec; k++ {
		s := subs[k]
		if s == nil {
			continue
		}
		s.Global = hasG && r.Intn(3) > 0 || len(s.todo()) == 0
		if s.Global {
			hasG = true
			styles[k] = gst
			if len(s.todo()) > 0 {
				gl = append(gl, s)
			}
			continue
		}
		styles[k] = style()
		mk(styles[k], []*Sub{s})
	}
	var gt *Tree
	if hasG {
		gt = mk(gst, gl)
	}
	secs := make([]*BW, nsec)
	for k := range secs {
		secs[k] = &BW{}
		b := secs[k]
		if k == 0 {
			if o.Pre != nil {
				o.Pre(b)
			}
			if r.Intn(4) > 0 {
				b.Bool(true)
			} else {
				b.Bool(false)
				for i := 0; i < 3; i++ {
					h := uint64(1 + r.Intn(0x7bff))
					if o.Steps {
						h = half([]float64{1. / 32, 1. / 4, 1. / 2}[i] * (0.5 + r.Float64()))
					}
					b.Put(h, 16)
				}
			}
			b.Bool(hasG)
			if hasG {
				gt.write(r, b)
			}
		}
		if s := subs[k]; s != nil {
			s.write(r, b, styles[k])
		}
		if o.Used != nil && len(b.b) > 0 {
			o.Used[k] = true
		}
		b.Align()
	}
	f.write(r, w)
	var perm []int
	if o.Perm && nsec > 1 {
		perm = r.Perm(nsec)
		if r.Intn(3) == 0 {
			a, b := r.Intn(nsec), r.Intn(nsec)
			for k := range perm {
				perm[k] = k
			}
			perm[a], perm[b] = perm[b], perm[a]
		}
	}
	file := make([]*BW, nsec)
	for k := range secs {
		if r.Intn(6) == 0 && o.Cut[k] == 0 {
			secs[k].Random(r, 8*r.Intn(4)) // bytes nobody reads
		}
		if c := o.Cut[k]; c > 0 {
			secs[k].b = secs[k].b[:max(0, len(secs[k].b)-c)]
		}
		if perm == nil {
			file[k] = secs[k]
		} else {
			file[perm[k]] = secs[k]
		}
	}
	sizes := make([]int, nsec)
	for k := range file {
		sizes[k] = len(file[k].b)
	}
	writeToc(r, w, sizes, perm)
	for _, s := range file {
		w.Bytes(s.b)
	}
}

// ImgTrace is one decode of a whole image by the real code.
type ImgTrace struct {
	Bytes []int     `json:"bytes"`
	Kind  string    `json:"kind"`
	Err   bool      `json:"err"`
	Nil   bool      `json:"nil"`
	Pan   bool      `json:"pan"`
	Msg   string    `json:"msg"`
	W     int       `json:"w"`
	H     int       `json:"h"`
	Ch    []ChanOut `json:"ch"`
}

// imgCase is a generated image.
type imgCase struct {
	b    []byte
	kind string
}

// runImages decodes the images in worker processes and emits the traces.
func runImages(r *rand.Rand, cases []imgCase, emit func(any)) {
	for len(cases) > 0 {
		k := len(cases)
		if k > 2000 {
			k = 2000
		}
		var jobs []*Job
		for _, c := range cases[:k] {
			jobs = append(jobs, &Job{Op: "decode", Data: c.b, Reader: []string{"", "", "", "dribble1", "dribble3", "eager"}[r.Intn(6)]})
		}
		for i, res := range runJobs(jobs) {
			t := &ImgTrace{Bytes: ints(cases[i].b), Kind: cases[i].kind, Err: res.Err, Nil: res.Nil, Pan: res.Pan, Msg: res.Msg, W: res.W, H: res.H, Ch: res.Ch}
			if t.Ch == nil {
				t.Ch = []ChanOut{}
			}
			emit(t)
		}
		cases = cases[k:]
	}
}

// plainHdr is an image header of the lossless, integer, opaque-to-colour kind.
func plainHdr(r *rand.Rand, W, H int) *HdrP {
	p := &HdrP{W: W, H: H, Orient: 1, D: Depth{8, 0}, Gray: r.Intn(3) == 0, M16: r.Intn(2) == 0}
	if r.Intn(3) == 0 {
		p.D = Depth{1 + r.Intn(16), 0}
	}
	for i := []int{0, 0, 1, 2}[r.Intn(4)]; i > 0; i-- {
		p.ECs = append(p.ECs, EC{Type: []int{0, 1, 4}[r.Intn(3)], D: Depth{1 + r.Intn(12), 0}})
	}
	return p
}

func plainF(h *HdrP) *FHdr {
	f := &FHdr{Mod: true, ImgW: h.W, ImgH: h.H, W: h.W, H: h.H, NP: 1, IsLast: true, LfLevel: 1}
	for _, e := range h.ECs {
		f.ECUps = append(f.ECUps, 0)
		f.ECSh = append(f.ECSh, e.Shift)
		f.ECBl = append(f.ECBl, Blend{})
	}
	return f
}

func (p *HdrP) nc() int {
	if p.Gray {
		return 1
	}
	return 3
}

func init() {
	gens["C07"] = func(r *rand.Rand, n int, tier string, emit func(any)) {
		var cs []imgCase
		for i := 0; i < n; i++ {
			h := plainHdr(r, 1+r.Intn(9), 1+r.Intn(9))
			if r.Intn(10) == 0 {
				h.W, h.H = 1+r.Intn(40), 1+r.Intn(6)
			}
			w := &BW{}
			h.write(r, w)
			f := plainF(h)
			f.GShift = r.Intn(4)
			xf := XfOpts{Max: 0, IDs: []int{0}, Keep: 12}
			if r.Intn(6) == 0 {
				// channels of many sizes and shifts
				xf = XfOpts{Max: 2, IDs: []int{2}, Keep: 24}
			}
			writeFrame(r, w, h.nc(), len(h.ECs), &FrameOpts{F: f, Xf: xf, TreeSz: []int{0, 2, 5, 12}[r.Intn(4)], Style: -1, WP: true, VStyle: -1})
			cs = append(cs, imgCase{w.b, "modular"})
		}
		runImages(r, cs, emit)
	}
	gens["C08"] = func(r *rand.Rand, n int, tier string, emit func(any)) {
		var cs []imgCase
		for i := 0; i < n; i++ {
			h := plainHdr(r, 1+r.Intn(10), 1+r.Intn(10))
			if r.Intn(8) == 0 {
				h.W, h.H = 1+r.Intn(40), 1+r.Intn(6)
			}
			if r.Intn(8) == 0 {
				h.H, h.W = 1+r.Intn(40), 1+r.Intn(6)
			}
			w := &BW{}
			h.write(r, w)
			f := plainF(h)
			f.GShift = r.Intn(4)
			ids := [][]int{{0}, {1}, {2}, {0, 1, 2}}[r.Intn(4)]
			writeFrame(r, w, h.nc(), len(h.ECs), &FrameOpts{F: f, Xf: XfOpts{Max: 3, IDs: ids, Keep: 24}, TreeSz: []int{0, 0, 3}[r.Intn(3)], Style: -1, WP: true, VStyle: -1})
			cs = append(cs, imgCase{w.b, "transforms"})
		}
		runImages(r, cs, emit)
	}
	gens["C09"] = func(r *rand.Rand, n int, tier string, emit func(any)) {
		var cs []imgCase
		for i := 0; i < n; i++ {
			a, b := 120+r.Intn(200), 1+r.Intn(3)
			if r.Intn(3) == 0 {
				a, b = 1+r.Intn(20), 1+r.Intn(20)
			}
			h := plainHdr(r, a, b)
			lf := r.Intn(5) == 0
			if lf {
				h.W, h.H = 130+r.Intn(60), 8+r.Intn(6)
				if r.Intn(15) == 0 { // several LF groups
					h.W, h.H = 1025+r.Intn(60), 1+r.Intn(9)
				}
				h.ECs, h.Gray = nil, r.Intn(4) > 0
			}
			if r.Intn(2) == 0 {
				h.W, h.H = h.H, h.W
			}
			if r.Intn(2) == 0 {
				h.ECs, h.Gray = nil, true
			}
			w := &BW{}
			h.write(r, w)
			f := plainF(h)
			if r.Intn(3) == 0 {
				f.NP = 2 + r.Intn(3)
				for i := 0; i < f.NP-1; i++ {
					f.PShift = append(f.PShift, r.Intn(4))
				}
				d, l := 3, 0
				for k := r.Intn(4); k > 0 && d >= 0 && l < f.NP; k-- {
					d -= r.Intn(2)
					l += r.Intn(2)
					if d < 0 || l >= f.NP {
						break
					}
					f.DS, f.Last = append(f.DS, d), append(f.Last, l)
					d, l = d-1, l+1
				}
			}
			ids := [][]int{{0}, {1}, {2}, {2}, {0, 1, 2}}[r.Intn(5)]
			writeFrame(r, w, h.nc(), len(h.ECs), &FrameOpts{F: f, Xf: XfOpts{Max: 2, IDs: ids, Keep: 16, LF: lf}, TreeSz: 2, Style: -1, WP: false, VStyle: -1, Perm: r.Intn(2) == 0})
			cs = append(cs, imgCase{w.b, "groups"})
		}
		runImages(r, cs, emit)
	}
}
