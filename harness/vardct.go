package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"strings"
)

// shapes of the 27 transforms: order, height and width in cells
var vdShape = [27][3]int{
	{0, 1, 1}, {1, 1, 1}, {1, 1, 1}, {1, 1, 1}, {2, 2, 2}, {3, 4, 4}, {4, 2, 1}, {4, 1, 2}, {5, 4, 1}, {5, 1, 4}, {6, 4, 2}, {6, 2, 4},
	{1, 1, 1}, {1, 1, 1}, {1, 1, 1}, {1, 1, 1}, {1, 1, 1}, {1, 1, 1}, {7, 8, 8}, {8, 8, 4}, {8, 4, 8}, {9, 16, 16}, {10, 16, 8}, {10, 8, 16},
	{11, 32, 32}, {12, 32, 16}, {12, 16, 32},
}
var vdOrdSize = [13]int{64, 64, 256, 1024, 128, 256, 512, 4096, 2048, 16384, 8192, 65536, 32768}
var vdTab = [17][2]int{{8, 8}, {8, 8}, {8, 8}, {8, 8}, {16, 16}, {32, 32}, {8, 16}, {8, 32}, {16, 32}, {8, 8}, {8, 8}, {64, 64}, {32, 64}, {128, 128}, {64, 128}, {256, 256}, {128, 256}}
var vdFreq = []int{-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 15, 16, 16, 17, 17, 18, 18, 19, 19, 20, 20, 21, 21, 22, 22,
	23, 23, 23, 23, 24, 24, 24, 24, 25, 25, 25, 25, 26, 26, 26, 26, 27, 27, 27, 27, 28, 28, 28, 28, 29, 29, 29, 29, 30, 30, 30, 30}
var vdCount = []int{0, 0, 31, 62, 62, 93, 93, 93, 93, 123, 123, 123, 123, 152, 152, 152, 152, 152, 152, 152, 152, 180, 180, 180, 180, 180, 180, 180, 180, 180, 180, 180, 180,
	206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206}
var vdDefMap = []int{0, 1, 2, 2, 3, 3, 4, 5, 6, 6, 6, 6, 6, 7, 8, 9, 9, 10, 11, 12, 13, 14, 14, 14, 14, 14, 7, 8, 9, 9, 10, 11, 12, 13, 14, 14, 14, 14, 14}

// half gives the bits of a normal half float.
func half(v float64) uint64 {
	s := uint64(0)
	if v < 0 {
		s, v = 0x8000, -v
	}
	if v == 0 {
		return s
	}
	e := int(math.Floor(math.Log2(v)))
	m := int(math.Round((v/math.Pow(2, float64(e)) - 1) * 1024))
	if m == 1024 {
		e, m = e+1, 0
	}
	return s | uint64(e+15)<<10 | uint64(m)
}
func unhalf(h uint64) float64 {
	e := int(h >> 10 & 31)
	v := float64(h&1023+1024) * math.Pow(2, float64(e-25))
	if h>>15 == 1 {
		return -v
	}
	return v
}

// ctxTree is a static tree whose leaves all predict zero, so that samples are coded as they are.
func ctxTree(r *rand.Rand, size int, sids []int, nch, w, h int) *TNode {
	if size <= 0 {
		return &TNode{P: -1}
	}
	t := &TNode{}
	switch r.Intn(4) {
	case 0:
		t.P, t.V = 0, r.Intn(nch)
	case 1, 2:
		t.P, t.V = 1, sids[r.Intn(len(sids))]
		if r.Intn(2) == 0 && t.V > 0 {
			t.V--
		}
	case 3:
		t.P, t.V = 2, r.Intn(h)
		if r.Intn(2) == 0 {
			t.P, t.V = 3, r.Intn(w)
		}
	}
	// one split only per property range: keep ranges non-empty by splitting each property once
	t.L, t.R = &TNode{P: -1}, &TNode{P: -1}
	if size > 1 && t.P == 1 {
		u := &TNode{P: 0, V: r.Intn(nch), L: &TNode{P: -1}, R: &TNode{P: -1}}
		if r.Intn(2) == 0 {
			t.L = u
		} else {
			t.R = u
		}
	}
	return t
}

var vdDebug string

type vdBlock struct{ x, y, t, mul int }

// VdOpts says what kind of VarDCT frame to write.
type VdOpts struct {
	F      *FHdr
	Types  []int // transforms to choose from
	Smooth bool
	Tables bool
	Big    bool // sparse frame of several groups
	Orders bool
	Far    bool // chroma-from-luma factors that differ between tiles
	Even   bool // steps of the low frequencies that are powers of two
	Edges  bool // made for the edge-preserving filter
	Grey   bool // the three colours come out alike
	nec    int
	ext    func(sec int, b *BW) // called after each section was written (to spoil it)
}

// vdPlace covers gx times gy cells with blocks.
func vdPlace(r *rand.Rand, gx, gy int, types []int, mulMax int, tile bool) ([]vdBlock, []int) {
	cell := make([]int, gx*gy)
	var bl []vdBlock
	for k := range cell {
		if cell[k] != 0 {
			continue
		}
		x, y := k%gx, k/gx
		fits := func(t int) bool {
			h, w := vdShape[t][1], vdShape[t][2]
			if x+w > gx || y+h > gy || x%32+w > 32 || y%32+h > 32 || tile && (x%8+w > 8 || y%8+h > 8) {
				return false
			}
			for dy := 0; dy < h; dy++ {
				for dx := 0; dx < w; dx++ {
					if cell[k+dy*gx+dx] != 0 {
						return false
					}
				}
			}
			return true
		}
		t := types[r.Intn(len(types))]
		for i := 0; i < 4 && !fits(t); i++ {
			t = types[r.Intn(len(types))]
		}
		if !fits(t) {
			if t = 0; types[0] != 0 || len(types) > 1 {
				t = []int{0, 0, 1, 2, 3, 12, 13, 14, 15, 16, 17}[r.Intn(11)]
			}
		}
		bl = append(bl, vdBlock{x, y, t, 1 + r.Intn(mulMax)})
		for dy := 0; dy < vdShape[t][1]; dy++ {
			for dx := 0; dx < vdShape[t][2]; dx++ {
				cell[k+dy*gx+dx] = len(bl)
			}
		}
	}
	return bl, cell
}

func vdBands(r *rand.Rand, w *BW) {
	n := 1 + r.Intn(8)
	if r.Intn(8) == 0 {
		n = 1 + r.Intn(16)
	}
	w.Put(uint64(n-1), 4)
	for c := 0; c < 3; c++ {
		w.Put(half([]float64{20, 9, 5}[c]*(0.5+2*r.Float64())), 16)
		for i := 1; i < n; i++ {
			v := 0.04 + r.Float64()
			if r.Intn(8) == 0 {
				v *= 3
			}
			if r.Intn(3) > 0 {
				v = -(0.02 + v/2)
			}
			if r.Intn(6) == 0 {
				w.Put(0, 16)
			} else {
				w.Put(half(v), 16)
			}
		}
	}
}

// writeVarDct appends a whole VarDCT frame.
func writeVarDct(r *rand.Rand, w *BW, o *VdOpts) {
	f := o.F
	gx, gy := cdiv(f.cw(), 8), cdiv(f.ch(), 8)
	hs, vs := f.subsampling()
	mh, mv := max(hs[0], hs[1], hs[2]), max(vs[0], vs[1], vs[2])
	gx, gy = cdiv(gx, 1<<mh)<<mh, cdiv(gy, 1<<mv)<<mv
	ngx, ngy := cdiv(f.cw(), 256), cdiv(f.ch(), 256)
	ng := ngx * ngy
	one := ng == 1
	// the LF groups: 256 x 256 cells each
	nlx := cdiv(f.cw(), 2048)
	nl := nlx * cdiv(f.ch(), 2048)
	type rect struct{ x, y, w, h int }
	lfr := make([]rect, nl)
	for l := range lfr {
		x, y := l%nlx*256, l/nlx*256
		lfr[l] = rect{x, y, min(256, gx-x), min(256, gy-y)}
	}

	// --- LfGlobal
	g := &BW{}
	lfd := [3]float64{1. / 4096, 1. / 512, 1. / 256}
	if r.Intn(2) == 0 || o.Edges && o.Even {
		g.Bool(true)
	} else {
		g.Bool(false)
		for i := range lfd {
			h := half(lfd[i] * 128 * (0.3 + 2.5*r.Float64()))
			lfd[i] = unhalf(h) / 128
			g.Put(h, 16)
		}
	}
	gs := 3000 + r.Intn(30000)
	if r.Intn(4) == 0 {
		gs = 4097 + r.Intn(3)*4096 - r.Intn(2)
	}
	if r.Intn(6) == 0 {
		gs = 40000 + r.Intn(33000)
	}
	ql := 1 + r.Intn(40)
	if r.Intn(3) == 0 {
		ql = 16
	}
	if r.Intn(10) == 0 {
		ql = 200 + r.Intn(3000)
	}
	if o.Smooth {
		gs, ql = 800+r.Intn(3000), 1+r.Intn(4)
	}
	even := o.Edges && o.Even
	if even { // steps that are powers of two
		gs = 1 << uint(6+r.Intn(7))
		ql = 1 << uint(13-r.Intn(3)+r.Intn(3)) / gs
	} else if o.Edges {
		gs = 50 + r.Intn([]int{300, 1500, 5000}[r.Intn(3)])
		ql = 1 + (5000+r.Intn(100000))/gs
	}
	g.U32(r, int64(gs), 1, 11, 2049, 11, 4097, 12, 8193, 16)
	g.U32(r, int64(ql), 16, 0, 1, 5, 1, 8, 1, 16)
	precs := make([]int, nl)
	for l := range precs {
		precs[l] = r.Intn(4)
	}
	// the low frequencies: Y, X, B in the stream
	var step [3]float64
	for c := range step {
		step[c] = 65536 / float64(gs) / float64(ql) * lfd[c]
	}
	lim := 100000
	base := [3]float64{0.02 * (2*r.Float64() - 1), r.Float64() * 0.8, r.Float64() * 0.8}
	amp := [3]float64{0.02, 0.3, 0.3}
	if !f.XYB {
		base = [3]float64{r.Float64() - 0.3, r.Float64() - 0.3, r.Float64() - 0.3}
		amp = [3]float64{0.4, 0.4, 0.4}
	}
	calm := o.Big
	for _, t := range o.Types {
		if vdShape[t][1]*vdShape[t][2] > 16 {
			calm = true
		}
	}
	k := []float64{0, 0.1, 0.5, 1}[r.Intn(4)]
	if calm || o.Edges && r.Intn(3) > 0 {
		k *= 0.03
	}
	lfv := [3][]int{}
	for c := 0; c < 3; c++ {
		wx := gx >> hs[c]
		lfv[c] = make([]int, wx*(gy>>vs[c]))
		sx, sy := r.NormFloat64()*amp[c]/float64(gx+1)/2, r.NormFloat64()*amp[c]/float64(gy+1)/2
		for i := range lfv[c] {
			prec := precs[(i/wx)<<vs[c]/256*nlx+(i%wx)<<hs[c]/256]
			step := step[c] / float64(int(1)<<uint(prec))
			v := base[c] + sx*float64(i%wx) + sy*float64(i/wx) + k*amp[c]*(2*r.Float64()-1)
			if o.Smooth && r.Intn(2) == 0 { // within a few steps of the plane
				v = base[c] + step*float64(int(1)<<uint(prec))*(r.Float64()-0.5)*[]float64{0.5, 1, 1.5, 3}[gy%4]
			}
			q := int(math.Round(v / step))
			if q > lim {
				q = lim
			}
			if q < -lim {
				q = -lim
			}
			if o.Grey && c != 1 {
				q = 0
			}
			lfv[c][i] = q
		}
	}
	// block contexts
	ncl, nlf, cmap := 15, 1, vdDefMap
	var thr [3][]int
	var qf []int
	if r.Intn(2) == 0 {
		g.Bool(true)
	} else {
		g.Bool(false)
		for {
			nlf = 1
			for c := range thr {
				thr[c] = nil
				for i := r.Intn(4); i > 0; i-- {
					v := lfv[c][r.Intn(len(lfv[c]))] + r.Intn(3) - 1
					if r.Intn(12) == 0 {
						v = r.Intn(60000) - 30000
					}
					if r.Intn(200) == 0 {
						v *= 100000
					}
					thr[c] = append(thr[c], v)
				}
				nlf *= len(thr[c]) + 1
			}
			qf = nil
			for i := r.Intn(4); i > 0; i-- {
				qf = append(qf, 1+r.Intn(12))
			}
			if nlf*(len(qf)+1) <= 64 {
				break
			}
		}
		for c := range thr {
			g.Put(uint64(len(thr[c])), 4)
			for _, v := range thr[c] {
				u := zig(v)
				switch {
				case u < 16 && r.Intn(3) > 0:
					g.Put(0, 2)
					g.Put(uint64(u), 4)
				case u >= 16 && u < 272:
					g.Put(1, 2)
					g.Put(uint64(u-16), 8)
				case u >= 272 && u < 65808:
					g.Put(2, 2)
					g.Put(uint64(u-272), 16)
				case u >= 65808:
					g.Put(3, 2)
					g.Put(uint64(u-65808), 32)
				default:
					g.Put(0, 2)
					g.Put(uint64(u), 4)
				}
			}
		}
		g.Put(uint64(len(qf)), 4)
		for _, v := range qf {
			g.U32(r, int64(v-1), 0, 2, 4, 3, 12, 5, 44, 8)
		}
		n := 39 * nlf * (len(qf) + 1)
		ncl = 1 + r.Intn(8)
		if r.Intn(3) == 0 {
			ncl = 1 + r.Intn(16)
		}
		cmap = make([]int, n)
		for i := range cmap {
			cmap[i] = r.Intn(ncl)
			if i < ncl {
				cmap[i] = i
			}
		}
		writeMap(r, g, cmap, ncl, 0)
	}
	// colour correlation
	cf := 84
	if o.Grey {
		// what Y gives to the others
		g.Bool(f.XYB)
		if !f.XYB {
			g.U32(r, 84, 84, 0, 256, 0, 2, 8, 258, 16)
			for i := 0; i < 2; i++ {
				g.Put(half(map[bool]float64{false: 1}[f.YCC]), 16)
			}
			g.Put(128, 8)
			g.Put(128, 8)
		}
	} else if r.Intn(2) == 0 {
		g.Bool(true)
	} else {
		g.Bool(false)
		cf = []int{84, 256, 20 + r.Intn(230), 260 + r.Intn(1000)}[r.Intn(4)]
		g.U32(r, int64(cf), 84, 0, 256, 0, 2, 8, 258, 16)
		for i := 0; i < 2; i++ {
			v := 2*r.Float64() - 1
			if f.XYB && i == 0 {
				v /= 20
			}
			if r.Intn(4) == 0 {
				g.Put(half(float64(i)), 16)
			} else {
				g.Put(half(v), 16)
			}
		}
		for i := 0; i < 2; i++ {
			v := 128
			if r.Intn(2) == 0 {
				v += r.Intn(61) - 30
				if f.XYB && i == 0 {
					v = 126 + r.Intn(5)
				}
			}
			g.Put(uint64(v), 8)
		}
	}
	// --- the modular streams
	if os.Getenv("VDDEBUG") != "" {
		vdDebug = fmt.Sprintf(" jpeg%v thr%v|xyb%v ycc%v tables%v orders%v cf%d gs%d ql%d step%v far%v ec%d xqm%d bqm%d lf%v", f.Jpeg, thr, f.XYB, f.YCC, o.Tables, o.Orders, cf, gs, ql, step, o.Far, o.nec, f.Xqm, f.Bqm, lfv)
	}
	sids := []int{0, 1, 1 + 2*nl, 1 + nl/2, 3 * nl}
	for k := 0; k < ng; k++ {
		sids = append(sids, 18+3*nl+k)
	}
	var ex []Chan
	for i := 0; i < o.nec; i++ {
		ex = append(ex, f.ex(i))
	}
	xo := &FrameOpts{VStyle: 1, Xf: XfOpts{Max: 1, IDs: []int{0, 2}, Keep: 12}}
	if o.nec == 0 {
		xo.Xf.Max = 0
	}
	gsub := &Sub{SID: 0, MaxDim: 256}
	if o.nec > 0 {
		gsub = sub0(r, ex, 0, xo)
		gsub.MaxDim = 256
	}
	left := gsub.left()
	cut := func(x0, y0, w, h, lo, hi int) []Chan {
		var l []Chan
		for _, i := range left {
			c := gsub.Chs[i]
			m := min(c.HS, c.VS)
			if m < lo || m > hi {
				continue
			}
			cw, ch := min(w>>uint(c.HS), c.W-x0>>uint(c.HS)), min(h>>uint(c.VS), c.H-y0>>uint(c.VS))
			if cw > 0 && ch > 0 {
				l = append(l, Chan{cw, ch, c.HS, c.VS})
			}
		}
		return l
	}
	var all []*Sub
	mk := func(chs []Chan, sid int, val func(ch, x, y int) int) *Sub {
		s := &Sub{Chs0: chs, Chs: chs, SID: sid, Val: val}
		all = append(all, s)
		return s
	}
	all = append(all, gsub)
	order := []int{1, 0, 2} // stream channel -> colour
	lfs, lfm, meta := make([]*Sub, nl), make([]*Sub, nl), make([]*Sub, nl)
	for l, q := range lfr {
		if f.Flags&32 == 0 {
			lfs[l] = mk([]Chan{{q.w >> hs[1], q.h >> vs[1], 0, 0}, {q.w >> hs[0], q.h >> vs[0], 0, 0}, {q.w >> hs[2], q.h >> vs[2], 0, 0}}, 1+l, func(ch, x, y int) int {
				c := order[ch]
				return lfv[c][(y+q.y>>vs[c])*(gx>>hs[c])+x+q.x>>hs[c]]
			})
		}
		if c := cut(8*q.x, 8*q.y, 2048, 2048, 3, 1000); len(c) > 0 {
			lfm[l] = sub0(r, c, 1+nl+l, xo)
			all = append(all, lfm[l])
		}
	}
	// blocks
	mulMax := 1 + r.Intn(12)
	if r.Intn(6) == 0 {
		mulMax = 200
	}
	if o.Edges {
		mulMax = 1 + r.Intn(6)
	}
	var blocks []vdBlock
	own := make([][]vdBlock, nl)
	for l, q := range lfr {
		own[l], _ = vdPlace(r, q.w, q.h, o.Types, mulMax, o.Far)
		for _, k := range own[l] {
			k.x, k.y = k.x+q.x, k.y+q.y
			blocks = append(blocks, k)
		}
	}
	if os.Getenv("VDDEBUG") != "" {
		vdDebug += fmt.Sprint(" blocks ", blocks)
	}
	tx, ty := cdiv(gx, 8), cdiv(gy, 8)
	xf, bf := make([]int, tx*ty), make([]int, tx*ty)
	cx, cb := 0, 0
	if r.Intn(2) == 0 {
		cx, cb = r.Intn(81)-40, r.Intn(161)-80
	}
	for i := range xf {
		if o.Far {
			cx, cb = r.Intn(81)-40, r.Intn(161)-80
		}
		if o.Grey {
			cx, cb = 0, 0
		}
		xf[i], bf[i] = cx, cb
	}
	sharp := make([]int, gx*gy)
	few, spread := r.Intn(8), r.Intn(3)
	for i := range sharp {
		switch spread {
		case 0:
			sharp[i] = r.Intn(8)
		case 1:
			sharp[i] = few
		default:
			sharp[i] = 7 - r.Intn(2)
		}
	}
	if o.Edges && r.Intn(20) == 0 {
		sharp[r.Intn(len(sharp))] = []int{8, -1}[r.Intn(2)]
	}
	for l, q := range lfr {
		tw := cdiv(q.w, 8)
		meta[l] = mk([]Chan{{tw, cdiv(q.h, 8), 0, 0}, {tw, cdiv(q.h, 8), 0, 0}, {len(own[l]), 2, 0, 0}, {q.w, q.h, 0, 0}}, 1+2*nl+l, func(ch, x, y int) int {
			switch ch {
			case 0:
				return xf[(y+q.y/8)*tx+x+q.x/8]
			case 1:
				return bf[(y+q.y/8)*tx+x+q.x/8]
			case 2:
				if y == 0 {
					return own[l][x].t
				}
				return own[l][x].mul - 1
			}
			if o.Edges {
				return sharp[(y+q.y)*gx+x+q.x]
			}
			return (x*3 + y*5 + len(blocks)) % 8
		})
	}
	// tables
	type tab struct {
		mode int
		den  uint64
		sub  *Sub
	}
	var tabs []tab
	if o.Tables {
		for i := 0; i < 17; i++ {
			t := tab{}
			small := i < 4 || i == 9 || i == 10
			switch {
			case small:
				t.mode = r.Intn(8)
			case r.Intn(2) == 0:
				t.mode = 6
			}
			if t.mode == 7 && r.Intn(2) == 0 {
				t.mode = 6
			}
			if i == 4 && r.Intn(8) == 0 {
				t.mode = 7
			}
			if t.mode == 7 {
				t.den = half((0.3 + r.Float64()) / 2000)
				h, w := vdTab[i][0], vdTab[i][1]
				m := 1 + r.Intn(30)
				t.sub = mk([]Chan{{w, h, 0, 0}, {w, h, 0, 0}, {w, h, 0, 0}}, 1+3*nl+i, func(ch, x, y int) int { return 1 + r.Intn(m) + x + y })
				// values must not change between the two visits
				vals := map[[3]int]int{}
				val := t.sub.Val
				t.sub.Val = func(ch, x, y int) int {
					k := [3]int{ch, x, y}
					if _, ok := vals[k]; !ok {
						vals[k] = val(ch, x, y)
					}
					return vals[k]
				}
				sids = append(sids, 1+3*nl+i)
			}
			tabs = append(tabs, t)
		}
	}
	grp := make([]*Sub, ng)
	for k := range grp {
		if l := cut(k%ngx*256, k/ngx*256, 256, 256, 0, 2); len(l) > 0 {
			grp[k] = sub0(r, l, 18+3*nl+k, xo)
			all = append(all, grp[k])
		}
	}
	// trees
	hasG := r.Intn(3) > 0
	var gl []*Sub
	for _, s := range all {
		s.Global = hasG && r.Intn(4) > 0
		if len(s.todo()) == 0 && !s.Global {
			s.Global = true
			hasG = true
		}
		if s.Global {
			if len(s.todo()) > 0 {
				gl = append(gl, s)
			}
			continue
		}
		t := newTree(ctxTree(r, r.Intn(3), []int{s.SID}, max(1, len(s.Chs)), gx, gy))
		s.T = t
		t.finish(r, exact, []*Sub{s})
	}
	var gt *Tree
	if hasG {
		gt = newTree(ctxTree(r, r.Intn(4), sids, 4, gx, gy))
		for _, s := range gl {
			s.T = gt
		}
		gt.finish(r, exact, gl)
	}
	g.Bool(hasG)
	if hasG {
		gt.write(r, g)
	}
	if o.nec > 0 {
		gsub.write(r, g, exact)
	}
	// --- LF group
	var lgs []*BW
	for l, q := range lfr {
		lg := g
		if !one {
			lg = &BW{}
			lgs = append(lgs, lg)
		}
		if lfs[l] != nil {
			lg.Put(uint64(precs[l]), 2)
			lfs[l].write(r, lg, exact)
		}
		if lfm[l] != nil {
			lfm[l].write(r, lg, exact)
		}
		lg.Put(uint64(len(own[l])-1), ceilLog2(q.w*q.h))
		meta[l].write(r, lg, exact)
	}
	// --- HfGlobal
	hg := g
	if !one {
		hg = &BW{}
	}
	hg.Bool(!o.Tables)
	for i, t := range tabs {
		hg.Put(uint64(t.mode), 3)
		par := func(n, m int, at float64) { // parameters; those from m on are band steps
			for c := 0; c < 3; c++ {
				for k := 0; k < n; k++ {
					v := at * (0.4 + 1.5*r.Float64())
					if k >= m {
						v = r.Float64() - 0.4
						if math.Abs(v) < 0.04 {
							v = 0.1
						}
					}
					hg.Put(half(v), 16)
				}
			}
		}
		switch t.mode {
		case 1:
			par(3, 3, 20)
		case 2:
			par(6, 6, 20)
		case 3:
			par(2, 2, 0.02)
			vdBands(r, hg)
		case 4:
			par(1, 1, 1)
			vdBands(r, hg)
		case 5:
			par(9, 6, 10)
			vdBands(r, hg)
			vdBands(r, hg)
		case 6:
			vdBands(r, hg)
		case 7:
			hg.Put(t.den, 16)
			t.sub.write(r, hg, exact)
		}
		_ = i
	}
	pbits := ceilLog2(ng)
	np := 1
	if ng > 1 {
		np = 1 + r.Intn(min(ng, 3))
	}
	hg.Put(uint64(np-1), pbits)
	// --- HfPass
	used := 0
	if o.Orders {
		used = []int{0x13, 0x5f, r.Intn(128), r.Intn(128)}[r.Intn(4)]
	}
	hg.U32(r, int64(used), 0x5f, 0, 0x13, 0, 0, 0, 0, 13)
	pctx := func(x int) int { return min(7, ceilLog2(x+1)) }
	if used != 0 {
		var st []Sym
		for k := 0; k < 13; k++ {
			if used>>uint(k)&1 == 0 {
				continue
			}
			for c := 0; c < 3; c++ {
				n := vdOrdSize[k]
				rest := n - n/64
				end := r.Intn(min(rest+1, 30))
				if r.Intn(4) == 0 {
					end = r.Intn(min(rest+1, 200))
				}
				if r.Intn(6) == 0 {
					end = 0
				}
				st = append(st, Sym{pctx(n), int64(end)})
				prev := 0
				for i := 0; i < end; i++ {
					v := r.Intn(min(rest-i, 1<<uint(r.Intn(9))))
					st = append(st, Sym{pctx(prev), int64(v)})
					prev = v
				}
			}
		}
		c := NewCoder(r, 8, [][]Sym{st}, CoderOpts{})
		hg.Append(c.hdr)
		c.Write(hg, 0)
	}
	// coefficients
	lfidx := func(x, y int) int {
		var n [3]int
		for c := range n {
			for _, t := range thr[c] {
				if f.Flags&32 == 0 && lfv[c][(y>>vs[c])*(gx>>hs[c])+x>>hs[c]] > t {
					n[c]++
				}
			}
		}
		return (n[0]*(len(thr[2])+1)+n[2])*(len(thr[1])+1) + n[1]
	}
	presets := make([]int, ng)
	streams := make([][]Sym, ng)
	dens := r.Intn(4) // how many coefficients
	if o.Even {
		dens = r.Intn(2)
	}
	for k := 0; k < ng; k++ {
		presets[k] = r.Intn(np)
		off := 495 * ncl * presets[k]
		cx, cy := k%ngx*32, k/ngx*32
		gw, gh := min(32, gx-cx), min(32, gy-cy)
		nz := [3][]int{make([]int, gw*gh), make([]int, gw*gh), make([]int, gw*gh)}
		for _, b := range blocks {
			if b.x/32 != cx/32 || b.y/32 != cy/32 {
				continue
			}
			h8, w8 := vdShape[b.t][1], vdShape[b.t][2]
			nb := h8 * w8
			size := 64 * nb
			for _, c := range []int{1, 0, 2} {
				if b.x>>hs[c]<<hs[c] != b.x || b.y>>vs[c]<<vs[c] != b.y {
					continue
				}
				x, y := (b.x-cx)>>hs[c], (b.y-cy)>>vs[c]
				at := func(xx, yy int) int { return nz[c][yy*gw+xx] }
				pred := 32
				switch {
				case x == 0 && y == 0:
				case x == 0:
					pred = at(0, y-1)
				case y == 0:
					pred = at(x-1, 0)
				default:
					pred = (at(x, y-1) + at(x-1, y) + 1) / 2
				}
				ci := []int{1, 0, 2}[c]
				qi := 0
				for _, q := range qf {
					if b.mul > q {
						qi++
					}
				}
				bctx := cmap[((ci*13+vdShape[b.t][0])*(len(qf)+1)+qi)*nlf+lfidx(b.x, b.y)]
				nctx := pred
				if pred >= 8 {
					nctx = 4 + min(pred, 64)/2
				}
				// which places, in coded order
				reach := min(size-nb, []int{3, 12, 40, 63}[r.Intn(4)]*[]int{1, min(nb, 4)}[r.Intn(2)])
				n := 0
				if dens > 0 && r.Intn(5) > 0 {
					n = r.Intn(1 + min(reach, []int{0, 3, 8, 30}[dens]))
				}
				if o.Big && r.Intn(4) > 0 {
					n = 0
				}
				if c == 2 && n > 6 {
					n = r.Intn(6)
				}
				if o.Grey && c != 1 {
					n = 0
				}
				vals := map[int]int{}
				for len(vals) < n {
					v := 1
					for r.Intn(3) == 0 && v < 40 {
						v *= 2
						v -= r.Intn(2)
					}
					if r.Intn(2) == 0 {
						v = -v
					}
					vals[r.Intn(reach)] = v
				}
				streams[k] = append(streams[k], Sym{off + bctx + ncl*nctx, int64(n)})
				for dy := 0; dy < h8; dy++ {
					for dx := 0; dx < w8; dx++ {
						nz[c][(y+dy)*gw+x+dx] = cdiv(n, nb)
					}
				}
				hist := off + 458*bctx + 37*ncl
				prev := 1
				if n > size/16 {
					prev = 0
				}
				for j, left := 0, n; left > 0; j++ {
					fr := vdFreq[(j+nb)/nb]
					ctx := hist + 2*(vdCount[cdiv(left, nb)]+fr) + prev
					v := vals[j]
					streams[k] = append(streams[k], Sym{ctx, zig(v)})
					prev = 0
					if v != 0 {
						prev = 1
						left--
					}
				}
			}
		}
	}
	hc := NewCoder(r, 495*np*ncl, streams, CoderOpts{})
	hg.Append(hc.hdr)
	// --- groups
	secs := []*BW{g}
	if !one {
		secs = append(append(secs, lgs...), hg)
	}
	for k := 0; k < ng; k++ {
		b := g
		if !one {
			b = &BW{}
			secs = append(secs, b)
		}
		b.Put(uint64(presets[k]), ceilLog2(np))
		hc.Write(b, k)
		if grp[k] != nil {
			grp[k].write(r, b, exact)
		}
	}
	var sizes []int
	for i, b := range secs {
		b.Align()
		if o.ext != nil {
			o.ext(i, b)
		}
		sizes = append(sizes, len(b.b))
	}
	f.write(r, w)
	perm := []int(nil)
	if !one && r.Intn(4) == 0 {
		perm = r.Perm(len(secs))
		file, fs := make([]*BW, len(secs)), make([]int, len(secs))
		for i := range secs {
			file[perm[i]], fs[perm[i]] = secs[i], sizes[i]
		}
		secs, sizes = file, fs
	}
	writeToc(r, w, sizes, perm)
	for _, b := range secs {
		w.Bytes(b.b)
	}
}

// lowFrames writes the frames of the low frequencies of levels top to 1.
func lowFrames(r *rand.Rand, w *BW, h *HdrP, yccc bool, top int) {
	for l := top; l >= 1; l-- {
		f := plainF(h)
		f.Type, f.LfLevel, f.IsLast = 1, l, false
		f.XYB, f.YCC = h.XYB, yccc
		gab := r.Intn(4) == 0
		epf := r.Intn(8) == 0
		f.RF = func(r *rand.Rand, w *BW, mod bool) {
			if epf && mod {
				w.Put(1, 1)
				return
			}
			w.Put(0, 1)
			w.Bool(gab && (mod || f.cw()%8 == 0 && f.ch()%8 == 0))
			if gab && (mod || f.cw()%8 == 0 && f.ch()%8 == 0) {
				w.Put(0, 1)
			}
			w.Put(0, 2)
			w.U64(0)
		}
		if l < top && r.Intn(2) == 0 || r.Intn(3) == 0 {
			f.Mod, f.GShift = false, 1
			f.Flags = 128
			if l < top {
				f.Flags |= 32
			}
			if h.XYB {
				f.Xqm, f.Bqm = r.Intn(8), r.Intn(8)
			} else {
				f.Xqm, f.Bqm = 2, 2
			}
			writeVarDct(r, w, &VdOpts{F: f, Types: []int{0, 0, 1, 2, 3, 4, 6, 7, 12, 13, 14, 15, 16, 17}, Big: true, nec: len(h.ECs)})
			continue
		}
		f.Mod, f.GShift = true, r.Intn(4)
		o := &FrameOpts{F: f, Xf: XfOpts{Max: 1, IDs: []int{0, 1, 2}, Keep: 12}, TreeSz: 2, Style: -1, VStyle: -1, Steps: true}
		pics := [3]func(x, y int) float64{picture(r), picture(r), picture(r)}
		seed := r.Int63()
		o.Val = func(ch, x, y int) int {
			q := rand.New(rand.NewSource(seed + int64(ch*1000000+y*1000+x)))
			if ch >= 3 {
				return q.Intn(256)
			}
			v := pics[ch](x, y) + 0.01*q.NormFloat64()
			switch {
			case h.XYB:
				return int(math.Round([]float64{v * 400, (v - 0.5) * 100, (v - 0.5) * 120}[ch]))
			case yccc:
				return int(math.Round((v - 0.5) * 255))
			}
			return int(math.Round(v * 255))
		}
		writeFrame(r, w, 3, len(h.ECs), o)
	}
}

// vdImage makes an image of one VarDCT frame.
func vdImage(r *rand.Rand, kind string) imgCase {
	h := &HdrP{W: 1 + r.Intn(24), H: 1 + r.Intn(24), Orient: 1, D: Depth{8, 0}, M16: r.Intn(2) == 0}
	o := &VdOpts{Types: []int{0, 1, 2, 3, 12, 13, 14, 15, 16, 17}}
	also := kind
	switch r.Intn(8) {
	case 0:
		h.W, h.H = 1+r.Intn(70), 1+r.Intn(16)
	case 1:
		h.W, h.H = 1+r.Intn(16), 1+r.Intn(70)
	case 2:
		h.W, h.H = 8*(1+r.Intn(3)), 8*(1+r.Intn(3))
	}
	o.Tables = r.Intn(3) == 0
	o.Orders = r.Intn(3) == 0
	switch kind {
	case "blocks":
		o.Types = []int{0, 1, 2, 3, 4, 6, 7, 12, 13, 14, 15, 16, 17}
	case "middle":
		o.Types = []int{0, 4, 4, 5, 5, 6, 7, 8, 9, 10, 11}
		h.W, h.H = 16+r.Intn(50), 16+r.Intn(50)
	case "large":
		o.Types = []int{18, 19, 20, 5, 10, 11, 8, 9}
		h.W, h.H = 33+r.Intn(60), 33+r.Intn(60)
	case "huge":
		o.Types = []int{21, 22, 23, 18, 19, 20, 24, 25, 26}
		h.W, h.H = 65+r.Intn(100), 65+r.Intn(100)
		if r.Intn(3) == 0 {
			h.W, h.H = 250+r.Intn(7), 120+r.Intn(137)
		}
	case "groups":
		o.Types = []int{5, 18, 0, 4, 11}
		h.W, h.H = 257+r.Intn(30), 1+r.Intn(20)
		if r.Intn(2) == 0 {
			h.W, h.H = h.H, h.W
		}
		o.Big = true
	case "wide":
		o.Types = []int{5, 0, 0, 4, 11}
		h.W, h.H = 2049+r.Intn(40), 1+r.Intn(10)
		if r.Intn(2) == 0 {
			h.W, h.H = h.H, h.W
		}
		o.Big = true
		switch r.Intn(3) {
		case 0:
			also = []string{"edges", "alldefault"}[r.Intn(2)]
			h.W, h.H = (h.W+7)/8*8, (h.H+7)/8*8
			o.Edges, o.Even, o.Types = true, true, []int{0}
		case 1:
			also = "subsampled"
			o.Types = []int{0, 1, 2, 3, 12}
			h.W, h.H = (h.W+15)/16*16, (h.H+15)/16*16
		}
	case "grey":
		if r.Intn(3) == 0 {
			also = "gaborish"
		}
		if r.Intn(4) == 0 {
			o.Edges, o.Even, o.Types, also = true, true, []int{0}, "edges"
		}
		h.W, h.H = (h.W+7)/8*8, (h.H+7)/8*8
	case "smooth":
		h.W, h.H = 17+r.Intn(20), 17+r.Intn(20)
		o.Smooth = true
	case "enlarged":
		h.W, h.H = 1+r.Intn(24), 1+r.Intn(24)
		if r.Intn(2) == 0 {
			h.W, h.H = 16*(1+r.Intn(2)), 16*(1+r.Intn(2))
		}
	case "edges", "alldefault":
		o.Edges = true
		if r.Intn(3) > 0 {
			o.Even, o.Types = true, []int{0}
		}
		if r.Intn(6) != 0 {
			h.W, h.H = (h.W+7)/8*8, (h.H+7)/8*8
		}
	case "gaborish":
		if r.Intn(6) != 0 {
			h.W, h.H = (h.W+7)/8*8, (h.H+7)/8*8
		}
	case "low":
		if r.Intn(3) == 0 {
			o.Types = []int{0, 4, 4, 5, 6, 7, 8, 9, 10, 11}
		}
		h.W, h.H = 1+r.Intn(70), 1+r.Intn(30)
		if r.Intn(10) == 0 {
			h.W, h.H, o.Big = 257+r.Intn(30), 1+r.Intn(20), true
		}
		if r.Intn(2) == 0 {
			h.W, h.H = h.H, h.W
		}
	case "subsampled":
		if r.Intn(4) == 0 {
			h.W, h.H = 241+r.Intn(40), 1+r.Intn(20)
			if r.Intn(2) == 0 {
				h.W, h.H = h.H, h.W
			}
			o.Big = true
		}
		if r.Intn(3) > 0 {
			h.W, h.H = (h.W+15)/16*16, (h.H+15)/16*16
		}
		if r.Intn(3) == 0 {
			o.Edges, o.Even, o.Types = true, true, []int{0}
		}
	}
	o.Far = r.Intn(3) == 0 && kind != "huge"
	for i := []int{0, 0, 0, 1, 2}[r.Intn(5)]; i > 0; i-- {
		h.ECs = append(h.ECs, EC{Type: []int{0, 1, 4}[r.Intn(3)], D: Depth{8, 0}})
	}
	if kind == "huge" {
		h.ECs = nil
	}
	if kind == "wide" && len(h.ECs) > 0 && r.Intn(2) == 0 {
		h.ECs = h.ECs[:1]
		h.ECs[0].Shift = 3
	}
	o.nec = len(h.ECs)
	res := func(*FHdr) {}
	if kind == "enlarged" {
		res = resolutions(r, h)
		if r.Intn(4) == 0 {
			h.TD = upWeights(true, 1)
		}
	}
	col := r.Intn(5)
	if also == "subsampled" {
		col = 4
	}
	if kind == "grey" {
		h.Gray, o.Grey = true, true
	}
	h.XYB = col < 2 || kind == "space"
	if kind == "space" && r.Intn(6) == 0 {
		h.Gray, o.Grey = true, true
	}
	if h.TD != nil {
		h.TD = upWeights(h.XYB, 1+r.Intn(7))
	}
	if r.Intn(6) == 0 {
		h.Orient, h.Extra = 1+r.Intn(8), true
	}
	if kind == "space" {
		space(r, h)
	}
	w := &BW{}
	h.write(r, w)
	f := plainF(h)
	res(f)
	f.Mod, f.GShift, f.XYB, f.YCC = false, 1, h.XYB, col == 4 && !h.XYB
	f.Xqm, f.Bqm = r.Intn(8), r.Intn(8)
	if !h.XYB {
		f.Xqm, f.Bqm = 2, 2
	}
	f.Flags = 128
	if o.Smooth || h.W <= 16 || h.H <= 16 {
		f.Flags = uint64(r.Intn(2)) * 128
	}
	if o.Smooth {
		f.Flags = 0
	}
	if also == "subsampled" {
		f.Jpeg = [][3]int{{0, 1, 0}, {0, 1, 0}, {0, 2, 0}, {0, 3, 0}, {0, 1, 1}, {1, 0, 0}, {2, 0, 3}, {3, 0, 2}, {1, 1, 0}}[r.Intn(9)]
		f.Flags = 128
	}
	f.RF = func(r *rand.Rand, w *BW, mod bool) {
		if also == "alldefault" {
			w.Put(1, 1)
			return
		}
		w.Put(0, 1)
		g := also == "gaborish" || also == "subsampled" && r.Intn(3) == 0
		w.Bool(g)
		if g {
			c := r.Intn(2) == 0
			w.Bool(c)
			if c {
				for i := 0; i < 6; i++ {
					w.Put(half(0.01+r.Float64()*0.3), 16)
				}
			}
		}
		if also == "edges" || also == "subsampled" && o.Even && r.Intn(2) == 0 {
			w.Put(uint64(1+r.Intn(3)), 2)
			w.Put(0, 3) // sharpness, channel weights, sigma
		} else {
			w.Put(0, 2)
		}
		w.U64(0)
	}
	o.F = f
	if kind == "low" {
		if q := r.Intn(30); q > 0 {
			lowFrames(r, w, h, f.YCC, []int{1, 1, 1, 2, 3}[r.Intn(5)])
			if q == 1 { // a frame the low frequencies do not fit
				f.Crop, f.W, f.H = true, h.W+8*r.Intn(3)-8, h.H+8*r.Intn(3)-8
				f.W, f.H = max(f.W, 1), max(f.H, 1)
			}
		}
		f.Flags |= 32
		f.IsLast = true
	}
	writeVarDct(r, w, o)
	if vdDebug != "" {
		kind += fmt.Sprint(h.W, "x", h.H, vdDebug)
	}
	return imgCase{w.b, kind}
}

func init() {
	gens["C19"] = func(r *rand.Rand, n int, tier string, emit func(any)) {
		var cs []imgCase
		kinds := []string{"blocks", "blocks", "blocks", "plain", "plain", "middle", "middle", "gaborish", "smooth", "large", "groups", "edges", "edges", "alldefault", "subsampled", "subsampled", "low", "low", "grey"}
		if k := os.Getenv("VDKINDS"); k != "" {
			kinds = strings.Split(k, ",")
		}
		for i := 0; i < n; i++ {
			k := kinds[r.Intn(len(kinds))]
			if i%60 == 59 {
				k = "huge"
			}
			if i%60 == 29 {
				k = "wide"
			}
			c := vdImage(r, k)
			if k != "huge" && r.Intn(8) == 0 {
				// broken off, or a bit turned over
				if len(c.b) > 30 && r.Intn(2) == 0 {
					c.b, c.kind = c.b[:20+r.Intn(len(c.b)-20)], "cut"
				} else if len(c.b) > 30 {
					c.b = append([]byte{}, c.b...)
					c.b[20+r.Intn(len(c.b)-20)] ^= 1 << r.Intn(8)
					c.kind = "turned"
				}
			}
			cs = append(cs, c)
		}
		runImages(r, cs, emit)
	}
}
