package main

import (
	"math/rand"
)

// composed writes an image of several frames.
func composed(r *rand.Rand, maxFrames, orient int, kind string) imgCase {
	h := &HdrP{W: 1 + r.Intn(7), H: 1 + r.Intn(7), Orient: orient, Extra: orient != 1 || r.Intn(4) == 0, D: Depth{1 + r.Intn(5), 0}, Gray: r.Intn(2) == 0, M16: r.Intn(2) == 0}
	if r.Intn(4) == 0 {
		h.D.Bits = 1 + r.Intn(8)
	}
	for i := []int{0, 1, 1, 2, 3}[r.Intn(5)]; i > 0; i-- {
		e := EC{Type: []int{0, 0, 0, 1, 4}[r.Intn(5)], D: Depth{1 + r.Intn(5), 0}}
		if e.Type == 0 {
			e.Assoc = r.Intn(3) == 0
		}
		h.ECs = append(h.ECs, e)
	}
	w := &BW{}
	h.write(r, w)
	n := 1 + r.Intn(maxFrames)
	for k := 0; k < n; k++ {
		f := plainF(h)
		f.GShift = r.Intn(4)
		f.IsLast = k == n-1
		f.Save = r.Intn(4)
		if r.Intn(2) == 0 {
			f.Save = r.Intn(2)
		}
		f.Type = []int{0, 0, 0, 3}[r.Intn(4)]
		if !f.IsLast && r.Intn(4) == 0 {
			f.Type = 2
			f.SBCT = r.Intn(8) == 0
			if r.Intn(4) == 0 {
				f.Crop = true
				f.W, f.H = h.W+r.Intn(4), h.H+r.Intn(4)
			}
		} else {
			if r.Intn(2) == 0 {
				f.Crop = true
				f.W, f.H = 1+r.Intn(h.W+3), 1+r.Intn(h.H+3)
				f.X0, f.Y0 = r.Intn(h.W+4)-3, r.Intn(h.H+4)-3
				if r.Intn(12) == 0 {
					f.X0 = []int{-f.W, h.W, -f.W - 5, h.W + 300}[r.Intn(4)]
				}
			}
			nec := len(h.ECs)
			f.Bl = randBlend(r, nec, false)
			for i := range f.ECBl {
				f.ECBl[i] = randBlend(r, nec, false)
			}
			if r.Intn(8) > 0 { // consistent blending
				src := r.Intn(2)
				var al []int
				for i, e := range h.ECs {
					if e.Type == 0 {
						al = append(al, i)
					}
				}
				fix := func(b *Blend) {
					if b.Mode == 2 || b.Mode == 3 {
						b.Src = src
						if len(al) == 0 && b != &f.Bl {
							b.Mode = []int{0, 1, 4}[r.Intn(3)]
						} else if len(al) > 0 {
							b.Alpha = al[r.Intn(len(al))]
							f.ECBl[b.Alpha].Src = src
							if b.Mode == 2 {
								f.ECBl[b.Alpha].Mode = 2
								f.ECBl[b.Alpha].Alpha = b.Alpha
							}
						}
					}
				}
				fix(&f.Bl)
				for i := range f.ECBl {
					fix(&f.ECBl[i])
				}
			}
			if len(h.ECs) == 0 {
				f.Bl.Alpha = 0
			}
			f.SBCT = r.Intn(20) == 0
		}
		o := &FrameOpts{F: f, Xf: XfOpts{Max: 1, IDs: []int{0, 0, 1}, Keep: 8}, TreeSz: 2, Style: -1, VStyle: -1}
		if r.Intn(5) > 0 {
			seed := r.Int63()
			wide := r.Intn(4) == 0
			o.Val = func(ch, x, y int) int {
				b := h.D.Bits
				if ch >= h.nc() {
					b = h.ECs[ch-h.nc()].D.Bits
				}
				m := 1<<uint(b) - 1
				q := rand.New(rand.NewSource(seed + int64(ch*10000+y*100+x)))
				v := q.Intn(m + 1)
				switch q.Intn(6) {
				case 0:
					v = 0
				case 1:
					v = m
				}
				if wide {
					v += q.Intn(m+2) - m/2
				}
				return v
			}
		}
		writeFrame(r, w, h.nc(), len(h.ECs), o)
	}
	return imgCase{w.b, kind}
}

func init() {
	gens["C10"] = func(r *rand.Rand, n int, tier string, emit func(any)) {
		var cs []imgCase
		for i := 0; i < n; i++ {
			cs = append(cs, composed(r, 4, 1, "composition"))
		}
		runImages(r, cs, emit)
	}
	gens["C11"] = func(r *rand.Rand, n int, tier string, emit func(any)) {
		var cs []imgCase
		for i := 0; i < n; i++ {
			o := 1 + r.Intn(8)
			if r.Intn(2) == 0 {
				cs = append(cs, composed(r, 2, o, "orientation"))
				continue
			}
			h := plainHdr(r, 1+r.Intn(9), 1+r.Intn(9))
			switch r.Intn(8) {
			case 0:
				h.W = 1 + r.Intn(40)
			case 1:
				h.H = 1 + r.Intn(40)
			case 2:
				h.W, h.H = 129+r.Intn(20), 1+r.Intn(3) // two groups
			}
			h.Orient, h.Extra = o, true
			w := &BW{}
			h.write(r, w)
			f := plainF(h)
			writeFrame(r, w, h.nc(), len(h.ECs), &FrameOpts{F: f, Xf: XfOpts{Max: 1, IDs: []int{0, 1, 2}, Keep: 12}, TreeSz: 2, Style: -1, VStyle: -1})
			cs = append(cs, imgCase{w.b, "orientation"})
		}
		runImages(r, cs, emit)
	}
}
