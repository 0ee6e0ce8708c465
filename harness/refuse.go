package main

import "math/rand"

// withFeature writes an image that uses features this decoder does not have.
func withFeature(r *rand.Rand) imgCase {
	h := plainHdr(r, 1+r.Intn(6), 1+r.Intn(6))
	kind := []string{"animation", "preview", "noise", "patches", "splines", "several", "none"}[r.Intn(7)]
	n := 1 + r.Intn(3)
	if r.Intn(2) == 0 {
		h.Extra, h.Orient = true, 1+r.Intn(8)
	}
	switch kind {
	case "animation":
		h.Extra, h.Anim = true, true
	case "preview":
		h.Extra = true
		h.Prev = &[2]int{1 + r.Intn(4), 1 + r.Intn(4)}
		if r.Intn(3) == 0 {
			h.Prev = &[2]int{h.W, h.H}
		}
	}
	w := &BW{}
	h.write(r, w)
	small := func(f *FHdr) *FrameOpts {
		return &FrameOpts{F: f, Xf: XfOpts{Max: 1, IDs: []int{0}, Keep: 12}, TreeSz: 1, Style: -1, VStyle: -1}
	}
	if kind == "preview" && r.Intn(3) > 0 {
		f := plainF(h)
		f.W, f.H, f.ImgW, f.ImgH = h.Prev[0], h.Prev[1], h.Prev[0], h.Prev[1]
		writeFrame(r, w, h.nc(), len(h.ECs), small(f))
	}
	which := r.Intn(n)
	for k := 0; k < n; k++ {
		f := plainF(h)
		f.IsLast = k == n-1
		f.Anim = h.Anim
		if f.Anim {
			f.Dur = []int{0, 1, 5, 300}[r.Intn(4)]
			if f.IsLast {
				f.Dur = r.Intn(2)
			}
		}
		f.Save = r.Intn(4)
		if !f.IsLast {
			f.Type = []int{0, 2, 3}[r.Intn(3)]
			f.SBCT = r.Intn(3) == 0
		} else {
			f.Type = []int{0, 3}[r.Intn(2)]
		}
		o := small(f)
		if k == which {
			m := []int{1, 2, 16}
			switch kind {
			case "noise":
				f.Flags = 1
			case "patches":
				f.Flags = 2
			case "splines":
				f.Flags = 16
			case "several":
				f.Flags = uint64(m[r.Intn(3)] | m[r.Intn(3)])
			}
			if kind != "none" && kind != "animation" && kind != "preview" && r.Intn(2) == 0 {
				o.Pre = func(b *BW) { // what the feature brings along
					if f.Flags&2 != 0 { // a dictionary of no patches
						c := NewCoder(r, 10, [][]Sym{{{0, 0}}}, CoderOpts{})
						b.Append(c.hdr)
						c.Write(b, 0)
					}
					if f.Flags&16 != 0 { // one spline
						s := []Sym{{2, 0}, {1, 3}, {1, 4}, {0, 0}, {3, 1}, {4, 2}, {4, 5}}
						for i := 0; i < 128; i++ {
							s = append(s, Sym{5, int64(r.Intn(3))})
						}
						c := NewCoder(r, 6, [][]Sym{s}, CoderOpts{})
						b.Append(c.hdr)
						c.Write(b, 0)
					}
					if f.Flags&1 != 0 {
						for i := 0; i < 8; i++ {
							b.Put(uint64(r.Intn(1024)), 10)
						}
					}
				}
			}
		}
		if r.Intn(6) == 0 {
			f.Flags |= 128
		}
		if r.Intn(12) == 0 && k == which { // not a modular frame
			f.Mod = false
			f.write(r, w)
			w.Bool(false)
			w.Align()
			w.U32(r, 40, 0, 10, 1024, 14, 17408, 22, 4211712, 30)
			w.Align()
			w.Random(r, 320)
			continue
		}
		writeFrame(r, w, h.nc(), len(h.ECs), o)
	}
	return imgCase{w.b, kind}
}

func init() {
	gens["C18"] = func(r *rand.Rand, n int, tier string, emit func(any)) {
		var cs []imgCase
		for i := 0; i < n; i++ {
			c := withFeature(r)
			if r.Intn(10) == 0 {
				c.b = wrap(r, c.b)
			}
			cs = append(cs, c)
		}
		runImages(r, cs, emit)
	}
}
