package main

import (
	"math/rand"
)

// resolutions chooses by how much the colour and the extra channels of the frames are reduced;
// call it before the image header is written. The result puts it into a frame.
func resolutions(r *rand.Rand, h *HdrP) func(f *FHdr) {
	ups := []int{0, 1, 1, 1, 2, 2, 3}[r.Intn(7)]
	if len(h.ECs) == 0 && ups == 0 {
		ups = 1
	}
	for i := range h.ECs {
		e := &h.ECs[i]
		e.Shift = 0
		if r.Intn(3) == 0 {
			e.Shift = r.Intn(4)
		}
	}
	return func(f *FHdr) {
		f.Ups = ups
		for i, e := range h.ECs {
			t := max(ups, e.Shift)
			if t < 3 && r.Intn(3) == 0 {
				t += r.Intn(4 - t)
			}
			f.ECUps[i] = t - e.Shift
		}
	}
}

// upWeights writes transform data with weights of the image's own: close to those of a mean, mostly
func upWeights(xyb bool, mask int) func(r *rand.Rand, w *BW) {
	return func(r *rand.Rand, w *BW) {
		w.Put(0, 1)
		if xyb {
			w.Put(1, 1)
		}
		w.Put(uint64(mask), 3)
		for i, n := range []int{15, 55, 210} {
			if mask>>uint(i)&1 == 0 {
				continue
			}
			for k := 0; k < n; k++ {
				w.Put(half(0.04+(r.Float64()-0.4)*0.2), 16)
			}
		}
	}
}

// enlarged writes an image whose frames, or whose extra channels, are coded at a lower resolution.
func enlarged(r *rand.Rand, kind string) imgCase {
	h := plainHdr(r, 1+r.Intn(18), 1+r.Intn(18))
	h.D = Depth{8, 0}
	if r.Intn(4) == 0 {
		h.D.Bits = 1 + r.Intn(12)
	}
	if kind == "extra" && len(h.ECs) == 0 {
		h.ECs = append(h.ECs, EC{Type: 1, D: Depth{8, 0}})
	}
	res := resolutions(r, h)
	if kind == "groups" {
		h.Gray = true
		h.W, h.H = 200+r.Intn(150), 1+r.Intn(12)
		if r.Intn(2) == 0 {
			h.W, h.H = h.H, h.W
		}
	}
	if r.Intn(5) == 0 {
		h.Orient, h.Extra = 1+r.Intn(8), true
	}
	if r.Intn(4) == 0 {
		h.TD = upWeights(false, 1+r.Intn(7))
	}
	w := &BW{}
	h.write(r, w)
	n := 1
	if kind == "layers" {
		n = 2 + r.Intn(2)
	}
	for k := 0; k < n; k++ {
		f := plainF(h)
		res(f)
		f.GShift = r.Intn(4)
		if kind == "groups" {
			f.GShift = 0
		}
		f.IsLast = k == n-1
		if kind == "extra" {
			f.Ups = 0
			for i, e := range h.ECs {
				f.ECUps[i] = r.Intn(4 - e.Shift)
			}
		}
		if kind == "layers" {
			f.Save = r.Intn(2)
			if r.Intn(3) == 0 {
				f.Ups = 0 // a layer that is not reduced
			}
			if !f.IsLast && r.Intn(4) == 0 {
				f.Type = 2
			} else {
				mode := func() int { return []int{0, 0, 1}[r.Intn(3)] }
				f.Bl = Blend{Mode: mode(), Src: r.Intn(2)}
				for i := range f.ECBl {
					f.ECBl[i] = Blend{Mode: mode(), Src: r.Intn(2)}
				}
				if r.Intn(6) == 0 {
					f.Bl.Mode = 2 + r.Intn(3)
				}
			}
			if f.Type == 0 && r.Intn(2) == 0 {
				f.Crop = true
				f.W, f.H = 1+r.Intn(h.W+3), 1+r.Intn(h.H+3)
				f.X0, f.Y0 = r.Intn(h.W+4)-3, r.Intn(h.H+4)-3
			}
		}
		o := &FrameOpts{F: f, Xf: XfOpts{Max: 1, IDs: []int{0, 1, 2}, Keep: 12}, TreeSz: 2, Style: -1, VStyle: -1}
		if r.Intn(3) > 0 {
			seed := r.Int63()
			flat := r.Intn(2) == 0
			o.Val = func(ch, x, y int) int {
				b := h.D.Bits
				if ch >= h.nc() {
					b = h.ECs[ch-h.nc()].D.Bits
				}
				m := 1<<uint(b) - 1
				q := rand.New(rand.NewSource(seed + int64(ch*1000000+y*1000+x)))
				v := q.Intn(m + 1)
				if flat {
					v = m * ((x/3 + y/2) & 1)
				}
				if q.Intn(9) == 0 {
					v = -v
				}
				return v
			}
		}
		writeFrame(r, w, h.nc(), len(h.ECs), o)
	}
	return imgCase{w.b, kind}
}

func init() {
	gens["C20"] = func(r *rand.Rand, n int, tier string, emit func(any)) {
		var cs []imgCase
		kinds := []string{"enlarged", "enlarged", "extra", "layers", "layers", "lossy", "groups"}
		for i := 0; i < n; i++ {
			k := kinds[r.Intn(len(kinds))]
			if k == "groups" && r.Intn(3) > 0 {
				k = "enlarged"
			}
			if k == "lossy" {
				cs = append(cs, vdImage(r, "enlarged"))
			} else {
				cs = append(cs, enlarged(r, k))
			}
		}
		runImages(r, cs, emit)
	}
}
