package main

import (
	"math"
	"math/rand"
	"os"
	"strings"
)

// filtered writes an image of losslessly coded frames that are smoothed, filtered along their
// edges, or coded in XYB or YCbCr.
func filtered(r *rand.Rand, kind string) imgCase {
	h := plainHdr(r, 1+r.Intn(26), 1+r.Intn(26))
	h.D = Depth{8, 0}
	h.Gray = false
	if r.Intn(5) == 0 {
		h.D.Bits = 2 + r.Intn(7)
	}
	if r.Intn(4) == 0 {
		h.W, h.H = 1+r.Intn(9), 1+r.Intn(9)
	}
	if r.Intn(3) > 0 {
		h.ECs = nil
	}
	if kind == "ycbcr" && r.Intn(6) == 0 { // several groups
		h.W, h.H = 129+r.Intn(12), 1+r.Intn(9)
		if r.Intn(2) == 0 {
			h.W, h.H = h.H, h.W
		}
	}
	yccc, epf, gab := false, false, false
	switch kind {
	case "xyb":
		h.XYB = true
	case "space":
		h.XYB = true
		h.Gray = r.Intn(6) == 0
	case "ycbcr":
		yccc = true
		h.Gray = r.Intn(5) == 0
	case "edges":
		epf = true
	case "soft":
		gab = true
		h.Gray = r.Intn(4) == 0
	default: // several of them
		h.XYB = r.Intn(2) == 0
		yccc = !h.XYB && r.Intn(2) == 0
		epf = r.Intn(3) > 0
		gab = !epf && r.Intn(2) == 0
	}
	res := func(*FHdr) {}
	if kind == "mixed" && r.Intn(3) == 0 {
		res = resolutions(r, h)
	}
	if h.TD != nil {
		h.TD = upWeights(h.XYB, 1+r.Intn(7))
	}
	if kind == "mixed" && r.Intn(6) == 0 {
		h.TD = upWeights(h.XYB, 1+r.Intn(7))
	}
	if r.Intn(6) == 0 {
		h.Orient, h.Extra = 1+r.Intn(8), true
	}
	if kind == "space" {
		space(r, h)
	}
	w := &BW{}
	h.write(r, w)
	n := 1
	if kind == "mixed" && r.Intn(3) == 0 {
		n = 2
	}
	for k := 0; k < n; k++ {
		f := plainF(h)
		res(f)
		f.XYB, f.YCC = h.XYB, yccc
		f.GShift = r.Intn(4)
		if yccc && r.Intn(2) == 0 {
			f.Jpeg = [3]int{r.Intn(4), r.Intn(4), r.Intn(4)}
		}
		f.IsLast = k == n-1
		if n > 1 {
			f.Save = r.Intn(2)
			f.Bl = Blend{Mode: r.Intn(2), Src: r.Intn(2)}
			if r.Intn(2) == 0 {
				f.Crop = true
				f.W, f.H = 1+r.Intn(h.W+3), 1+r.Intn(h.H+3)
				f.X0, f.Y0 = r.Intn(h.W+4)-3, r.Intn(h.H+4)-3
			}
			if !f.IsLast && r.Intn(3) == 0 {
				f.Type, f.Crop, f.X0, f.Y0, f.W, f.H = 2, false, 0, 0, h.W, h.H
				f.SBCT = r.Intn(2) == 0
			}
		}
		own := epf && (k == 0 || r.Intn(2) == 0)
		f.RF = func(r *rand.Rand, w *BW, mod bool) {
			if own {
				w.Put(1, 1)
				return
			}
			w.Put(0, 1)
			w.Bool(gab)
			if gab {
				c := r.Intn(2) == 0
				w.Bool(c)
				if c {
					for i := 0; i < 6; i++ {
						w.Put(half(r.Float64()*0.3), 16)
					}
				}
			}
			w.Put(0, 2)
			w.U64(0)
		}
		o := &FrameOpts{F: f, Xf: XfOpts{Max: 1, IDs: []int{0, 1, 2}, Keep: 12}, TreeSz: 2, Style: -1, VStyle: -1, Steps: !(h.XYB && h.Gray)}
		m := 1<<uint(h.D.Bits) - 1
		pics := [3]func(x, y int) float64{picture(r), picture(r), picture(r)}
		noise := [3]float64{}
		for c := range noise {
			noise[c] = []float64{0, 0.002, 0.006, 0.02}[r.Intn(4)]
		}
		if epf && r.Intn(3) > 0 { // differences the filter does not take for edges
			for c := r.Intn(2); c >= 0; c-- {
				v := r.Float64()
				pics[c], noise[c] = func(x, y int) float64 { return v }, noise[c]/10
			}
		}
		seed := r.Int63()
		wild := r.Intn(8) == 0 && kind != "space"
		o.Val = func(ch, x, y int) int {
			q := rand.New(rand.NewSource(seed + int64(ch*1000000+y*1000+x)))
			if ch >= h.nc() && !((h.XYB || yccc) && ch < 3) {
				return q.Intn(256)
			}
			p := func(c int) float64 { return pics[c%3](x, y) + noise[c%3]*q.NormFloat64() }
			v := p(ch)
			if h.XYB {
				v = math.Max(-0.1, math.Min(1.1, v))
			}
			if wild {
				v += 2 * (q.Float64() - 0.5)
			}
			if yccc && h.Gray && ch != 1 {
				return 0
			}
			if h.XYB && h.Gray { // X is none, B equals Y
				k := int(math.Round(v * 200))
				return []int{2 * k, 0, -k}[ch]
			}
			switch {
			case h.XYB:
				return int(math.Round([]float64{v * 400, (v - 0.5) * 100, (v - 0.5) * 120}[ch]))
			case yccc:
				return int(math.Round((v - 0.5) * float64(m)))
			}
			return int(math.Round(v * float64(m)))
		}
		nc := h.nc()
		if h.XYB || yccc {
			nc = 3
		}
		writeFrame(r, w, nc, len(h.ECs), o)
	}
	return imgCase{w.b, kind}
}

// picture is a surface with some edges, mostly between 0 and 1
func picture(r *rand.Rand) func(x, y int) float64 {
	a, b, c := r.Float64(), r.NormFloat64()/60, r.NormFloat64()/60
	type edge struct{ nx, ny, d, h float64 }
	var es []edge
	for i := r.Intn(4); i > 0; i-- {
		t := r.Float64() * 2 * math.Pi
		es = append(es, edge{math.Cos(t), math.Sin(t), r.Float64() * 20, r.NormFloat64() / []float64{5, 20, 60}[r.Intn(3)]})
	}
	return func(x, y int) float64 {
		v := a + b*float64(x) + c*float64(y)
		for _, e := range es {
			if e.nx*float64(x)+e.ny*float64(y) > e.d {
				v += e.h
			}
		}
		return v
	}
}

func init() {
	gens["C21"] = func(r *rand.Rand, n int, tier string, emit func(any)) {
		var cs []imgCase
		kinds := []string{"xyb", "ycbcr", "ycbcr", "edges", "edges", "soft", "mixed", "mixed"}
		if k := os.Getenv("VDKINDS"); k != "" {
			kinds = strings.Split(k, ",")
		}
		for i := 0; i < n; i++ {
			cs = append(cs, filtered(r, kinds[r.Intn(len(kinds))]))
		}
		runImages(r, cs, emit)
	}
}
