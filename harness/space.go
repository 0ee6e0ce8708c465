package main

import (
	"math/rand"
)

// The colour spaces of XYB images: what the file's colours are to be turned into.

var spacePrims = map[int][6]int64{
	1:  {639999, 330010, 300004, 600003, 150002, 59997},
	9:  {708000, 292000, 170000, 797000, 131000, 46000},
	11: {680000, 320000, 265000, 690000, 150000, 60000},
}
var spaceWhites = map[int][2]int64{1: {312700, 329000}, 10: {333333, 333333}, 11: {314000, 351000}}

// spaceCE writes the colours of an XYB image: one of the named spaces, by its name or by its chromaticities.
func spaceCE(grey bool) func(r *rand.Rand, w *BW) {
	return func(r *rand.Rand, w *BW) {
		xy := func(v int64) { w.U32(r, 2*v, 0, 19, 524288, 19, 1048576, 20, 2097152, 21) }
		w.Put(0, 1)
		w.Bool(false)
		w.Enum(r, map[bool]int{true: 1, false: 0}[grey])
		wp := []int{1, 1, 10, 11}[r.Intn(4)]
		if r.Intn(4) == 0 {
			w.Enum(r, 2)
			for _, v := range spaceWhites[wp] {
				xy(v)
			}
		} else {
			w.Enum(r, wp)
		}
		if !grey {
			pr := []int{1, 9, 11}[r.Intn(3)]
			if r.Intn(4) == 0 {
				w.Enum(r, 2)
				for _, v := range spacePrims[pr] {
					xy(v)
				}
			} else {
				w.Enum(r, pr)
			}
		}
		g := r.Intn(5) == 0
		w.Bool(g)
		if g {
			w.Put(uint64(1221+r.Intn(9990000)), 24)
		} else {
			w.Enum(r, []int{1, 8, 13, 16, 17, 18}[r.Intn(6)])
		}
		w.Enum(r, r.Intn(4))
	}
}

// spaceTM writes the intensity of the largest sample.
func spaceTM(r *rand.Rand, w *BW) {
	w.Put(0, 1)
	t := []float64{100, 203, 254, 256, 300, 400, 1000, 4000, 10000, 64 + r.Float64()*1000, 64 + r.Float64()*10000}[r.Intn(11)]
	w.Put(half(t), 16)
	if r.Intn(3) == 0 {
		w.Put(half(r.Float64()), 16)
		w.Bool(true)
		w.Put(half(r.Float64()*0.9), 16)
	} else {
		w.Put(0, 16)
		w.Bool(false)
		w.Put(0, 16)
	}
}

// spaceOpsin writes transform data with a mix of the image's own.
func spaceOpsin(r *rand.Rand, w *BW) {
	w.Put(0, 1)
	w.Put(0, 1)
	m := [9]float64{11.031566901960783, -9.866943921568629, -0.16462299647058826, -3.254147380392157, 4.418770392156863, -0.16462299647058826,
		-3.6588512862745097, 2.7129230470588235, 1.9459282392156863}
	kind := r.Intn(4)
	s := 0.5 + r.Float64()/2
	for i := range m {
		switch kind {
		case 0: // close to the usual one
			m[i] *= s * (0.9 + r.Float64()/5)
		case 1:
			m[i] = r.NormFloat64()
		case 2: // the colours change places
			m[i] = 0
			if (i/3+1)%3 == i%3 {
				m[i] = s
			}
		}
		if m[i] > 15 {
			m[i] = 15
		}
		w.Put(half(m[i]), 16)
	}
	for i := 0; i < 3; i++ {
		b := -0.0037930732552754493
		switch r.Intn(4) {
		case 0:
			b *= r.Float64() * 4
		case 1:
			b = (r.Float64() - 0.5) / 5
		case 2:
			if r.Intn(2) == 0 {
				b = 0
			}
		}
		w.Put(half(b), 16)
	}
	for i := 0; i < 3; i++ {
		w.Put(half(0.8+r.Float64()*0.4), 16)
	}
	w.Put(half(float64(r.Intn(300))/1024), 16)
	mask := 0
	w.Put(uint64(mask), 3)
}

// space makes an XYB header name another space than the usual one.
func space(r *rand.Rand, h *HdrP) {
	k := 1 + r.Intn(7)
	if r.Intn(2) == 0 {
		k = 1
	}
	if h.Gray { // grey is grey in all of them
		k = k&3 | 1
	}
	if k&1 != 0 {
		h.CE = spaceCE(h.Gray)
	}
	if k&2 != 0 {
		h.TM, h.Extra = spaceTM, true
	}
	if k&4 != 0 {
		h.TD = spaceOpsin
	}
}

func init() {
	gens["C22"] = func(r *rand.Rand, n int, tier string, emit func(any)) {
		var cs []imgCase
		for i := 0; i < n; i++ {
			if r.Intn(3) > 0 {
				cs = append(cs, filtered(r, "space"))
			} else {
				cs = append(cs, vdImage(r, "space"))
			}
		}
		runImages(r, cs, emit)
	}
}
