package main

import (
	"bytes"
	"fmt"
	"math/rand"

	"github.com/kpfaulkner/jxl-go/entropy"
	"github.com/kpfaulkner/jxl-go/jxlio"
)

// EnTrace is one code description read by the real decoder and the symbols it then returned.
type EnTrace struct {
	Bytes []int  `json:"bytes"`
	N     int    `json:"n"`    // contexts
	NoLZ  bool   `json:"nolz"` // LZ77 not allowed
	Skip  int    `json:"skip"` // bits before the description
	Ctx   []int  `json:"ctx"`
	Mult  []int  `json:"mult"`
	Kind  string `json:"kind"`
	Msg   string `json:"msg"`
	// results
	Err  bool  `json:"err"` // description refused
	Pan  bool  `json:"pan"`
	P0   int   `json:"p0"`   // bits after the description
	V    []int `json:"v"`    // symbols
	SErr int   `json:"serr"` // 0, or 1-based number of the symbol read that failed
	P1   int   `json:"p1"`   // bits after the symbols
	Fin  bool  `json:"fin"`  // final state accepted
}

func runEntropy(t *EnTrace, b []byte) {
	defer func() {
		if e := recover(); e != nil {
			t.Pan = true
			t.Msg = fmt.Sprint("panic: ", e)
		}
	}()
	t.V = []int{}
	br := jxlio.NewBitStreamReader(bytes.NewReader(b))
	br.SkipBits(uint32(t.Skip))
	es, err := entropy.NewEntropyStreamWithReader(br, t.N, t.NoLZ, entropy.ReadClusterMap)
	if err != nil {
		t.Err = true
		t.Msg = err.Error()
		return
	}
	t.P0 = int(br.BitsRead())
	for i, c := range t.Ctx {
		var v int32
		if t.Mult[i] == 0 {
			v, err = es.ReadSymbol(br, c)
		} else {
			v, err = es.ReadSymbolWithMultiplier(br, c, int32(t.Mult[i]))
		}
		if err != nil {
			t.SErr = i + 1
			return
		}
		t.V = append(t.V, int(v))
	}
	t.P1 = int(br.BitsRead())
	t.Fin = es.ValidateFinalState()
}

func randVal(r *rand.Rand, style int) int64 {
	switch style {
	case 0:
		return int64(r.Intn(4))
	case 1:
		return int64(r.Intn(40))
	case 2:
		return int64(r.Intn(1 << uint(1+r.Intn(12))))
	case 3:
		return int64(r.Intn(1 << uint(1+r.Intn(24))))
	}
	return int64(r.Intn(2)) * int64(r.Intn(6))
}

func init() {
	gens["C06"] = func(r *rand.Rand, n int, tier string, emit func(any)) {
		for i := 0; i < n; i++ {
			nctx := 1 + r.Intn(4)
			if r.Intn(4) == 0 {
				nctx = 1 + r.Intn(40)
			}
			ln := 1 + r.Intn(60)
			if r.Intn(10) == 0 {
				ln = 200 + r.Intn(200)
			}
			style := r.Intn(5)
			per := 0
			if r.Intn(3) == 0 {
				per = 1 + r.Intn(12)
			}
			one := r.Intn(8) == 0
			var st []Sym
			k := randVal(r, style)
			for j := 0; j < ln; j++ {
				v := randVal(r, style)
				if per > 0 && j >= per && r.Intn(12) > 0 {
					v = st[j-per].Val
				}
				if one {
					v = k
				}
				st = append(st, Sym{r.Intn(nctx), v})
			}
			t := &EnTrace{N: nctx, Skip: r.Intn(9), Kind: "valid"}
			mult := 0
			if r.Intn(2) == 0 {
				mult = 1 + r.Intn(20)
			}
			lz := 0
			if r.Intn(4) == 0 {
				lz = 1
			}
			if r.Intn(10) == 0 && lz == 0 {
				t.NoLZ = true
				lz = -1
			}
			c := NewCoder(r, nctx, [][]Sym{st}, CoderOpts{LZ: lz, Mult: []int{mult}})
			w := &BW{}
			w.Random(r, t.Skip)
			w.Append(c.hdr)
			hdrEnd := w.n
			c.Write(w, 0)
			end := w.n
			for _, s := range st {
				t.Ctx = append(t.Ctx, s.Ctx)
				t.Mult = append(t.Mult, mult)
			}
			b := w.b
			switch r.Intn(12) {
			case 0: // one bit flipped in the description
				p := t.Skip + r.Intn(hdrEnd-t.Skip)
				b[p/8] ^= 1 << uint(p%8)
				t.Kind = "flip-description"
			case 1: // one bit flipped in the symbols
				if end > hdrEnd {
					p := hdrEnd + r.Intn(end-hdrEnd)
					b[p/8] ^= 1 << uint(p%8)
					t.Kind = "flip-symbols"
				}
			case 2: // random symbols under the description
				for p := hdrEnd; p < end; p++ {
					b[p/8] &^= 1 << uint(p%8)
					b[p/8] |= byte(r.Intn(2)) << uint(p%8)
				}
				t.Kind = "random-symbols"
			case 3: // random description
				if r.Intn(2) == 0 {
					for p := t.Skip + r.Intn(12); p < hdrEnd; p++ {
						b[p/8] &^= 1 << uint(p%8)
						b[p/8] |= byte(r.Intn(2)) << uint(p%8)
					}
					t.Kind = "random-description"
				}
			}
			if t.Kind != "valid" || r.Intn(3) == 0 {
				for j := 0; j < 40; j++ {
					b = append(b, byte(r.Intn(256)))
				}
			} else {
				if r.Intn(2) == 0 {
					b = append(b, 0, 0, 0, 0)
				}
			}
			t.Bytes = ints(b)
			runEntropy(t, b)
			emit(t)
		}
	}
}
