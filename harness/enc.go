package main

import (
	"math/rand"
	"sort"
)

// BW writes bits LSB-first.
type BW struct {
	b []byte
	n int
}

func (w *BW) Put(v uint64, n int) {
	for i := 0; i < n; i++ {
		if w.n%8 == 0 {
			w.b = append(w.b, 0)
		}
		w.b[w.n/8] |= byte(v>>uint(i)&1) << uint(w.n%8)
		w.n++
	}
}
func (w *BW) Bool(v bool) {
	if v {
		w.Put(1, 1)
	} else {
		w.Put(0, 1)
	}
}
func (w *BW) Align() {
	if w.n%8 != 0 {
		w.Put(0, 8-w.n%8)
	}
}
func (w *BW) Bytes(b []byte) {
	for _, x := range b {
		w.Put(uint64(x), 8)
	}
}
func (w *BW) Append(o *BW) {
	for i := 0; i < o.n; i++ {
		w.Put(uint64(o.b[i/8]>>uint(i%8)&1), 1)
	}
}
func (w *BW) Random(r *rand.Rand, n int) {
	for i := 0; i < n; i++ {
		w.Put(uint64(r.Intn(2)), 1)
	}
}

// U32 writes v with a random selector able to carry it; reports whether one was found.
func (w *BW) U32(r *rand.Rand, v int64, tab ...int64) bool {
	var ok []int
	for s := 0; s < 4; s++ {
		if v >= tab[2*s] && v-tab[2*s] < 1<<uint(tab[2*s+1]) {
			ok = append(ok, s)
		}
	}
	if len(ok) == 0 {
		return false
	}
	s := ok[r.Intn(len(ok))]
	w.Put(uint64(s), 2)
	w.Put(uint64(v-tab[2*s]), int(tab[2*s+1]))
	return true
}
func (w *BW) Enum(r *rand.Rand, v int) { w.U32(r, int64(v), 0, 0, 1, 0, 2, 4, 18, 6) }
func (w *BW) U8(v int) {
	if v == 0 {
		w.Put(0, 1)
		return
	}
	n := 0
	for 1<<uint(n+1) <= v {
		n++
	}
	w.Put(1, 1)
	w.Put(uint64(n), 3)
	w.Put(uint64(v-1<<uint(n)), n)
}
func (w *BW) U16(v int) { // variable length 16-bit form of alphabet sizes
	if v == 0 {
		w.Put(0, 1)
		return
	}
	n := 0
	for 1<<uint(n+1) <= v {
		n++
	}
	w.Put(1, 1)
	w.Put(uint64(n), 4)
	w.Put(uint64(v-1<<uint(n)), n)
}
func (w *BW) U64(v uint64) {
	switch {
	case v == 0:
		w.Put(0, 2)
	case v <= 16:
		w.Put(1, 2)
		w.Put(v-1, 4)
	case v <= 272:
		w.Put(2, 2)
		w.Put(v-17, 8)
	default:
		w.Put(3, 2)
		w.Put(v&0xfff, 12)
		v >>= 12
		sh := 12
		for v != 0 {
			if sh == 60 {
				w.Put(1, 1)
				w.Put(v&15, 4)
				return
			}
			w.Put(1, 1)
			w.Put(v&255, 8)
			v >>= 8
			sh += 8
		}
		w.Put(0, 1)
	}
}

func ceilLog2(n int) int {
	k := 0
	for 1<<uint(k) < n {
		k++
	}
	return k
}

// ---------------------------------------------------------------------------
// hybrid integers

type HCfg struct{ se, msb, lsb int }

func randCfg(r *rand.Rand, logAlpha, maxSe int) HCfg {
	se := r.Intn(maxSe + 1)
	if se > logAlpha {
		se = logAlpha
	}
	if se == logAlpha {
		return HCfg{se, 0, 0}
	}
	msb := r.Intn(se + 1)
	lsb := r.Intn(se - msb + 1)
	if r.Intn(3) == 0 {
		lsb = 0
	}
	return HCfg{se, msb, lsb}
}
func (c HCfg) write(w *BW, logAlpha int) {
	w.Put(uint64(c.se), ceilLog2(logAlpha+1))
	if c.se == logAlpha {
		return
	}
	w.Put(uint64(c.msb), ceilLog2(c.se+1))
	w.Put(uint64(c.lsb), ceilLog2(c.se-c.msb+1))
}

// enc returns token, extra bits value and count.
func (c HCfg) enc(v int64) (int, uint64, int) {
	if v < 1<<uint(c.se) {
		return int(v), 0, 0
	}
	n := 0
	for int64(1)<<uint(n+1) <= v {
		n++
	}
	m := v - int64(1)<<uint(n)
	tok := 1<<uint(c.se) + (n-c.se)<<uint(c.msb+c.lsb) + int(m>>uint(n-c.msb))<<uint(c.lsb) + int(m&(1<<uint(c.lsb)-1))
	nb := n - c.msb - c.lsb
	return tok, uint64(m>>uint(c.lsb)) & (1<<uint(nb) - 1), nb
}

// ---------------------------------------------------------------------------
// code distributions

type Dist struct {
	alpha int
	// prefix
	lens  []int
	codes []uint32 // MSB-first code value
	hdr   *BW
	// ANS
	freq []int
	slot [][]int // slot[s][k]: table index of the k-th slot of symbol s
}

// random complete code of k leaves, depth at most m
func randLens(r *rand.Rand, k, m int) []int {
	d := []int{0}
	for len(d) < k {
		var i int
		for {
			i = r.Intn(len(d))
			if d[i] < m {
				break
			}
		}
		d[i]++
		d = append(d, d[i])
	}
	r.Shuffle(len(d), func(i, j int) { d[i], d[j] = d[j], d[i] })
	return d
}

func (d *Dist) assign() {
	d.codes = make([]uint32, len(d.lens))
	code := uint32(0)
	for l := 1; l <= 15; l++ {
		code <<= 1
		for s, x := range d.lens {
			if x == l {
				d.codes[s] = code
				code++
			}
		}
	}
}

func (d *Dist) putPrefix(w *BW, s int) {
	for i := d.lens[s] - 1; i >= 0; i-- {
		w.Put(uint64(d.codes[s]>>uint(i)&1), 1)
	}
}

// mkPrefix builds a prefix code in which every symbol of used has a code.
func mkPrefix(r *rand.Rand, used map[int]bool) *Dist {
	max := 0
	for s := range used {
		if s > max {
			max = s
		}
	}
	d := &Dist{alpha: max + 1, hdr: &BW{}}
	if r.Intn(3) == 0 {
		d.alpha += r.Intn(6)
	}
	n := len(used)
	if n == 0 {
		used[0] = true
		n = 1
	}
	d.lens = make([]int, d.alpha)
	if d.alpha == 1 {
		d.assign()
		return d
	}
	var syms []int
	for s := range used {
		syms = append(syms, s)
	}
	sort.Ints(syms)
	w := d.hdr
	if n == 1 && (d.alpha > 1) && r.Intn(3) > 0 || n <= 4 && r.Intn(2) == 0 {
		r.Shuffle(n, func(i, j int) { syms[i], syms[j] = syms[j], syms[i] })
		w.Put(1, 2)
		w.Put(uint64(n-1), 2)
		for _, s := range syms {
			w.Put(uint64(s), ceilLog2(d.alpha))
		}
		switch n {
		case 1:
		case 2:
			d.lens[syms[0]], d.lens[syms[1]] = 1, 1
		case 3:
			d.lens[syms[0]], d.lens[syms[1]], d.lens[syms[2]] = 1, 2, 2
		case 4:
			if r.Intn(2) == 0 {
				w.Put(1, 1)
				d.lens[syms[0]], d.lens[syms[1]], d.lens[syms[2]], d.lens[syms[3]] = 1, 2, 3, 3
			} else {
				w.Put(0, 1)
				for _, s := range syms {
					d.lens[s] = 2
				}
			}
		}
		d.assign()
		return d
	}
	// complex: at least two symbols; occasionally more than needed
	if n < 2 || r.Intn(4) == 0 {
		for i := 0; i < 1+r.Intn(4) || len(used) < 2; i++ {
			used[r.Intn(d.alpha)] = true
		}
		syms = nil
		for s := range used {
			syms = append(syms, s)
		}
		sort.Ints(syms)
		n = len(syms)
	}
	ls := randLens(r, n, 15)
	if r.Intn(4) == 0 { // flat code when possible
		k := ceilLog2(n)
		if 1<<uint(k) == n {
			for i := range ls {
				ls[i] = k
			}
		}
	}
	for i, s := range syms {
		d.lens[s] = ls[i]
	}
	d.assign()
	d.hdr = writeLens(r, d.lens)
	return d
}

type clTok struct{ s, extra, nb int }

// writeLens writes a complex prefix code description with random use of the repeat codes.
func writeLens(r *rand.Rand, lens []int) *BW {
	last := len(lens) - 1
	for lens[last] == 0 {
		last--
	}
	var toks []clTok
	prev := 8
	useRep := r.Intn(4) > 0
	for i := 0; i <= last; {
		run := 1
		for i+run <= last && lens[i+run] == lens[i] {
			run++
		}
		emit := func(sym, rem, xb int) int { // chain of repeat codes covering at most rem entries
			done, rep := 0, 0
			for {
				base := 0
				if rep > 0 {
					base = (rep - 2) << uint(xb)
				}
				lo, hi := base+3, base+3+(1<<uint(xb))-1
				if lo-rep > rem-done {
					return done
				}
				nw := lo + r.Intn(hi-lo+1)
				if nw-rep > rem-done {
					nw = lo + (rem - done) - (lo - rep)
				}
				toks = append(toks, clTok{sym, nw - lo, xb})
				done += nw - rep
				rep = nw
				if done >= rem || r.Intn(3) == 0 {
					return done
				}
			}
		}
		if useRep && r.Intn(4) > 0 && lens[i] == 0 && run >= 3 {
			// two separate chains of the same code would be read as one: a chain ends only at a literal
			if len(toks) == 0 || toks[len(toks)-1].s != 17 {
				i += emit(17, run, 3)
				continue
			}
		} else if useRep && r.Intn(4) > 0 && lens[i] == prev && run >= 3 && lens[i] != 0 {
			if len(toks) == 0 || toks[len(toks)-1].s != 16 {
				i += emit(16, run, 2)
				continue
			}
		}
		toks = append(toks, clTok{lens[i], 0, 0})
		if lens[i] != 0 {
			prev = lens[i]
		}
		i++
	}
	used := map[int]bool{}
	for _, t := range toks {
		used[t.s] = true
	}
	order := []int{1, 2, 3, 4, 0, 5, 17, 6, 16, 7, 8, 9, 10, 11, 12, 13, 14, 15}
	cl := make([]int, 18)
	var us []int
	for s := range used {
		us = append(us, s)
	}
	sort.Ints(us)
	single := len(us) == 1
	if single {
		cl[us[0]] = 1 + r.Intn(5)
	} else {
		for i, l := range randLens(r, len(us), 5) {
			cl[us[i]] = l
		}
	}
	hskip := 0
	if cl[1] == 0 && cl[2] == 0 {
		if cl[3] == 0 && r.Intn(3) > 0 {
			hskip = 3
		} else if r.Intn(3) > 0 {
			hskip = 2
		}
	}
	w := &BW{}
	w.Put(uint64(hskip), 2)
	clcode := [][2]int{{0, 2}, {7, 4}, {3, 3}, {2, 2}, {1, 2}, {15, 4}} // LSB-first value, length
	space := 32
	for i := hskip; i < 18 && space > 0; i++ {
		c := clcode[cl[order[i]]]
		w.Put(uint64(c[0]), c[1])
		if cl[order[i]] > 0 {
			space -= 32 >> uint(cl[order[i]])
		}
	}
	dd := &Dist{lens: cl}
	if single {
		dd.lens = make([]int, 18)
	}
	dd.assign()
	for _, t := range toks {
		dd.putPrefix(w, t.s)
		w.Put(uint64(t.extra), t.nb)
	}
	return w
}

var lcVals = [][3]int{ // log count -> LSB-first bits, length
	{17, 5, 0}, {11, 4, 0}, {15, 4, 0}, {3, 4, 0}, {9, 4, 0}, {7, 4, 0}, {4, 3, 0}, {2, 3, 0}, {5, 3, 0}, {6, 3, 0}, {0, 3, 0}, {33, 6, 0}, {1, 7, 0}, {65, 7, 0}}

// mkAns builds an ANS histogram in which every symbol of used is possible.
func mkAns(r *rand.Rand, used map[int]bool, logAlpha int) *Dist {
	size := 1 << uint(logAlpha)
	if len(used) == 0 {
		used[0] = true
	}
	var syms []int
	for s := range used {
		if s >= size {
			return nil
		}
		syms = append(syms, s)
	}
	sort.Ints(syms)
	n := len(syms)
	max := syms[n-1]
	d := &Dist{hdr: &BW{}}
	w := d.hdr
	mode := r.Intn(4)
	switch {
	case n == 1 && mode < 3:
		w.Put(1, 2)
		w.U8(syms[0])
		d.freq = make([]int, syms[0]+1)
		d.freq[syms[0]] = 4096
	case n <= 2 && mode < 2:
		a, b := syms[0], 0
		if n == 2 {
			b = syms[1]
		} else {
			b = (a + 1) % size
		}
		if r.Intn(2) == 0 {
			a, b = b, a
		}
		f := 1 + r.Intn(4095)
		if n == 1 && r.Intn(2) == 0 { // the first peak has no weight
			if a == syms[0] {
				a, b = b, a
			}
			f = 0
		}
		w.Put(3, 2)
		w.U8(a)
		w.U8(b)
		w.Put(uint64(f), 12)
		if a > b {
			d.freq = make([]int, a+1)
		} else {
			d.freq = make([]int, b+1)
		}
		d.freq[a] = f
		d.freq[b] = 4096 - f
	case mode == 0 && max < 60 || mode == 1:
		k := max + 1
		if r.Intn(2) == 0 && k < size {
			k += r.Intn(size - k)
		}
		w.Put(2, 2)
		w.U8(k - 1)
		d.freq = make([]int, k)
		for i := range d.freq {
			d.freq[i] = 4096 / k
			if i < 4096%k {
				d.freq[i]++
			}
		}
	default:
		full := func() bool {
			k := max + 1
			if k < 3 {
				k = 3
			}
			if r.Intn(3) == 0 && k < size {
				k += r.Intn(size - k + 1)
			}
			shift := r.Intn(14)
			lc := make([]int, k)
			fr := make([]int, k)
			low := r.Intn(3) == 0
			tot := 0
			for _, s := range syms {
				c := 1 + r.Intn(9)
				if low {
					c = 1 + r.Intn(4)
				}
				lc[s] = c
			}
			// at most one symbol above the rest becomes the omitted one
			om := syms[r.Intn(n)]
			lc[om] = 10 + r.Intn(3)
			if r.Intn(2) == 0 {
				lc[om] = 12
			}
			type xb struct{ v, n int }
			ex := make([]xb, k)
			for s := 0; s < k; s++ {
				c := lc[s]
				if s == om || c == 0 {
					continue
				}
				if c == 1 {
					fr[s] = 1
				} else {
					bc := shift - (13-c)/2
					if bc < 0 {
						bc = 0
					}
					if bc > c-1 {
						bc = c - 1
					}
					v := r.Intn(1 << uint(bc))
					ex[s] = xb{v, bc}
					fr[s] = 1<<uint(c-1) + v<<uint(c-1-bc)
				}
				tot += fr[s]
			}
			if tot >= 4096 {
				return false
			}
			fr[om] = 4096 - tot
			if n == 1 {
				fr[om] = 4096
			}
			// header
			w.Put(0, 2)
			len1 := 0
			for 1<<uint(len1+1) <= shift+1 {
				len1++
			}
			for i := 0; i < len1; i++ {
				w.Put(1, 1)
			}
			if len1 < 3 {
				w.Put(0, 1)
			}
			w.Put(uint64(shift+1-1<<uint(len1)), len1)
			w.U8(k - 3)
			type run struct{ at, n int }
			skip := map[int]bool{}
			rle := r.Intn(3) > 0
			for i := 0; i < k; {
				// run of entries equal to the frequency before i (the omitted one excluded)
				if rle && i != om && i-1 != om {
					p := 0
					if i > 0 {
						p = fr[i-1]
					}
					m := 0
					for i+m < k && i+m != om && fr[i+m] == p {
						m++
					}
					if m >= 4 && r.Intn(4) > 0 {
						m = 4 + r.Intn(m-3)
						if m > 250 {
							m = 250
						}
						w.Put(uint64(lcVals[13][0]), lcVals[13][1])
						w.U8(m - 4)
						for j := 0; j < m; j++ {
							skip[i+j] = true
						}
						i += m
						continue
					}
				}
				w.Put(uint64(lcVals[lc[i]][0]), lcVals[lc[i]][1])
				i++
			}
			for s := 0; s < k; s++ {
				if !skip[s] && s != om {
					w.Put(uint64(ex[s].v), ex[s].n)
				}
			}
			d.freq = fr
			return true
		}
		for try := 0; ; try++ {
			if full() {
				break
			}
			if try > 40 {
				return mkAnsFlat(r, d, max, size)
			}
		}
	}
	if len(d.freq) > size {
		return nil
	}
	d.alias(logAlpha)
	return d
}

func mkAnsFlat(r *rand.Rand, d *Dist, max, size int) *Dist {
	d.hdr = &BW{}
	k := max + 1
	d.hdr.Put(2, 2)
	d.hdr.U8(k - 1)
	d.freq = make([]int, k)
	for i := range d.freq {
		d.freq[i] = 4096 / k
		if i < 4096%k {
			d.freq[i]++
		}
	}
	d.alias(ceilLog2(size))
	return d
}

// alias builds the reverse of the format's alias mapping, for encoding.
func (d *Dist) alias(logAlpha int) {
	size := 1 << uint(logAlpha)
	bs := 4096 / size
	f := make([]int, size)
	copy(f, d.freq)
	d.slot = make([][]int, size)
	for s := range d.slot {
		d.slot[s] = make([]int, f[s])
	}
	for s := range f {
		if f[s] == 4096 {
			for i := 0; i < 4096; i++ {
				d.slot[s][i] = i
			}
			return
		}
	}
	cut := append([]int{}, f...)
	sym := make([]int, size)
	off := make([]int, size)
	var over, under []int
	for i := range cut {
		if cut[i] > bs {
			over = append(over, i)
		} else if cut[i] < bs {
			under = append(under, i)
		}
	}
	for len(over) > 0 {
		o := over[len(over)-1]
		u := under[len(under)-1]
		over, under = over[:len(over)-1], under[:len(under)-1]
		cut[o] -= bs - cut[u]
		sym[u], off[u] = o, cut[o]
		if cut[o] < bs {
			under = append(under, o)
		} else if cut[o] > bs {
			over = append(over, o)
		}
	}
	for i := 0; i < 4096; i++ {
		b, pos := i/bs, i%bs
		if cut[b] == bs || pos < cut[b] {
			d.slot[b][pos] = i
		} else {
			d.slot[sym[b]][off[b]-cut[b]+pos] = i
		}
	}
}

// ---------------------------------------------------------------------------
// symbol coder: describes a code trained on the symbols it has to carry

type Sym struct {
	Ctx int
	Val int64
}

// a token to be written: cluster, token, extra bits
type etok struct {
	cl, tok int
	ex      uint64
	nb      int
}

type Coder struct {
	nctx     int
	lz       bool
	minSym   int
	minLen   int
	lzc      HCfg
	cmap     []int
	k        int
	ans      bool
	logAlpha int
	cfg      []HCfg
	dist     []*Dist
	hdr      *BW
	toks     [][]etok // per stream
}

type CoderOpts struct {
	ANS, Prefix bool // force
	LZ          int  // 0 random, 1 always, -1 never
	OneCluster  bool
	MaxClusters int
	Simple      bool  // plain and short descriptions
	Mult        []int // distance multiplier per stream (0 none)
	Extra       []int // extra tokens that must have a code in every cluster
	Depth       int
}

var special = [][2]int{{0, 1}, {1, 0}, {1, 1}, {-1, 1}, {0, 2}, {2, 0}, {1, 2}, {-1, 2}, {2, 1}, {-2, 1}, {2, 2},
	{-2, 2}, {0, 3}, {3, 0}, {1, 3}, {-1, 3}, {3, 1}, {-3, 1}, {2, 3}, {-2, 3}, {3, 2}, {-3, 2}, {0, 4}, {4, 0}, {1, 4}, {-1, 4}, {4, 1}, {-4, 1}}

// NewCoder builds a code able to carry the given streams.
func NewCoder(r *rand.Rand, nctx int, streams [][]Sym, o CoderOpts) *Coder {
	for {
		c := tryCoder(r, nctx, streams, o)
		if c != nil {
			return c
		}
	}
}

func tryCoder(r *rand.Rand, nctx int, streams [][]Sym, o CoderOpts) *Coder {
	c := &Coder{nctx: nctx, hdr: &BW{}}
	w := c.hdr
	c.lz = o.LZ > 0 || o.LZ == 0 && r.Intn(5) == 0
	c.ans = o.ANS || !o.Prefix && r.Intn(2) == 0
	if c.ans {
		c.logAlpha = 5 + r.Intn(4)
	} else {
		c.logAlpha = 15
	}
	n := nctx
	if c.lz {
		n++
		if c.ans {
			c.minSym = 8 + r.Intn(24)
			if c.logAlpha == 8 && r.Intn(2) == 0 {
				c.minSym = 224
			}
		} else {
			c.minSym = 8 + r.Intn(60)
			switch r.Intn(6) {
			case 0:
				c.minSym = 224
			case 1:
				c.minSym = 512
			}
		}
		c.minLen = []int{3, 4, 5, 5 + r.Intn(4), 9 + r.Intn(5)}[r.Intn(5)]
		c.lzc = randCfg(r, 8, 8)
	}
	// clustering
	maxk := n
	if o.MaxClusters > 0 && maxk > o.MaxClusters {
		maxk = o.MaxClusters
	}
	if maxk > 12 {
		maxk = 12
	}
	k := 1 + r.Intn(maxk)
	if o.OneCluster {
		k = 1
	}
	c.cmap = make([]int, n)
	perm := r.Perm(n)
	for i, p := range perm {
		if i < k {
			c.cmap[p] = i
		} else {
			c.cmap[p] = r.Intn(k)
		}
	}
	c.k = k
	c.cfg = make([]HCfg, k)
	for i := range c.cfg {
		c.cfg[i] = randCfg(r, c.logAlpha, 7)
		if o.Simple {
			c.cfg[i] = HCfg{4, 1 + r.Intn(2), r.Intn(2)}
		}
	}
	// tokens
	used := make([]map[int]bool, k)
	for i := range used {
		used[i] = map[int]bool{}
		for _, x := range o.Extra {
			used[i][x] = true
		}
	}
	lim := 1 << uint(c.logAlpha)
	if !c.ans {
		lim = 2000
	}
	add := func(e etok, out *[]etok) bool {
		if e.tok >= lim {
			return false
		}
		used[e.cl][e.tok] = true
		*out = append(*out, e)
		return true
	}
	dcl := c.cmap[n-1]
	for si, st := range streams {
		mult := 0
		if si < len(o.Mult) {
			mult = o.Mult[si]
		}
		var out []etok
		for i := 0; i < len(st); {
			cl := c.cmap[st[i].Ctx]
			if c.lz && r.Intn(3) == 0 {
				// look for a match
				best, bd := 0, 0
				for try := 0; try < 12 && i > 0; try++ {
					d := 1 + r.Intn(i)
					if try < 4 && i > 4 {
						d = 1 + r.Intn(4)
					}
					m := 0
					for i+m < len(st) && st[i+m].Val == st[i+m-d].Val {
						m++
					}
					if m > best {
						best, bd = m, d
					}
				}
				if i == 0 { // a copy before anything was decoded copies zeros
					for i+best < len(st) && st[i+best].Val == 0 {
						best++
					}
					bd = 1 + r.Intn(3)
				}
				if best >= c.minLen {
					l := c.minLen + r.Intn(best-c.minLen+1)
					if i+l == len(st) && r.Intn(2) == 0 && si == len(streams)-1 {
						l += r.Intn(5) // the copy may run past the end
					}
					dv := int64(-1)
					if mult == 0 {
						dv = int64(bd - 1)
						if bd >= i && r.Intn(2) == 0 && bd == i {
							dv += int64(r.Intn(4)) // longer distances are clamped
						}
					} else {
						if r.Intn(3) > 0 {
							for x, s := range special {
								q := s[0] + mult*s[1]
								if q < 1 {
									q = 1
								}
								if q == bd || q > i && bd == i {
									dv = int64(x)
									break
								}
							}
						}
						if dv < 0 {
							dv = int64(bd + 119)
						}
					}
					t, ex, nb := c.lzc.enc(int64(l - c.minLen))
					t2, ex2, nb2 := c.cfg[dcl].enc(dv)
					if t+c.minSym < lim && t2 < lim && (dcl != cl || true) {
						if !add(etok{cl, t + c.minSym, ex, nb}, &out) || !add(etok{dcl, t2, ex2, nb2}, &out) {
							return nil
						}
						i += l
						continue
					}
				}
			}
			t, ex, nb := c.cfg[cl].enc(st[i].Val)
			if c.lz && t >= c.minSym {
				return nil
			}
			if !add(etok{cl, t, ex, nb}, &out) {
				return nil
			}
			i++
		}
		c.toks = append(c.toks, out)
	}
	c.dist = make([]*Dist, k)
	for i := range c.dist {
		if c.ans {
			c.dist[i] = mkAns(r, used[i], c.logAlpha)
		} else {
			c.dist[i] = mkPrefix(r, used[i])
		}
		if c.dist[i] == nil {
			return nil
		}
	}
	// header
	w.Bool(c.lz)
	if c.lz {
		if !w.U32(r, int64(c.minSym), 224, 0, 512, 0, 4096, 0, 8, 15) || !w.U32(r, int64(c.minLen), 3, 0, 4, 0, 5, 2, 9, 8) {
			return nil
		}
		c.lzc.write(w, 8)
	}
	if n > 1 {
		writeMap(r, w, c.cmap, k, o.Depth)
	}
	w.Bool(!c.ans)
	if c.ans {
		w.Put(uint64(c.logAlpha-5), 2)
	}
	for _, g := range c.cfg {
		g.write(w, c.logAlpha)
	}
	if !c.ans {
		for _, d := range c.dist {
			w.U16(d.alpha - 1)
		}
	}
	for _, d := range c.dist {
		w.Append(d.hdr)
	}
	return c
}

func writeMap(r *rand.Rand, w *BW, m []int, k, depth int) {
	if k <= 8 && r.Intn(2) == 0 || depth > 1 && k <= 8 {
		nb := ceilLog2(k)
		if nb < 3 {
			nb += r.Intn(4 - nb)
		}
		w.Put(1, 1)
		w.Put(uint64(nb), 2)
		for _, x := range m {
			w.Put(uint64(x), nb)
		}
		return
	}
	w.Put(0, 1)
	mtf := r.Intn(2) == 0
	w.Bool(mtf)
	idx := append([]int{}, m...)
	if mtf {
		t := make([]int, 256)
		for i := range t {
			t[i] = i
		}
		for i, x := range m {
			j := 0
			for t[j] != x {
				j++
			}
			idx[i] = j
			copy(t[1:j+1], t[:j])
			t[0] = x
		}
	}
	var st []Sym
	for _, x := range idx {
		st = append(st, Sym{0, int64(x)})
	}
	lz := 0
	if len(m) <= 2 {
		lz = -1
	}
	c := NewCoder(r, 1, [][]Sym{st}, CoderOpts{LZ: lz, Depth: depth + 1})
	w.Append(c.hdr)
	c.Write(w, 0)
}

// Write appends stream i.
func (c *Coder) Write(w *BW, i int) {
	toks := c.toks[i]
	if !c.ans {
		for _, t := range toks {
			c.dist[t.cl].putPrefix(w, t.tok)
			w.Put(t.ex, t.nb)
		}
		return
	}
	if len(toks) == 0 {
		return
	}
	state := uint64(0x130000)
	refill := make([]int, len(toks))
	for j := len(toks) - 1; j >= 0; j-- {
		t := toks[j]
		d := c.dist[t.cl]
		f := uint64(d.freq[t.tok])
		refill[j] = -1
		if state>>20 >= f {
			refill[j] = int(state & 0xffff)
			state >>= 16
		}
		q := state / f
		state = q<<12 | uint64(d.slot[t.tok][state-q*f])
	}
	w.Put(state, 32)
	for j, t := range toks {
		if refill[j] >= 0 {
			w.Put(uint64(refill[j]), 16)
		}
		w.Put(t.ex, t.nb)
	}
}
