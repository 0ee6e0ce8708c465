package main

import "math/rand"

// Chan is the shape of a modular channel.
type Chan struct{ W, H, HS, VS int }

// SQ is one squeeze step.
type SQ struct {
	Hor, Inp   bool
	Begin, Num int
}

// Xf is a transform.
type Xf struct {
	ID, Begin, Rct, Num, Col, Del, Pred int
	SQ                                  []SQ
}

var beginTab = []int64{0, 3, 8, 6, 72, 10, 1096, 13}

func (t *Xf) write(r *rand.Rand, w *BW) {
	w.Put(uint64(t.ID), 2)
	if t.ID != 2 {
		w.U32(r, int64(t.Begin), beginTab...)
	}
	switch t.ID {
	case 0:
		w.U32(r, int64(t.Rct), 6, 0, 0, 2, 2, 4, 10, 6)
	case 1:
		w.U32(r, int64(t.Num), 1, 0, 3, 0, 4, 0, 1, 13)
		w.U32(r, int64(t.Col), 0, 8, 256, 10, 1280, 12, 5376, 16)
		w.U32(r, int64(t.Del), 0, 0, 1, 8, 257, 10, 1281, 16)
		w.Put(uint64(t.Pred), 4)
	case 2:
		w.U32(r, int64(len(t.SQ)), 0, 0, 1, 4, 9, 6, 41, 8)
		for _, s := range t.SQ {
			w.Bool(s.Hor)
			w.Bool(s.Inp)
			w.U32(r, int64(s.Begin), beginTab...)
			w.U32(r, int64(s.Num), 1, 0, 2, 0, 3, 0, 4, 4)
		}
	}
}

// announce gives the channel list after the transform; ok is false when the transform does not fit.
func announce(chs []Chan, meta int, t *Xf) ([]Chan, int, bool) {
	rangeOK := func(b, n int) bool {
		if n < 1 || b+n > len(chs) || b < meta && b+n > meta {
			return false
		}
		for i := 1; i < n; i++ {
			if chs[b+i] != chs[b] {
				return false
			}
		}
		return true
	}
	switch t.ID {
	case 0:
		return chs, meta, rangeOK(t.Begin, 3) && t.Rct < 42
	case 1:
		if !rangeOK(t.Begin, t.Num) || t.Begin < meta && t.Num > 1 {
			return chs, meta, false
		}
		out := []Chan{{t.Col, t.Num, -1, -1}}
		out = append(out, chs[:t.Begin+1]...)
		out = append(out, chs[t.Begin+t.Num:]...)
		if t.Begin >= meta {
			meta++
		} else {
			meta += 2 - t.Num
		}
		return out, meta, true
	}
	l := t.SQ
	if len(l) == 0 {
		if len(chs) == meta {
			return chs, meta, false
		}
		n := len(chs) - meta
		w, h := chs[meta].W, chs[meta].H
		if n > 2 && chs[meta+1].W == w && chs[meta+1].H == h {
			l = append(l, SQ{true, false, meta + 1, 2}, SQ{false, false, meta + 1, 2})
		}
		if h >= w && h > 8 {
			l = append(l, SQ{false, true, meta, n})
			h = (h + 1) / 2
		}
		for w > 8 || h > 8 {
			if w > 8 {
				l = append(l, SQ{true, true, meta, n})
				w = (w + 1) / 2
			}
			if h > 8 {
				l = append(l, SQ{false, true, meta, n})
				h = (h + 1) / 2
			}
		}
	}
	out := append([]Chan{}, chs...)
	for _, s := range l {
		if s.Num < 1 || s.Begin+s.Num > len(out) || s.Begin < meta {
			return chs, meta, false
		}
		off := len(out)
		if s.Inp {
			off = s.Begin + s.Num
		}
		for i := 0; i < s.Num; i++ {
			c := out[s.Begin+i]
			if c.W == 0 || c.H == 0 || c.HS > 20 || c.VS > 20 {
				return chs, meta, false
			}
			q := c
			if s.Hor {
				c.W, c.HS, q.HS = (c.W+1)/2, c.HS+1, c.HS+1
				q.W /= 2
			} else {
				c.H, c.VS, q.VS = (c.H+1)/2, c.VS+1, c.VS+1
				q.H /= 2
			}
			out[s.Begin+i] = c
			out = append(out[:off+i], append([]Chan{q}, out[off+i:]...)...)
		}
	}
	return out, meta, true
}

// XfOpts selects transforms.
type XfOpts struct {
	Max  int
	IDs  []int
	Keep int  // channels the list may grow to
	LF   bool // squeeze every channel eightfold, so that LF groups have channels
}

func randXfs(r *rand.Rand, chs []Chan, o XfOpts) ([]Xf, []Chan, int) {
	var out []Xf
	meta := 0
	if o.LF {
		t := Xf{ID: 2}
		hor := []bool{false, true, false, true, false, true}
		r.Shuffle(5, func(i, j int) { hor[1+i], hor[1+j] = hor[1+j], hor[1+i] })
		b := r.Intn(len(chs))
		n := 1 + r.Intn(len(chs)-b)
		for _, h := range hor {
			t.SQ = append(t.SQ, SQ{h, r.Intn(4) == 0, b, n})
		}
		if c2, m2, ok := announce(chs, meta, &t); ok {
			return []Xf{t}, c2, m2
		}
	}
	for k := r.Intn(o.Max + 1); k > 0; k-- {
		for try := 0; try < 8; try++ {
			t := Xf{ID: o.IDs[r.Intn(len(o.IDs))]}
			t.Begin = r.Intn(len(chs))
			switch t.ID {
			case 0:
				t.Rct = r.Intn(42)
			case 1:
				t.Num = []int{1, 3, 3, 4, 2}[r.Intn(5)]
				t.Col = 1 + r.Intn(8)
				if r.Intn(8) == 0 {
					t.Col = r.Intn(40)
				}
				if r.Intn(3) == 0 {
					t.Del = r.Intn(t.Col + 3)
					t.Pred = r.Intn(14)
				} else if r.Intn(8) == 0 {
					t.Pred = r.Intn(14)
				}
			case 2:
				for q := r.Intn(4); q > 0; q-- {
					b := r.Intn(len(chs))
					t.SQ = append(t.SQ, SQ{r.Intn(2) == 0, r.Intn(2) == 0, b, 1 + r.Intn(len(chs)-b)})
				}
			}
			c2, m2, ok := announce(chs, meta, &t)
			if !ok || len(c2) > o.Keep {
				continue
			}
			chs, meta = c2, m2
			out = append(out, t)
			break
		}
	}
	return out, chs, meta
}

// ---------------------------------------------------------------------------

// TNode is a node of a decision tree; inner nodes have P >= 0.
type TNode struct {
	P, V                      int
	L, R                      *TNode
	Pred, Off, MulLog, MulBit int
	Ctx                       int
}

// TreeOpts says what the tree may use.
type TreeOpts struct {
	Static     bool // only properties known beforehand
	WP         bool
	Size       int // inner nodes, roughly
	NCh        int
	SIDs       []int
	W, H       int
	Plain      bool // one leaf, predictor zero
	SmallSteps bool
}

func randTree(r *rand.Rand, o TreeOpts) *TNode {
	if o.Plain {
		return &TNode{P: -1}
	}
	type rg struct{ lo, hi int }
	var build func(budget int, b map[int]rg) *TNode
	build = func(budget int, b map[int]rg) *TNode {
		if budget <= 0 {
			n := &TNode{P: -1, Pred: r.Intn(14)}
			if n.Pred == 6 && !o.WP {
				n.Pred = 5
			}
			if r.Intn(3) == 0 {
				n.Off = r.Intn(21) - 10
			}
			if r.Intn(4) == 0 {
				n.MulLog = r.Intn(3)
				n.MulBit = r.Intn(3)
			}
			return n
		}
		for {
			p := r.Intn(4)
			if !o.Static {
				p = r.Intn(16)
				if r.Intn(4) == 0 && o.NCh > 1 {
					p = 16 + r.Intn(4*(o.NCh+1))
				}
			}
			if p == 15 && !o.WP {
				continue
			}
			g, ok := b[p]
			var v int
			switch p {
			case 0:
				if !ok {
					g = rg{0, o.NCh}
				}
				v = r.Intn(o.NCh + 1)
			case 1:
				if !ok {
					g = rg{0, 1000}
				}
				v = o.SIDs[r.Intn(len(o.SIDs))]
				if r.Intn(2) == 0 && v > 0 {
					v--
				}
			case 2:
				if !ok {
					g = rg{0, o.H + 1}
				}
				v = r.Intn(o.H + 1)
			case 3:
				if !ok {
					g = rg{0, o.W + 1}
				}
				v = r.Intn(o.W + 1)
			default:
				if !ok {
					g = rg{-1 << 20, 1 << 20}
					if p == 4 || p == 5 || p >= 16 && p%2 == 0 {
						g.lo = 0
					}
				}
				v = r.Intn(1<<uint(1+r.Intn(8))) - r.Intn(1<<uint(1+r.Intn(8)))
				if g.lo == 0 && v < 0 {
					v = -v
				}
			}
			if v < g.lo || v >= g.hi {
				if r.Intn(3) == 0 {
					budget--
				}
				if budget <= 0 {
					return build(0, b)
				}
				continue
			}
			cp := func(n rg) map[int]rg {
				m := map[int]rg{}
				for k, x := range b {
					m[k] = x
				}
				m[p] = n
				return m
			}
			a := r.Intn(budget)
			return &TNode{P: p, V: v, L: build(a, cp(rg{v + 1, g.hi})), R: build(budget-1-a, cp(rg{g.lo, v}))}
		}
	}
	return build(o.Size, map[int]rg{})
}

func pack(v int) int64 { return zig(v) }

// Tree is a decision tree with the code of its samples.
type Tree struct {
	Root  *TNode
	Nodes []*TNode
	Nctx  int
	Data  *Coder
	WP    bool
}

func newTree(root *TNode) *Tree {
	t := &Tree{Root: root}
	q := []*TNode{root}
	for len(q) > 0 {
		n := q[0]
		q = q[1:]
		t.Nodes = append(t.Nodes, n)
		if n.P < 0 {
			n.Ctx = t.Nctx
			t.Nctx++
			if n.Pred == 6 {
				t.WP = true
			}
		} else {
			if n.P == 15 {
				t.WP = true
			}
			q = append(q, n.L, n.R)
		}
	}
	return t
}

func (t *Tree) static() bool {
	for _, n := range t.Nodes {
		if n.P > 3 {
			return false
		}
	}
	return true
}

func (t *Tree) write(r *rand.Rand, w *BW) {
	var s []Sym
	for _, n := range t.Nodes {
		s = append(s, Sym{1, int64(n.P + 1)})
		if n.P >= 0 {
			s = append(s, Sym{0, pack(n.V)})
		} else {
			s = append(s, Sym{2, int64(n.Pred)}, Sym{3, pack(n.Off)}, Sym{4, int64(n.MulLog)}, Sym{5, int64(n.MulBit)})
		}
	}
	c := NewCoder(r, 6, [][]Sym{s}, CoderOpts{})
	w.Append(c.hdr)
	c.Write(w, 0)
	w.Append(t.Data.hdr)
}

// leaf of a static tree.
func (t *Tree) leaf(ci, sid, y, x int) *TNode {
	n := t.Root
	for n.P >= 0 {
		v := [4]int{ci, sid, y, x}[n.P]
		if v > n.V {
			n = n.L
		} else {
			n = n.R
		}
	}
	return n
}

// Sub is one modular sub-stream to be written.
type Sub struct {
	Global bool
	Chs0   []Chan
	Chs    []Chan
	Meta   int
	Xfs    []Xf
	SID    int
	MaxDim int
	T      *Tree
	Idx    int // stream number within the tree's coder
	Style  int // of values
	Val    func(ch, x, y int) int
	DefWP  bool
}

// todo lists the channels this stream carries samples of.
func (s *Sub) todo() []int {
	var o []int
	for i, c := range s.Chs {
		if s.MaxDim > 0 && i >= s.Meta && (c.W > s.MaxDim || c.H > s.MaxDim) {
			break
		}
		if c.W > 0 && c.H > 0 {
			o = append(o, i)
		}
	}
	return o
}

// left lists the channels left to the groups.
func (s *Sub) left() []int {
	for i, c := range s.Chs {
		if s.MaxDim > 0 && i >= s.Meta && (c.W > s.MaxDim || c.H > s.MaxDim) {
			var o []int
			for ; i < len(s.Chs); i++ {
				o = append(o, i)
			}
			return o
		}
	}
	return nil
}

func modVal(r *rand.Rand, style int) int64 {
	switch style {
	case 0:
		return int64(r.Intn(4))
	case 1:
		return int64(r.Intn(40))
	case 2:
		return int64(r.Intn(1 << uint(1+r.Intn(10))))
	case 3:
		return int64(r.Intn(512))
	case 4:
		if r.Intn(40) == 0 {
			return int64(r.Intn(1 << 18))
		}
	case 5:
		return int64(r.Intn(1 << uint(20+r.Intn(5))))
	}
	return int64(r.Intn(2)) * int64(r.Intn(6))
}

// samples gives the symbols of a stream under a static tree (or of a tree whose contexts share a code).
func (s *Sub) samples(r *rand.Rand) []Sym {
	var o []Sym
	for _, i := range s.todo() {
		c := s.Chs[i]
		for y := 0; y < c.H; y++ {
			for x := 0; x < c.W; x++ {
				ctx := 0
				if s.T.static() {
					ctx = s.T.leaf(i, s.SID, y, x).Ctx
				}
				var v int64
				if s.Val != nil {
					v = pack(s.Val(i, x, y))
				} else {
					st := s.Style
					if i < s.Meta && st > 3 {
						st = 3
					}
					v = modVal(r, st)
					if i < s.Meta && r.Intn(2) == 0 {
						v = int64(r.Intn(512))
					}
				}
				o = append(o, Sym{ctx, v})
			}
		}
	}
	return o
}

func (s *Sub) width() int {
	m := 0
	for _, i := range s.todo() {
		if s.Chs[i].W > m {
			m = s.Chs[i].W
		}
	}
	return m
}

// TreeStyle of a tree: how its samples are coded.
const (
	exact = iota // static contexts, any code
	one          // all contexts share one distribution, any code
	tails        // prefix codes, random bits
)

// finish builds the sample code of a tree for the given streams.
func (t *Tree) finish(r *rand.Rand, style int, subs []*Sub) {
	o := CoderOpts{MaxClusters: 6}
	var st [][]Sym
	switch style {
	case tails:
		o.Prefix, o.LZ = true, -1
		vs := r.Intn(4)
		var s []Sym
		for k := 0; k < t.Nctx; k++ {
			for j := 2 + r.Intn(8); j > 0; j-- {
				s = append(s, Sym{k, modVal(r, vs)})
			}
		}
		st = [][]Sym{s}
	case one:
		o.OneCluster = true
		fallthrough
	case exact:
		for i, s := range subs {
			s.Idx = i
			st = append(st, s.samples(r))
			o.Mult = append(o.Mult, s.width())
		}
	}
	t.Data = NewCoder(r, t.Nctx, st, o)
}

// writeSub writes header, local tree and samples.
func (s *Sub) write(r *rand.Rand, w *BW, style int) {
	w.Bool(s.Global)
	if s.DefWP || r.Intn(2) == 0 {
		w.Bool(true)
	} else {
		w.Bool(false)
		for i := 0; i < 7; i++ {
			w.Put(uint64(r.Intn(32)), 5)
		}
		for i := 0; i < 4; i++ {
			w.Put(uint64(r.Intn(16)), 4)
		}
	}
	w.U32(r, int64(len(s.Xfs)), 0, 0, 1, 0, 2, 4, 18, 8)
	for i := range s.Xfs {
		s.Xfs[i].write(r, w)
	}
	if !s.Global {
		s.T.write(r, w)
	}
	if len(s.todo()) == 0 {
		return
	}
	if style == tails {
		n := 0
		for _, i := range s.todo() {
			n += s.Chs[i].W * s.Chs[i].H
		}
		w.Random(r, 22*n+64)
		return
	}
	s.T.Data.Write(w, s.Idx)
}
