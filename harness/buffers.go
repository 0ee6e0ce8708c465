package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"runtime"
	"sync"

	"github.com/kpfaulkner/jxl-go/core"
	"github.com/kpfaulkner/jxl-go/image"
	"github.com/kpfaulkner/jxl-go/util"
)

// BufObs is what a sample buffer shows: integers, or floats in 1/1024.
type BufObs struct {
	Ty string  `json:"ty"`
	W  int     `json:"w"`
	H  int     `json:"h"`
	C  [][]int `json:"c"`
}

// BufStep is one call of a C17 history.
type BufStep struct {
	Op   string  `json:"op"`
	H    int     `json:"h"`
	K    string  `json:"k"`
	D    int     `json:"d"`
	Y    int     `json:"y"`
	X    int     `json:"x"`
	V    int     `json:"v"`
	C    any     `json:"c"`
	From int     `json:"from"`
	Ty   string  `json:"ty"`
	Bad  bool    `json:"bad"`
	Err  bool    `json:"err"`
	R    bool    `json:"r"`
	S    [2]int  `json:"s"`
	O    *BufObs `json:"o"`
	A    []int   `json:"a"`
	B    []int   `json:"b"`
}

// BufTrace is a C17 record.
type BufTrace struct {
	S   []BufStep `json:"s"`
	Par int       `json:"par"`
	Pan bool      `json:"pan"`
	Msg string    `json:"msg"`
}

// mat is a live matrix of any kind.
type mat struct {
	kind string
	f    [][][]float32
	i    [][][]int32
	o    [][][]int16
	g    [][][]float64
}

func plane[T any](m [][]T) [][][]T { return [][][]T{m} }

func contents[T int16 | int32 | float32 | float64](m [][][]T) [][][]int {
	c := [][][]int{}
	for _, p := range m {
		q := [][]int{}
		for _, row := range p {
			r := []int{}
			for _, v := range row {
				if v != v || math.Abs(float64(v)) > 1<<30 {
					r = append(r, badFloat)
				} else if float64(v) != math.Trunc(float64(v)) {
					r = append(r, badFloat-1)
				} else {
					r = append(r, int(v))
				}
			}
			q = append(q, r)
		}
		c = append(c, q)
	}
	return c
}

func (m *mat) look() [][][]int {
	switch m.kind[:1] {
	case "f":
		return contents(m.f)
	case "i":
		return contents(m.i)
	case "o":
		return contents(m.o)
	}
	return contents(m.g)
}

func (m *mat) set(d, y, x, v int) {
	switch m.kind[:1] {
	case "f":
		m.f[d][y][x] = float32(v)
	case "i":
		m.i[d][y][x] = int32(v)
	case "o":
		m.o[d][y][x] = int16(v)
	default:
		m.g[d][y][x] = float64(v)
	}
}

func (m *mat) give() {
	switch m.kind {
	case "f2":
		util.ReturnMatrix2DToPool(m.f[0])
	case "i2":
		util.ReturnMatrix2DToPool(m.i[0])
	case "o2":
		util.ReturnMatrix2DToPool(m.o[0])
	case "g2":
		util.ReturnMatrix2DToPool(m.g[0])
	case "f3":
		util.ReturnMatrix3DToPool(m.f)
	case "i3":
		util.ReturnMatrix3DToPool(m.i)
	case "o3":
		util.ReturnMatrix3DToPool(m.o)
	case "g3":
		util.ReturnMatrix3DToPool(m.g)
	}
}

func makeMat(kind string, pooled bool, d, y, x int) *mat {
	m := &mat{kind: kind}
	switch kind {
	case "f2":
		if pooled {
			m.f = plane(util.MakeMatrix2DPooled[float32](y, x))
		} else {
			m.f = plane(util.MakeMatrix2D[float32](y, x))
		}
	case "i2":
		if pooled {
			m.i = plane(util.MakeMatrix2DPooled[int32](y, x))
		} else {
			m.i = plane(util.MakeMatrix2D[int32](y, x))
		}
	case "o2":
		m.o = plane(util.MakeMatrix2DPooled[int16](y, x))
	case "g2":
		m.g = plane(util.MakeMatrix2DPooled[float64](y, x))
	case "f3":
		if pooled {
			m.f = util.MakeMatrix3DPooled[float32](d, y, x)
		} else {
			m.f = util.MakeMatrix3D[float32](d, y, x)
		}
	case "i3":
		if pooled {
			m.i = util.MakeMatrix3DPooled[int32](d, y, x)
		} else {
			m.i = util.MakeMatrix3D[int32](d, y, x)
		}
	case "o3":
		m.o = util.MakeMatrix3DPooled[int16](d, y, x)
	case "g3":
		m.g = util.MakeMatrix3DPooled[float64](d, y, x)
	}
	return m
}

// ownMat is a matrix the caller builds: rows of differing length, rows cut from one array, spare room.
func ownMat(r *rand.Rand, kind string) *mat {
	m := &mat{kind: kind}
	d := 1
	if kind[1] == '3' {
		d = 1 + r.Intn(3)
	}
	y, x := 1+r.Intn(3), 1+r.Intn(3)
	way := r.Intn(4)
	for p := 0; p < d; p++ {
		h := y
		if way == 1 && r.Intn(2) == 0 {
			h = r.Intn(4)
		}
		f, i := make([][]float32, h), make([][]int32, h)
		one, two := make([]float32, h*x), make([]int32, h*x)
		for k := 0; k < h; k++ {
			w := x
			if way == 0 || way == 1 {
				if r.Intn(3) == 0 {
					w = r.Intn(4)
				}
			}
			f[k], i[k] = make([]float32, w, w+r.Intn(3)), make([]int32, w, w+r.Intn(3))
			if way == 2 {
				f[k], i[k] = one[k*x:k*x+x:k*x+x], two[k*x:k*x+x:k*x+x]
			}
			for e := range f[k] {
				v := r.Intn(1000)
				f[k][e], i[k][e] = float32(v), int32(v)
			}
		}
		m.f, m.i = append(m.f, f), append(m.i, i)
	}
	if kind[0] == 'f' {
		m.i = nil
	} else {
		m.f = nil
	}
	return m
}

func floatOf(s [2]int) float32 {
	switch s {
	case [2]int{0, 0}:
		return float32(math.NaN())
	case [2]int{1, 0}:
		return float32(math.Inf(1))
	case [2]int{-1, 0}:
		return float32(math.Inf(-1))
	}
	return float32(s[0]) / float32(s[1])
}

func obsBuf(b *image.ImageBuffer) *BufObs {
	o := &BufObs{Ty: "int", W: int(b.Width), H: int(b.Height), C: [][]int{}}
	if b.IsFloat() {
		o.Ty = "float"
		for _, row := range b.FloatBuffer {
			q := []int{}
			for _, v := range row {
				f := math.Round(float64(v) * 1024)
				if f != f || math.Abs(f) > 1<<29 {
					f = badFloat
				}
				q = append(q, int(f))
			}
			o.C = append(o.C, q)
		}
	}
	if b.IsInt() == b.IsFloat() {
		o.Ty = "neither"
	}
	if o.Ty == "int" {
		for _, row := range b.IntBuffer {
			q := []int{}
			for _, v := range row {
				q = append(q, int(v))
			}
			o.C = append(o.C, q)
		}
	}
	return o
}

// actor makes the calls of one goroutine on its own handles.
type actor struct {
	r    *rand.Rand
	next int
	mats map[int]*mat
	bufs map[int]*image.ImageBuffer
	out  []BufStep
	pan  string
}

func (a *actor) emit(s BufStep) {
	if s.C == nil {
		s.C = []int{}
	}
	if s.O == nil {
		s.O = &BufObs{C: [][]int{}}
	}
	if s.A == nil {
		s.A = []int{}
	}
	if s.B == nil {
		s.B = []int{}
	}
	a.out = append(a.out, s)
}

func pick[T any](r *rand.Rand, m map[int]T) int {
	lo := -1
	k := r.Intn(len(m))
	// handles in ascending order, so that a history is the same in every run
	for ; k >= 0; k-- {
		nx := 1 << 60
		for h := range m {
			if h > lo && h < nx {
				nx = h
			}
		}
		lo = nx
	}
	return lo
}

func intSample(r *rand.Rand) int {
	switch r.Intn(8) {
	case 0:
		return []int{0, 1, -1, 255, 256, 65535, 65536, 1<<20 - 1}[r.Intn(8)]
	case 1:
		return []int{1<<31 - 1, -(1<<31 - 1), 1 << 24, -1 << 20, 1<<24 + 1}[r.Intn(5)]
	case 2:
		return r.Intn(1<<20) - 1<<19
	}
	return r.Intn(300) - 20
}

func maximum(r *rand.Rand) int {
	switch r.Intn(6) {
	case 0:
		return []int{1, 2, 3, 7, 1<<20 - 1, 1 << 20, 1<<31 - 1, 1 << 24}[r.Intn(8)]
	case 1:
		return []int{0, -1, -255, -(1<<31 - 1)}[r.Intn(4)]
	case 2:
		return 1 + r.Intn(1<<uint(1+r.Intn(20)))
	}
	return 1<<uint([]int{1, 2, 4, 5, 8, 8, 10, 12, 14, 16, 18, 20}[r.Intn(12)]) - 1
}

func floatSample(r *rand.Rand) [2]int {
	switch r.Intn(8) {
	case 0:
		return [][2]int{{0, 0}, {1, 0}, {-1, 0}, {0, 1024}, {1024, 1024}, {1023, 1024}, {1025, 1024}, {-1, 1024}, {512, 1024}, {1<<20 - 1, 1024}, {-(1<<20 - 1), 1024}}[r.Intn(11)]
	case 1:
		return [2]int{r.Intn(1<<20) - 1<<19, 1024}
	}
	return [2]int{r.Intn(1100) - 40, 1024}
}

func (a *actor) step(data []byte) {
	defer func() {
		if e := recover(); e != nil {
			a.pan = fmt.Sprint("panic: ", e, " in ", a.out[len(a.out)-1:])
		}
	}()
	r := a.r
	if r.Intn(100) < 55 {
		switch q := r.Intn(20); {
		case q < 7 || len(a.mats) == 0:
			k := []string{"f2", "i2", "f3", "i3", "f2", "i2", "f3", "i3", "o2", "o3", "g2", "g3"}[r.Intn(12)]
			d, y, x := 1, r.Intn(4), r.Intn(4)
			if r.Intn(8) > 0 {
				y, x = 1+r.Intn(3), 1+r.Intn(3)
			}
			if k[1] == '3' {
				d = r.Intn(4)
			}
			h := a.next
			a.next++
			m := makeMat(k, r.Intn(8) > 0, d, y, x)
			a.mats[h] = m
			a.emit(BufStep{Op: "make", H: h, K: k, D: d, Y: y, X: x, C: m.look()})
		case q < 9:
			k := []string{"f2", "i2", "f3", "i3"}[r.Intn(4)]
			h := a.next
			a.next++
			m := ownMat(r, k)
			a.mats[h] = m
			a.emit(BufStep{Op: "own", H: h, K: k, C: m.look()})
		case q < 13:
			h := pick(r, a.mats)
			m := a.mats[h]
			c := m.look()
			for try := 0; try < 4; try++ {
				if len(c) == 0 {
					break
				}
				d := r.Intn(len(c))
				if len(c[d]) == 0 {
					continue
				}
				y := r.Intn(len(c[d]))
				if len(c[d][y]) == 0 {
					continue
				}
				x, v := r.Intn(len(c[d][y])), 1+r.Intn(30000)
				m.set(d, y, x, v)
				a.emit(BufStep{Op: "write", H: h, K: m.kind, D: d, Y: y, X: x, V: v})
			}
		case q < 15:
			h := pick(r, a.mats)
			a.emit(BufStep{Op: "look", H: h, K: a.mats[h].kind, C: a.mats[h].look()})
		case q < 19:
			h := pick(r, a.mats)
			a.emit(BufStep{Op: "return", H: h, K: a.mats[h].kind})
			a.mats[h].give()
			delete(a.mats, h)
		default:
			core.NewJXLDecoder(mkReader("", data), nil).Decode()
		}
		return
	}
	switch q := r.Intn(22); {
	case q < 2 || len(a.bufs) == 0:
		ty, y, x := r.Intn(2), r.Intn(4), r.Intn(4)
		s := BufStep{Op: "new", H: a.next, Ty: []string{"int", "float"}[ty], Y: y, X: x}
		if r.Intn(4) == 0 {
			s.Bad = true
			switch r.Intn(3) {
			case 0:
				ty = []int{-1, 2, 7}[r.Intn(3)]
			case 1:
				y = []int{-1, 1<<30 + 1, 1<<31 - 1}[r.Intn(3)]
			case 2:
				x = []int{-1, 1<<30 + 1, 1<<31 - 1}[r.Intn(3)]
			}
			if r.Intn(2) == 0 && y >= 0 && y < 4 { // nothing large is allocated
				y = 0
			}
		}
		b, err := image.NewImageBuffer(ty, int32(y), int32(x))
		s.Err = err != nil
		if err == nil && !s.Bad {
			a.next++
			a.bufs[s.H] = b
			s.O = obsBuf(b)
		}
		a.emit(s)
	case q < 6:
		y, x := 1+r.Intn(3), 1+r.Intn(3)
		s := BufStep{Op: "from", H: a.next, Y: y, X: x}
		c := [][][2]int{}
		if r.Intn(2) == 0 {
			s.Ty = "int"
			m := util.MakeMatrix2D[int32](y, x)
			for i := range m {
				row := [][2]int{}
				for j := range m[i] {
					v := intSample(r)
					m[i][j] = int32(v)
					row = append(row, [2]int{v, 1})
				}
				c = append(c, row)
			}
			a.bufs[a.next] = image.NewImageBufferFromInts(m)
		} else {
			s.Ty = "float"
			m := util.MakeMatrix2D[float32](y, x)
			for i := range m {
				row := [][2]int{}
				for j := range m[i] {
					v := floatSample(r)
					m[i][j] = floatOf(v)
					row = append(row, v)
				}
				c = append(c, row)
			}
			a.bufs[a.next] = image.NewImageBufferFromFloats(m)
		}
		s.C, s.O = c, obsBuf(a.bufs[a.next])
		a.next++
		a.emit(s)
	case q < 9:
		from := pick(r, a.bufs)
		s := BufStep{Op: "copy", H: a.next, From: from}
		if r.Intn(4) > 0 {
			s.V = 1
		}
		b := image.NewImageBufferFromImageBuffer(a.bufs[from], s.V == 1)
		a.bufs[a.next] = b
		a.next++
		s.O = obsBuf(b)
		a.emit(s)
	case q < 11:
		h := pick(r, a.bufs)
		b := a.bufs[h]
		if b.Width == 0 || b.Height == 0 {
			return
		}
		s := BufStep{Op: "poke", H: h, Y: r.Intn(int(b.Height)), X: r.Intn(int(b.Width))}
		if b.IsFloat() {
			s.S = floatSample(r)
			b.FloatBuffer[s.Y][s.X] = floatOf(s.S)
		} else {
			v := intSample(r)
			s.S = [2]int{v, 1}
			b.IntBuffer[s.Y][s.X] = int32(v)
		}
		a.emit(s)
	case q < 13:
		h := pick(r, a.bufs)
		a.emit(BufStep{Op: "show", H: h, O: obsBuf(a.bufs[h])})
	case q < 15:
		h, m := pick(r, a.bufs), maximum(r)
		err := a.bufs[h].CastToFloatIfMax(int32(m))
		s := BufStep{Op: "castf", H: h, V: m, Err: err != nil, O: obsBuf(a.bufs[h])}
		a.emit(s)
		if r.Intn(2) == 0 { // and back again
			err := a.bufs[h].CastToIntIfMax(int32(m))
			a.emit(BufStep{Op: "casti", H: h, V: m, Err: err != nil, O: obsBuf(a.bufs[h])})
		}
	case q < 17:
		h, m := pick(r, a.bufs), maximum(r)
		err := a.bufs[h].CastToIntIfMax(int32(m))
		a.emit(BufStep{Op: "casti", H: h, V: m, Err: err != nil, O: obsBuf(a.bufs[h])})
	case q < 18:
		h, m := pick(r, a.bufs), maximum(r)
		if m < 0 {
			m = -m
		}
		err := a.bufs[h].Clamp(int32(m))
		a.emit(BufStep{Op: "clamp", H: h, V: m, Err: err != nil, O: obsBuf(a.bufs[h])})
	case q < 20:
		h, g := pick(r, a.bufs), pick(r, a.bufs)
		a.emit(BufStep{Op: "equal", H: h, From: g, R: a.bufs[h].Equals(*a.bufs[g])})
	case q < 21:
		s := BufStep{Op: "equals"}
		var x, y []image.ImageBuffer
		for k := r.Intn(4); k > 0; k-- {
			h := pick(r, a.bufs)
			s.A, x = append(s.A, h), append(x, *a.bufs[h])
			if r.Intn(4) == 0 {
				h = pick(r, a.bufs)
			}
			if r.Intn(6) > 0 {
				s.B, y = append(s.B, h), append(y, *a.bufs[h])
			}
		}
		s.R = image.ImageBufferSliceEquals(x, y)
		a.emit(s)
	default:
		h := pick(r, a.bufs)
		if b := a.bufs[h]; b.IsInt() {
			a.emit(BufStep{Op: "max", H: h, V: int(b.MaxInt())})
		}
	}
}

func newActor(seed int64, base int) *actor {
	return &actor{r: rand.New(rand.NewSource(seed)), next: base, mats: map[int]*mat{}, bufs: map[int]*image.ImageBuffer{}}
}

func init() {
	ops["buffers"] = func(j *Job, r *Res) {
		rnd := rand.New(rand.NewSource(int64(j.N)))
		t := BufTrace{S: []BufStep{}}
		main := newActor(rnd.Int63(), 1)
		for s := 1 + rnd.Intn(4); s > 0 && main.pan == ""; s-- {
			if rnd.Intn(3) > 0 {
				for k := 10 + rnd.Intn(40); k > 0 && main.pan == ""; k-- {
					main.step(j.Data)
				}
				continue
			}
			t.Par++
			acts := []*actor{}
			for k := 2 + rnd.Intn(4); k > 0; k-- {
				acts = append(acts, newActor(rnd.Int63(), 1000*t.Par+100*k))
			}
			prev := runtime.GOMAXPROCS([]int{1, 2, 4, 8}[rnd.Intn(4)])
			var wg sync.WaitGroup
			for _, a := range acts {
				wg.Add(1)
				n := 10 + rnd.Intn(25)
				go func() {
					defer wg.Done()
					for ; n > 0 && a.pan == ""; n-- {
						a.step(j.Data)
						runtime.Gosched()
					}
					for h := range a.mats {
						a.emit(BufStep{Op: "look", H: h, K: a.mats[h].kind, C: a.mats[h].look()})
					}
				}()
			}
			wg.Wait()
			runtime.GOMAXPROCS(prev)
			// the calls of each goroutine concern its own handles only, so any order of the goroutines tells the same
			for _, a := range acts {
				main.out = append(main.out, a.out...)
				if a.pan != "" {
					main.pan = a.pan
				}
			}
		}
		for len(main.mats) > 0 { // a last look at everything that lives
			h := pick(main.r, main.mats)
			main.emit(BufStep{Op: "look", H: h, K: main.mats[h].kind, C: main.mats[h].look()})
			delete(main.mats, h)
		}
		for len(main.bufs) > 0 {
			h := pick(main.r, main.bufs)
			main.emit(BufStep{Op: "show", H: h, O: obsBuf(main.bufs[h])})
			delete(main.bufs, h)
		}
		t.S, t.Pan, t.Msg = main.out, main.pan != "", main.pan
		r.J, _ = json.Marshal(t)
	}
	gens["C17race"] = func(r *rand.Rand, n int, tier string, emit func(any)) { gens["C17"](rand.New(rand.NewSource(r.Int63()+1)), n, tier, emit) }
	gens["C17"] = func(r *rand.Rand, n int, tier string, emit func(any)) {
		var jobs []*Job
		for i := 0; i < n; i++ {
			b, _ := anyImage(r)
			jobs = append(jobs, &Job{Op: "buffers", N: r.Intn(1 << 30), Data: b})
		}
		for _, res := range runJobs(jobs) {
			t := BufTrace{S: []BufStep{}, Pan: res.Pan, Msg: res.Msg}
			if res.J != nil {
				json.Unmarshal(res.J, &t)
			}
			emit(t)
		}
	}
}
