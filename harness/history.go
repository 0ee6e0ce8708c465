package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/kpfaulkner/jxl-go/core"
)

// HistDec is one decode of a history.
type HistDec struct {
	F    int    `json:"f"` // file, from 1
	Dec  int    `json:"-"` // 0: a new decoder, k: the decoder of earlier decode k of this file
	Rd   string `json:"rd"`
	Keep bool   `json:"keep"`
	Pan  bool   `json:"pan"`
	Err  bool   `json:"err"`
	Nil  bool   `json:"nil"`
	Msg  string `json:"msg"`
	W    int    `json:"w"`
	H    int    `json:"h"`
	Sum  int    `json:"sum"`
	Old  bool   `json:"old"` // by a decoder used before
}

// HistStep is a set of decodes that run together.
type HistStep struct {
	Procs int       `json:"procs"`
	Maxg  int       `json:"maxg"`
	D     []HistDec `json:"d"`
	Look  []int     `json:"look"`
}

// HistTrace is a C13 record.
type HistTrace struct {
	Files []string   `json:"files"`
	Fresh []HistDec  `json:"fresh"`
	Steps []HistStep `json:"steps"`
	Pan   bool       `json:"pan"`
	Msg   string     `json:"msg"`
}

type histIn struct {
	Files [][]byte
	Steps []HistStep
}

func decodeOne(d *HistDec, dec *core.JXLDecoder) *core.JXLImage {
	defer func() {
		if e := recover(); e != nil {
			d.Pan, d.Msg = true, fmt.Sprint("panic: ", e)
		}
	}()
	img, err := dec.Decode()
	if err != nil {
		d.Err, d.Msg = true, err.Error()
		return nil
	}
	if img == nil {
		d.Nil = true
		return nil
	}
	d.W, d.H, d.Sum = int(img.Width), int(img.Height), imageSum(img)
	return img
}

func init() {
	ops["history"] = func(j *Job, r *Res) {
		var in histIn
		json.Unmarshal(j.B, &in)
		old := map[int][]*core.JXLDecoder{}
		var held []*core.JXLImage
		for s := range in.Steps {
			st := &in.Steps[s]
			prev := runtime.GOMAXPROCS(st.Procs)
			decs := make([]*core.JXLDecoder, len(st.D))
			for k := range st.D {
				d := &st.D[k]
				if o := old[d.F]; d.Old && len(o) > 0 {
					decs[k] = o[len(o)-1]
					old[d.F] = o[:len(o)-1]
				} else {
					d.Old = false
					decs[k] = core.NewJXLDecoder(mkReader(d.Rd, in.Files[d.F-1]), opts(&Job{Maxg: st.Maxg}))
				}
			}
			imgs := make([]*core.JXLImage, len(st.D))
			var wg sync.WaitGroup
			for k := range st.D {
				wg.Add(1)
				go func() {
					defer wg.Done()
					imgs[k] = decodeOne(&st.D[k], decs[k])
				}()
			}
			wg.Wait()
			runtime.GOMAXPROCS(prev)
			st.Look = []int{}
			for _, m := range held {
				st.Look = append(st.Look, imageSum(m))
			}
			for k := range st.D {
				d := &st.D[k]
				if d.Keep && imgs[k] != nil {
					held = append(held, imgs[k])
				}
				old[d.F] = append(old[d.F], decs[k])
			}
		}
		r.J, _ = json.Marshal(in.Steps)
	}
	gens["C13race"] = func(r *rand.Rand, n int, tier string, emit func(any)) { gens["C13"](rand.New(rand.NewSource(r.Int63()+1)), n, tier, emit) }
	gens["C13"] = func(r *rand.Rand, n int, tier string, emit func(any)) {
		lossy := testFiles(3000, 0)
		large := testFiles(60000, 3000)
		fresh := map[string]*HistDec{}
		var ts []*HistTrace
		var ins []histIn
		for i := 0; i < n; i++ {
			t := &HistTrace{}
			in := histIn{}
			add := func(name string, b []byte) {
				t.Files = append(t.Files, name)
				in.Files = append(in.Files, b)
			}
			for k := 1 + r.Intn(4); k > 0; k-- {
				switch q := r.Intn(8); {
				case q < 3:
					f := lossy[r.Intn(len(lossy))]
					add(f.kind, f.b)
				case q == 3 && i%8 == 0:
					f := large[r.Intn(len(large))]
					add(f.kind, f.b)
				default:
					b, kind := anyImage(r)
					add(kind, b)
				}
			}
			for k := range t.Files { // invalid relatives
				if r.Intn(3) == 0 {
					b := bytes.Clone(in.Files[k])
					if r.Intn(2) == 0 {
						b = b[:r.Intn(len(b))]
					} else {
						b[len(b)-1-r.Intn(len(b)/2+1)] ^= 1 << uint(r.Intn(8))
					}
					add(t.Files[k]+", damaged", b)
				}
			}
			for k := 2 + r.Intn(6); k > 0; k-- {
				st := HistStep{Procs: []int{1, 2, 4, 8}[r.Intn(4)], Maxg: []int{0, 1, 2, 3, 8, 33}[r.Intn(6)]}
				m := 1
				if r.Intn(3) == 0 {
					m = 2 + r.Intn(4)
				}
				for ; m > 0; m-- {
					st.D = append(st.D, HistDec{F: 1 + r.Intn(len(in.Files)), Keep: r.Intn(2) == 0, Old: r.Intn(4) == 0, Rd: []string{"", "", "", "dribble3", "eager"}[r.Intn(5)]})
				}
				in.Steps = append(in.Steps, st)
			}
			ts, ins = append(ts, t), append(ins, in)
			for _, f := range in.Files {
				fresh[string(f)] = nil
			}
		}
		Timeout, Patience = 120*time.Second, 3
		var names []string
		for f := range fresh {
			names = append(names, f)
		}
		outs := make([]HistDec, len(names))
		parallel(len(names), 8, func(k int) { outs[k] = freshDecode([]byte(names[k])) })
		for k, f := range names {
			fresh[f] = &outs[k]
		}
		parallel(len(ts), 5, func(i int) {
			t := ts[i]
			c := startChild()
			b, _ := json.Marshal(ins[i])
			res, ok := c.call(&Job{Op: "history", B: b})
			if ok {
				c.stop()
			}
			t.Pan, t.Msg, t.Steps, t.Fresh = res.Pan, res.Msg, []HistStep{}, []HistDec{}
			if res.J != nil {
				json.Unmarshal(res.J, &t.Steps)
			}
			for _, f := range ins[i].Files {
				t.Fresh = append(t.Fresh, *fresh[string(f)])
			}
		})
		for _, t := range ts {
			emit(t)
		}
	}
}

// freshDecode decodes in a process of its own, with one worker on one processor.
func freshDecode(f []byte) HistDec {
	b, _ := json.Marshal(histIn{Files: [][]byte{f}, Steps: []HistStep{{Procs: 1, Maxg: 1, D: []HistDec{{F: 1}}}}})
	c := startChild()
	res, ok := c.call(&Job{Op: "history", B: b})
	if ok {
		c.stop()
	}
	var st []HistStep
	if res.J != nil && json.Unmarshal(res.J, &st) == nil && len(st) == 1 {
		return st[0].D[0]
	}
	return HistDec{F: 1, Pan: true, Msg: res.Msg}
}

// testFiles are the example files of the repository of at most hi and more than lo bytes.
func testFiles(hi, lo int) []imgCase {
	var o []imgCase
	l, _ := filepath.Glob(filepath.Join(repoDir(), "testdata", "*.jxl"))
	for _, f := range l {
		b, err := os.ReadFile(f)
		if err == nil && len(b) <= hi && len(b) > lo {
			o = append(o, imgCase{b, filepath.Base(f)})
		}
	}
	return o
}

func repoDir() string {
	if d := os.Getenv("VH_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// anyImage is a generated image: one frame or several, one group or many.
func anyImage(r *rand.Rand) ([]byte, string) {
	switch r.Intn(4) {
	case 0:
		return composed(r, 4, 1+r.Intn(8), "").b, "composed"
	case 1, 2:
		h := plainHdr(r, 130+r.Intn(200), 1+r.Intn(20)*r.Intn(8))
		w := &BW{}
		h.write(r, w)
		f := plainF(h)
		f.NP = 1 + r.Intn(3)
		for k := 0; k < f.NP-1; k++ {
			f.PShift = append(f.PShift, 0)
		}
		writeFrame(r, w, h.nc(), len(h.ECs), &FrameOpts{F: f, Xf: XfOpts{Max: 2, IDs: []int{0, 1, 2}, Keep: 12}, TreeSz: r.Intn(8), Style: -1, WP: true, VStyle: -1, Perm: r.Intn(2) == 0})
		return w.b, "groups"
	}
	return smallImage(r), "small"
}

// parallel calls f(0..n-1), w at a time.
func parallel(n, w int, f func(int)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	for ; w > 0; w-- {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := int(next.Add(1)) - 1; k < n; k = int(next.Add(1)) - 1 {
				f(k)
			}
		}()
	}
	wg.Wait()
}
