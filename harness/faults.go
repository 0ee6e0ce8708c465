package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"image"
	"io"
	"math/rand"
	"sort"
	"strings"

	jxl "github.com/kpfaulkner/jxl-go"
	"github.com/kpfaulkner/jxl-go/core"
)

// FaultOut is one decode of a file to which something happens.
type FaultOut struct {
	Q    string `json:"q"`   // decode, image, config, header
	How  string `json:"how"` // none, cut, fail, once, seek, slow, parts
	At   int    `json:"at"`
	Bad  []int  `json:"bad"` // damaged sections
	Maxg int    `json:"maxg"`
	Pan  bool   `json:"pan"`
	Err  bool   `json:"err"`
	Nil  bool   `json:"nil"`
	Msg  string `json:"msg"`
	W    int    `json:"w"`
	H    int    `json:"h"`
	Sum  int    `json:"sum"`
}

// FaultTrace is a C14 record.
type FaultTrace struct {
	Kind   string     `json:"kind"`
	N      int        `json:"n"`
	Bare   bool       `json:"bare"`  // a codestream without boxes
	Valid  bool       `json:"valid"` // known to be a file that decodes
	Base   []FaultOut `json:"base"`
	Faults []FaultOut `json:"faults"`
	Pan    bool       `json:"pan"`
	Msg    string     `json:"msg"`
}

var errFault = errors.New("injected fault")

// faulty fails at an offset, at the n-th read or at the n-th seek.
type faulty struct {
	*bytes.Reader
	how   string
	at    int
	calls int
}

func (f *faulty) Read(p []byte) (int, error) {
	switch f.how {
	case "fail": // nothing at or behind the offset can be read
		off := int(f.Reader.Size()) - f.Reader.Len()
		if len(p) > 0 && off >= f.at {
			return 0, errFault
		}
		if off+len(p) > f.at {
			p = p[:f.at-off]
		}
	case "once":
		f.calls++
		if f.calls == f.at {
			return 0, errFault
		}
	}
	return f.Reader.Read(p)
}

func (f *faulty) Seek(off int64, whence int) (int64, error) {
	if f.how == "seek" {
		f.calls++
		if f.calls == f.at {
			return 0, errFault
		}
	}
	return f.Reader.Seek(off, whence)
}

func tryOne(o *FaultOut, b []byte, maxg int) {
	defer func() {
		if e := recover(); e != nil {
			o.Pan, o.Msg = true, fmt.Sprint("panic: ", e)
		}
	}()
	var rd io.ReadSeeker
	switch o.How {
	case "cut":
		rd = bytes.NewReader(b[:o.At])
	case "fail", "once", "seek":
		rd = &faulty{Reader: bytes.NewReader(b), how: o.How, at: o.At}
	case "flip":
		c := bytes.Clone(b)
		c[o.At/8] ^= 1 << uint(o.At%8)
		if n := o.At / 8 * 7919 % len(b); o.At%3 == 0 && n > len(b)/4 {
			c[n] ^= byte(o.At)
		}
		rd = bytes.NewReader(c)
	case "slow":
		rd = mkReader([]string{"dribble1", "dribble3", "eager"}[o.At%3], b)
	default:
		rd = bytes.NewReader(b)
	}
	var err error
	switch o.Q {
	case "decode":
		m, e := core.NewJXLDecoder(rd, opts(&Job{Maxg: maxg})).Decode()
		if err = e; err == nil {
			if o.Nil = m == nil; !o.Nil {
				o.W, o.H, o.Sum = int(m.Width), int(m.Height), imageSum(m)
			}
		}
	case "header":
		h, e := core.NewJXLDecoder(rd, nil).GetImageHeader()
		if err = e; err == nil {
			if o.Nil = h == nil; !o.Nil {
				o.W, o.H = int(h.OrientedWidth), int(h.OrientedHeight)
			}
		}
	case "image":
		var m image.Image
		m, err = jxl.Decode(rd)
		if err == nil {
			if o.Nil = m == nil; !o.Nil {
				o.W, o.H = m.Bounds().Dx(), m.Bounds().Dy()
			}
		}
	case "config":
		var c image.Config
		c, err = jxl.DecodeConfig(rd)
		if err == nil {
			o.W, o.H = c.Width, c.Height
		}
	}
	if err != nil {
		o.Err, o.Msg = true, err.Error()
	}
}

func faultJob(b []byte, o FaultOut, procs int) *Job {
	o.Bad = nil
	s, _ := json.Marshal(o)
	return &Job{Op: "fault", Data: b, S: string(s), Procs: procs, Maxg: o.Maxg}
}

var questions = []string{"decode", "image", "config", "header"}

// faultList chooses what happens to a file of n bytes.
func faultList(r *rand.Rand, n int, tier string) []FaultOut {
	var l []FaultOut
	cuts := map[int]bool{}
	many := 24
	if tier == "thorough" {
		many = 80
	}
	if n <= many {
		for k := 0; k < n; k++ {
			cuts[k] = true
		}
	} else {
		for k := 0; k < many; k++ {
			switch r.Intn(5) {
			case 0:
				cuts[n-1-r.Intn(4)] = true
			case 1:
				cuts[r.Intn(min(n, 40))] = true
			default:
				cuts[r.Intn(n)] = true
			}
		}
	}
	var at []int
	for k := range cuts {
		at = append(at, k)
	}
	sort.Ints(at)
	for _, k := range at {
		q := "decode"
		if r.Intn(6) == 0 {
			q = questions[1+r.Intn(3)]
		}
		l = append(l, FaultOut{Q: q, How: "cut", At: k})
	}
	for k := 0; k < 16; k++ {
		q := "decode"
		if r.Intn(4) == 0 {
			q = questions[1+r.Intn(3)]
		}
		o := FaultOut{Q: q, How: []string{"fail", "fail", "once", "once", "seek", "slow", "flip", "flip", "flip", "flip", "flip"}[r.Intn(11)], Maxg: r.Intn(4)}
		switch o.How {
		case "fail":
			o.At = r.Intn(n)
		case "once":
			o.At = 1 + r.Intn(1+min(n, 3000))
			if r.Intn(2) == 0 {
				o.At = 1 + r.Intn(30)
			}
		case "seek":
			o.At = 1 + r.Intn(4)
		case "slow":
			o.At = r.Intn(3)
		case "flip": // behind the sizes of the image and its first frame
			lo := min(n/4, 40)
			o.At = 8*lo + r.Intn(8*(n-lo))
		}
		l = append(l, o)
	}
	return l
}

func init() {
	ops["fault"] = func(j *Job, r *Res) {
		var o FaultOut
		json.Unmarshal([]byte(j.S), &o)
		tryOne(&o, j.Data, j.Maxg)
		r.J, _ = json.Marshal(o)
	}
	gens["C14"] = func(r *rand.Rand, n int, tier string, emit func(any)) {
		small := testFiles(3000, 0)
		large := testFiles(90000, 3000)
		for n > 0 {
			k := min(n, 100)
			n -= k
			var jobs []*Job
			var where []*FaultOut
			var ts []*FaultTrace
			for i := 0; i < k; i++ {
				t := &FaultTrace{}
				var b []byte
				bad := map[int][]byte{} // damaged versions by fault
				switch q := r.Intn(16); {
				case q < 4:
					f := small[r.Intn(len(small))]
					b, t.Kind, t.Bare = f.b, f.kind, len(f.b) > 2 && f.b[0] == 0xff && f.b[1] == 0x0a
					t.Faults = faultList(r, len(b), tier)
				case q == 4 && i%4 == 0:
					f := large[r.Intn(len(large))]
					b, t.Kind, t.Bare = f.b, f.kind, len(f.b) > 2 && f.b[0] == 0xff && f.b[1] == 0x0a
					t.Faults = faultList(r, len(b), tier)
				case q < 9:
					b, t.Kind = anyImage(r)
					t.Valid, t.Bare = t.Kind != "composed", true
					if r.Intn(4) == 0 {
						b, t.Bare, t.Valid = wrap(r, b), false, false
						t.Kind += " in boxes"
					}
					t.Faults = faultList(r, len(b), tier)
				default:
					t.Kind, t.Valid = "parts", true
					var l []FaultOut
					b, l = damagedParts(r, bad)
					t.Faults = l
				}
				t.N = len(b)
				for _, q := range questions {
					t.Base = append(t.Base, FaultOut{Q: q, How: "none"})
				}
				for j := range t.Base {
					jobs, where = append(jobs, faultJob(b, t.Base[j], 0)), append(where, &t.Base[j])
				}
				for j := range t.Faults {
					d := b
					if x, ok := bad[j]; ok {
						d = x
					}
					jobs, where = append(jobs, faultJob(d, t.Faults[j], []int{0, 1, 2, 8}[r.Intn(4)])), append(where, &t.Faults[j])
				}
				ts = append(ts, t)
			}
			for i, x := range runJobs(jobs) {
				o := where[i]
				bad := o.Bad
				if x.J != nil {
					json.Unmarshal(x.J, o)
				} else {
					o.Pan, o.Msg = true, x.Msg
				}
				if o.How == "flip" && o.Pan && (strings.Contains(o.Msg, "out of memory") || strings.Contains(o.Msg, "cannot allocate memory")) {
					o.Pan, o.Err = false, true // a size too large for the memory given to the child
				}
				if o.Bad = bad; bad == nil {
					o.Bad = []int{}
				}
			}
			for _, t := range ts {
				emit(t)
			}
		}
	}
}

// damagedParts is an image of several groups and versions of it with parts that end too early.
func damagedParts(r *rand.Rand, bad map[int][]byte) ([]byte, []FaultOut) {
	seed := r.Int63()
	used := map[int]bool{}
	build := func(cut map[int]int) []byte {
		q := rand.New(rand.NewSource(seed))
		h := plainHdr(q, 130+q.Intn(300), 1+q.Intn(20)*q.Intn(8))
		lf := q.Intn(3) == 0
		if lf {
			h.W, h.H = 1025+q.Intn(1500), 8+q.Intn(24)
			h.ECs, h.Gray = nil, q.Intn(4) > 0
		}
		if q.Intn(2) == 0 {
			h.W, h.H = h.H, h.W
		}
		w := &BW{}
		h.write(q, w)
		f := plainF(h)
		f.NP = 1 + q.Intn(3)
		for k := 0; k < f.NP-1; k++ {
			f.PShift = append(f.PShift, 0)
		}
		if f.NP > 1 {
			f.DS, f.Last = []int{2}, []int{0}
		}
		ids := []int{2}
		if q.Intn(3) == 0 && !lf {
			ids = []int{0}
		}
		o := &FrameOpts{F: f, Xf: XfOpts{Max: 2, IDs: ids, Keep: 16, LF: lf}, TreeSz: 2, Style: []int{exact, exact, one}[q.Intn(3)], VStyle: -1, Perm: q.Intn(2) == 0, Cut: cut}
		if cut == nil {
			o.Used = used
		}
		writeFrame(q, w, h.nc(), len(h.ECs), o)
		return w.b
	}
	b := build(nil)
	var all []int
	for k := range used {
		all = append(all, k)
	}
	sort.Ints(all)
	var l []FaultOut
	for k := 0; k < 10; k++ {
		o := FaultOut{Q: "decode", How: "parts", Maxg: r.Intn(6)}
		cut := map[int]int{}
		for m := []int{1, 1, 1, 2, 3, 1 + r.Intn(len(all))}[r.Intn(6)]; m > 0; m-- {
			cut[all[r.Intn(len(all))]] = []int{1, 1, 1 + r.Intn(20), 1 << 20}[r.Intn(4)]
		}
		for s := range cut {
			o.Bad = append(o.Bad, s)
		}
		sort.Ints(o.Bad)
		if r.Intn(8) == 0 {
			cut, o.Bad = nil, nil
		}
		if cut != nil {
			bad[k] = build(cut)
		}
		l = append(l, o)
	}
	return b, l
}

func init() {
	// prefixes of generated files, judged by the whole decoder model
	gens["C14cuts"] = func(r *rand.Rand, n int, tier string, emit func(any)) {
		var cs []imgCase
		for len(cs) < n {
			var b []byte
			switch r.Intn(4) {
			case 0:
				b = composed(r, 3, 1+r.Intn(8), "").b
			case 1:
				b = wrap(r, smallImage(r))
			case 2:
				h := plainHdr(r, 129+r.Intn(40), 1)
				if r.Intn(2) == 0 {
					h.W, h.H = h.H, h.W
				}
				h.ECs, h.Gray = nil, true
				w := &BW{}
				h.write(r, w)
				f := plainF(h)
				writeFrame(r, w, 1, 0, &FrameOpts{F: f, Xf: XfOpts{Max: 1, IDs: []int{0, 1, 2}, Keep: 12}, TreeSz: 2, Style: []int{exact, one}[r.Intn(2)], VStyle: -1, Perm: r.Intn(2) == 0})
				b = w.b
			default:
				h := plainHdr(r, 1+r.Intn(5), 1+r.Intn(5))
				w := &BW{}
				h.write(r, w)
				writeFrame(r, w, h.nc(), len(h.ECs), &FrameOpts{F: plainF(h), Xf: XfOpts{Max: 2, IDs: []int{0, 1, 2}, Keep: 12}, TreeSz: 4, Style: exact, VStyle: -1, WP: true})
				b = w.b
			}
			for k := 0; k < 4; k++ {
				c := r.Intn(len(b))
				if r.Intn(3) == 0 {
					c = len(b) - 1 - r.Intn(min(len(b), 6))
				}
				cs = append(cs, imgCase{b[:c], "cut"})
			}
		}
		runImages(r, cs, emit)
	}
}
