package main

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"hash/crc32"
	"image"
	"image/color"
	"image/png"
	"io"
	"math"
	"math/rand"
	"strings"

	"github.com/kpfaulkner/jxl-go/bundle"
	"github.com/kpfaulkner/jxl-go/core"
	image2 "github.com/kpfaulkner/jxl-go/image"
	"github.com/kpfaulkner/jxl-go/jxlio"
)

// RendOp is one rendering of the image and what it gave.
type RendOp struct {
	Op     string    `json:"op"` // image, png, pfm, chan
	C      int       `json:"c"`
	Pan    bool      `json:"pan"`
	Err    bool      `json:"err"`
	Msg    string    `json:"msg"`
	Bad    string    `json:"bad"` // how the written file is ill-formed
	W      int       `json:"w"`
	H      int       `json:"h"`
	NC     int       `json:"nc"` // channels: 1 grey, 2 grey and alpha, 3, 4
	Mx     int       `json:"mx"` // largest sample
	P      [][][]int `json:"p"`  // by channel
	ICC    []int     `json:"icc"`
	HasICC bool      `json:"hasicc"`
	Intent int       `json:"intent"` // of the sRGB chunk
}

// RendIn are samples to render: float samples are v/1024.
type RendIn struct {
	Fl  []bool
	D   [][][]int
	Ops []RendOp
}

// RendTrace is a C12 record.
type RendTrace struct {
	Bytes []int     `json:"bytes"` // image header
	Kind  string    `json:"kind"`
	Pan   bool      `json:"pan"`
	Err   bool      `json:"err"`
	Msg   string    `json:"msg"`
	Ch    []ChanOut `json:"ch"`
	ICC   []int     `json:"icc"`
	Ops   []RendOp  `json:"ops"`
	After []ChanOut `json:"after"`
}

const (
	nanSample = 1073741822
	bigSample = 1073741823
)

func toFloat(v int) float32 {
	switch v {
	case nanSample:
		return float32(math.NaN())
	case bigSample:
		return 1e12
	case -bigSample:
		return float32(math.Inf(-1))
	case bigSample - 2:
		return float32(math.Inf(1))
	}
	return float32(v) / 1024
}

func recFloat(f float32) int {
	d := float64(f) * 1024
	switch {
	case math.IsNaN(d):
		return nanSample
	case d > 1<<29:
		return bigSample
	case d < -1<<29:
		return -bigSample
	}
	return int(math.Round(d))
}

// recImage records the samples of an image, floats times 1024.
func recImage(img *core.JXLImage) []ChanOut {
	out := []ChanOut{}
	for c := range img.Buffer {
		b := &img.Buffer[c]
		o := ChanOut{Fl: b.IsFloat(), W: int(b.Width), H: int(b.Height), D: [][]int{}}
		if o.Fl {
			for _, row := range b.FloatBuffer {
				r := make([]int, len(row))
				for x, v := range row {
					r[x] = recFloat(v)
				}
				o.D = append(o.D, r)
			}
		} else {
			for _, row := range b.IntBuffer {
				r := make([]int, len(row))
				for x, v := range row {
					r[x] = int(v)
				}
				o.D = append(o.D, r)
			}
		}
		out = append(out, o)
	}
	return out
}

func grid(w, h int) [][]int {
	g := make([][]int, h)
	for i := range g {
		g[i] = make([]int, w)
	}
	return g
}

// recGo records a Go image without converting its samples.
func recGo(o *RendOp, m image.Image) {
	b := m.Bounds()
	o.W, o.H = b.Dx(), b.Dy()
	if b.Min != (image.Point{}) {
		o.Bad = "bounds do not begin at 0"
	}
	var at func(x, y int) []int
	switch i := m.(type) {
	case *image.Gray:
		o.NC, o.Mx = 1, 255
		at = func(x, y int) []int { return []int{int(i.GrayAt(x, y).Y)} }
	case *image.Gray16:
		o.NC, o.Mx = 1, 65535
		at = func(x, y int) []int { return []int{int(i.Gray16At(x, y).Y)} }
	case *image.NRGBA:
		o.NC, o.Mx = 4, 255
		at = func(x, y int) []int {
			c := i.NRGBAAt(x, y)
			return []int{int(c.R), int(c.G), int(c.B), int(c.A)}
		}
	case *image.NRGBA64:
		o.NC, o.Mx = 4, 65535
		at = func(x, y int) []int {
			c := i.NRGBA64At(x, y)
			return []int{int(c.R), int(c.G), int(c.B), int(c.A)}
		}
	case *image.RGBA:
		o.NC, o.Mx = 3, 255
		at = func(x, y int) []int {
			c := i.RGBAAt(x, y)
			if c.A != 255 {
				o.NC = 4
			}
			return []int{int(c.R), int(c.G), int(c.B)}
		}
	case *image.RGBA64:
		o.NC, o.Mx = 3, 65535
		at = func(x, y int) []int {
			c := i.RGBA64At(x, y)
			return []int{int(c.R), int(c.G), int(c.B)}
		}
	default:
		o.NC, o.Mx = 4, 65535
		at = func(x, y int) []int {
			c := color.NRGBA64Model.Convert(m.At(b.Min.X+x, b.Min.Y+y)).(color.NRGBA64)
			return []int{int(c.R), int(c.G), int(c.B), int(c.A)}
		}
	}
	n := o.NC
	for c := 0; c < n; c++ {
		o.P = append(o.P, grid(o.W, o.H))
	}
	for y := 0; y < o.H; y++ {
		for x := 0; x < o.W; x++ {
			for c, v := range at(x, y) {
				o.P[c][y][x] = v
			}
		}
	}
}

// recPNG checks the chunks of a PNG and records its samples.
func recPNG(o *RendOp, b []byte) {
	if len(b) < 8 || string(b[:8]) != "\x89PNG\r\n\x1a\n" {
		o.Bad = "signature"
		return
	}
	var names []string
	ct, depth := -1, 0
	for p := 8; p < len(b); {
		if p+12 > len(b) {
			o.Bad = "cut off chunk"
			return
		}
		n := int(binary.BigEndian.Uint32(b[p:]))
		if n > len(b)-p-12 {
			o.Bad = "chunk longer than the file"
			return
		}
		ty, d := string(b[p+4:p+8]), b[p+8:p+8+n]
		if crc32.ChecksumIEEE(b[p+4:p+8+n]) != binary.BigEndian.Uint32(b[p+8+n:]) {
			o.Bad = "checksum of " + ty
			return
		}
		names = append(names, ty)
		switch ty {
		case "IHDR":
			if n != 13 {
				o.Bad = "IHDR"
				return
			}
			depth, ct = int(d[8]), int(d[9])
		case "sRGB":
			o.Intent = int(d[0])
			if n != 1 || d[0] > 3 {
				o.Bad = "sRGB"
			}
		case "iCCP":
			o.HasICC = true
			i := bytes.IndexByte(d, 0)
			if i < 1 || i > 79 || i+2 > len(d) || d[i+1] != 0 {
				o.Bad = "iCCP"
				return
			}
			z, err := zlib.NewReader(bytes.NewReader(d[i+2:]))
			if err == nil {
				var prof []byte
				prof, err = io.ReadAll(z)
				o.ICC = ints(prof)
			}
			if err != nil {
				o.Bad = "iCCP: " + err.Error()
				return
			}
		}
		p += 12 + n
	}
	s := " " + strings.Join(names, " ") + " "
	if !strings.HasPrefix(s, " IHDR ") || !strings.HasSuffix(s, " IEND ") || strings.Count(s, " IEND ") != 1 || strings.Count(s, " IHDR ") != 1 ||
		strings.Count(s, " iCCP ")+strings.Count(s, " sRGB ") > 1 || strings.Contains(s, " IDAT iCCP ") || strings.Contains(s, " IDAT sRGB ") {
		o.Bad = "chunks" + s
		return
	}
	m, err := png.Decode(bytes.NewReader(b))
	if err != nil {
		o.Bad = err.Error()
		return
	}
	recGo(o, m)
	if n, ok := map[int]int{0: 1, 2: 3, 4: 2, 6: 4}[ct]; ok && n != o.NC {
		if n == 2 && o.NC == 4 { // Go has no grey with alpha
			for c := 1; c < 3; c++ {
				for y := range o.P[0] {
					for x := range o.P[0][y] {
						if o.P[c][y][x] != o.P[0][y][x] {
							o.Bad = "grey is not grey"
						}
					}
				}
			}
			o.P = [][][]int{o.P[0], o.P[3]}
			o.NC = 2
		} else {
			o.Bad = "colour type"
		}
	}
	if depth == 16 && o.Mx != 65535 || depth == 8 && o.Mx != 255 {
		o.Bad = "bit depth"
	}
}

func recPFM(o *RendOp, b []byte) {
	var kind string
	var w, h int
	var scale float64
	rd := bytes.NewReader(b)
	if n, err := fmt.Fscanf(rd, "%s\n%d %d\n%g\n", &kind, &w, &h, &scale); n != 4 || err != nil {
		o.Bad = "header"
		return
	}
	o.NC = map[string]int{"PF": 3, "Pf": 1}[kind]
	o.W, o.H = w, h
	b = b[len(b)-rd.Len():]
	if o.NC == 0 || len(b) != 4*w*h*o.NC || math.Abs(scale) != 1 {
		o.Bad = "header or length"
		return
	}
	for c := 0; c < o.NC; c++ {
		o.P = append(o.P, grid(w, h))
	}
	for y := h - 1; y >= 0; y-- {
		for x := 0; x < w; x++ {
			for c := 0; c < o.NC; c++ {
				u := binary.BigEndian.Uint32(b)
				if scale < 0 {
					u = binary.LittleEndian.Uint32(b)
				}
				b = b[4:]
				o.P[c][y][x] = recFloat(math.Float32frombits(u) * 64)
			}
		}
	}
	o.Mx = 65536
}

func renderOne(img *core.JXLImage, o *RendOp) {
	defer func() {
		if e := recover(); e != nil {
			o.Pan, o.Msg = true, fmt.Sprint("panic: ", e)
		}
	}()
	fail := func(err error) bool {
		if err != nil {
			o.Err, o.Msg = true, err.Error()
		}
		return err != nil
	}
	switch o.Op {
	case "image":
		m, err := img.ToImage()
		if !fail(err) {
			recGo(o, m)
		}
	case "chan":
		m, err := img.ChannelToImage(o.C)
		if !fail(err) {
			recGo(o, m)
		}
	case "png":
		var b bytes.Buffer
		if !fail((&core.PNGWriter{}).WritePNG(img, &b)) {
			recPNG(o, b.Bytes())
		}
	case "pfm":
		var b bytes.Buffer
		if !fail(core.WritePFM(img, &b)) {
			recPFM(o, b.Bytes())
		}
	}
}

func init() {
	ops["render"] = func(j *Job, r *Res) {
		var in RendIn
		if err := json.Unmarshal([]byte(j.S), &in); err != nil {
			panic(err)
		}
		var img *core.JXLImage
		var err error
		if in.D == nil {
			img, err = core.NewJXLDecoder(bytes.NewReader(j.Data), nil).Decode()
		} else {
			var h *bundle.ImageHeader
			h, err = bundle.ParseImageHeader(jxlio.NewBitStreamReader(bytes.NewReader(j.Data)), 5)
			if err == nil {
				var bufs []image2.ImageBuffer
				for c, d := range in.D {
					t := image2.TYPE_INT
					if in.Fl[c] {
						t = image2.TYPE_FLOAT
					}
					b, e := image2.NewImageBuffer(t, int32(len(d)), int32(len(d[0])))
					if e != nil {
						panic(e)
					}
					for y, row := range d {
						for x, v := range row {
							if in.Fl[c] {
								b.FloatBuffer[y][x] = toFloat(v)
							} else {
								b.IntBuffer[y][x] = int32(v)
							}
						}
					}
					bufs = append(bufs, *b)
				}
				img, err = core.NewJXLImageWithBuffer(bufs, *h)
			}
		}
		if err == nil && img == nil {
			err = errors.New("no image")
		}
		if err != nil {
			r.Err, r.Msg = true, err.Error()
			return
		}
		t := RendTrace{Ch: recImage(img), Ops: in.Ops}
		for i := range t.Ops {
			renderOne(img, &t.Ops[i])
		}
		t.After = recImage(img)
		r.J, _ = json.Marshal(&t)
	}

	gens["C12"] = func(r *rand.Rand, n int, tier string, emit func(any)) {
		for n > 0 {
			k := n
			if k > 2000 {
				k = 2000
			}
			n -= k
			var jobs []*Job
			var ts []*RendTrace
			for i := 0; i < k; i++ {
				j, t := randRender(r)
				jobs = append(jobs, j)
				ts = append(ts, t)
			}
			for i, res := range runJobs(jobs) {
				t := ts[i]
				t.Pan, t.Err, t.Msg = res.Pan, res.Err, res.Msg
				if res.J != nil {
					var x RendTrace
					if err := json.Unmarshal(res.J, &x); err != nil {
						panic(err)
					}
					t.Ch, t.Ops, t.After = x.Ch, x.Ops, x.After
				}
				fixNil(t)
				emit(t)
			}
		}
	}
}

func fixNil(t *RendTrace) {
	if t.Ch == nil {
		t.Ch = []ChanOut{}
	}
	if t.After == nil {
		t.After = []ChanOut{}
	}
	if t.ICC == nil {
		t.ICC = []int{}
	}
	for i := range t.Ops {
		if t.Ops[i].P == nil {
			t.Ops[i].P = [][][]int{}
		}
		if t.Ops[i].ICC == nil {
			t.Ops[i].ICC = []int{}
		}
	}
}

// plainICC is the compressed form of a profile of 128 bytes, and the profile.
func plainICC(r *rand.Rand) []byte {
	b := []byte{128, 1, 0}
	for i := 0; i < 128; i++ {
		v := 0
		if r.Intn(3) == 0 {
			v = r.Intn(256)
		}
		b = append(b, byte(v))
	}
	return b
}

func randSample(r *rand.Rand, mx int) int {
	switch r.Intn(10) {
	case 0:
		return 0
	case 1:
		return mx
	case 2:
		return mx + 1 + r.Intn(mx+3)
	case 3:
		return -1 - r.Intn(mx+3)
	case 4:
		return mx / 2
	}
	return r.Intn(mx + 1)
}

func randRender(r *rand.Rand) (*Job, *RendTrace) {
	h := plainHdr(r, 1+r.Intn(5), 1+r.Intn(5))
	if r.Intn(4) == 0 {
		h.D.Bits = []int{1, 2, 7, 8, 9, 12, 15, 16, 17, 24}[r.Intn(10)]
	}
	if r.Intn(3) == 0 { // some alpha
		h.ECs = append(h.ECs, EC{Type: 0, D: Depth{[]int{h.D.Bits, h.D.Bits, 8, 1 + r.Intn(16)}[r.Intn(4)], 0}, Assoc: r.Intn(3) == 0})
		i := r.Intn(len(h.ECs))
		h.ECs[i], h.ECs[len(h.ECs)-1] = h.ECs[len(h.ECs)-1], h.ECs[i]
	}
	for i := range h.ECs {
		if r.Intn(3) == 0 {
			h.ECs[i].D = h.D
		}
		h.ECs[i].Assoc = h.ECs[i].Type == 0 && r.Intn(4) == 0
	}
	if r.Intn(3) == 0 {
		h.Extra, h.Orient = true, 1+r.Intn(8)
	}
	kind := "samples"
	switch r.Intn(8) {
	case 0:
		h.ICC = plainICC(r)
	case 1, 2:
		h.CE = func(r *rand.Rand, w *BW) {
			w.Put(0, 1)
			w.Bool(false)
			w.Enum(r, map[bool]int{true: 1, false: 0}[h.Gray])
			pq := r.Intn(3) == 0
			if pq {
				w.Enum(r, 1)
				if !h.Gray {
					w.Enum(r, 9)
				}
				w.Bool(false)
				w.Enum(r, 16)
			} else {
				wp := []int{1, 1, 1, 10, 11}[r.Intn(5)]
				w.Enum(r, wp)
				if !h.Gray {
					w.Enum(r, []int{1, 1, 9, 11}[r.Intn(4)])
				}
				g := r.Intn(8) == 0
				w.Bool(g)
				if g {
					w.Put(4545455, 24)
				} else {
					w.Enum(r, []int{1, 8, 8, 13, 13, 16, 17, 18}[r.Intn(8)])
				}
			}
			w.Enum(r, r.Intn(4))
		}
	}
	if r.Intn(12) == 0 {
		h.XYB = true
		kind = "xyb"
	}
	w := &BW{}
	h.write(r, w)
	in := RendIn{}
	if kind == "samples" && r.Intn(5) == 0 {
		kind = "decoded"
		f := plainF(h)
		writeFrame(r, w, h.nc(), len(h.ECs), &FrameOpts{F: f, Xf: XfOpts{Max: 1, IDs: []int{0}, Keep: 12}, TreeSz: r.Intn(3), Style: -1, VStyle: -1})
	} else {
		W, H := h.W, h.H
		if h.Orient > 4 {
			W, H = H, W
		}
		fl := r.Intn(4) == 0 || kind == "xyb"
		for c := 0; c < h.nc()+len(h.ECs); c++ {
			d := h.D.Bits
			if c >= h.nc() {
				d = h.ECs[c-h.nc()].D.Bits
			}
			mx := 1<<uint(d) - 1
			f := fl
			if r.Intn(12) == 0 && kind != "xyb" {
				f = !f
			}
			if f {
				mx = 1024
			}
			g := grid(W, H)
			for y := range g {
				for x := range g[y] {
					g[y][x] = randSample(r, mx)
					if r.Intn(40) == 0 {
						if f {
							g[y][x] = []int{nanSample, bigSample, -bigSample, bigSample - 2}[r.Intn(4)]
						} else {
							g[y][x] = []int{1<<31 - 1, -1 << 31, -1<<31 + 1, 1 << 24, 256, 65536}[r.Intn(6)]
						}
					}
				}
			}
			in.Fl = append(in.Fl, f)
			in.D = append(in.D, g)
		}
	}
	for i := 2 + r.Intn(4); i > 0; i-- {
		o := RendOp{Op: []string{"image", "image", "png", "png", "pfm", "chan"}[r.Intn(6)], Intent: -1}
		if o.Op == "chan" {
			o.C = r.Intn(h.nc()+len(h.ECs)+1) - r.Intn(2)
		}
		in.Ops = append(in.Ops, o)
	}
	s, _ := json.Marshal(&in)
	t := &RendTrace{Bytes: ints(w.b), Kind: kind, Ops: in.Ops}
	return &Job{Op: "render", Data: w.b, S: string(s)}, t
}
