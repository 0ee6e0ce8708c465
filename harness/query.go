package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"image"
	"image/color"
	"io"
	"math/rand"

	jxl "github.com/kpfaulkner/jxl-go"
	"github.com/kpfaulkner/jxl-go/core"
)

// QueryOut is the answer to one question about a file.
type QueryOut struct {
	Q     string `json:"q"` // config, rconfig (by the registry), header, decode, image, rimage
	Pan   bool   `json:"pan"`
	Err   bool   `json:"err"`
	Nil   bool   `json:"nil"`
	Msg   string `json:"msg"`
	W     int    `json:"w"`
	H     int    `json:"h"`
	Model string `json:"model"`
	NC    int    `json:"nc"`  // colour channels (header); channels (decode)
	EC    []int  `json:"ec"`  // types of the extra channels
	Form  string `json:"fmt"` // format found by the registry
	Sum   int    `json:"sum"` // checksum of the samples
}

// QueryTrace is a C15 record.
type QueryTrace struct {
	Bytes []int      `json:"bytes"`
	Kind  string     `json:"kind"`
	Pan   bool       `json:"pan"`
	Msg   string     `json:"msg"`
	A     []QueryOut `json:"a"`
}

func modelName(m color.Model) string {
	switch m {
	case color.GrayModel:
		return "gray"
	case color.Gray16Model:
		return "gray16"
	case color.NRGBAModel:
		return "nrgba"
	case color.NRGBA64Model:
		return "nrgba64"
	case color.RGBAModel:
		return "rgba"
	case color.RGBA64Model:
		return "rgba64"
	}
	return "other"
}

// onlyReader hides everything but Read.
type onlyReader struct{ io.Reader }

func ask(o *QueryOut, reader string, b []byte, dec *core.JXLDecoder) {
	defer func() {
		if e := recover(); e != nil {
			o.Pan, o.Msg = true, fmt.Sprint("panic: ", e)
		}
	}()
	o.EC = []int{}
	var err error
	var rd io.Reader = mkReader(reader, b)
	if o.Q[0] == 'r' && len(b)%3 == 0 {
		rd = onlyReader{rd}
	}
	img := func(m image.Image) {
		if m == nil {
			o.Nil = true
			return
		}
		o.W, o.H, o.Model = m.Bounds().Dx(), m.Bounds().Dy(), modelName(m.ColorModel())
	}
	switch o.Q {
	case "config", "rconfig":
		var c image.Config
		if o.Q == "config" {
			c, err = jxl.DecodeConfig(rd)
		} else {
			c, o.Form, err = image.DecodeConfig(rd)
		}
		if err == nil {
			o.W, o.H = c.Width, c.Height
			o.Model = modelName(c.ColorModel)
		}
	case "image", "rimage":
		var m image.Image
		if o.Q == "image" {
			m, err = jxl.Decode(rd)
		} else {
			m, o.Form, err = image.Decode(rd)
		}
		if err == nil {
			img(m)
		}
	case "header":
		h, e := dec.GetImageHeader()
		if err = e; err == nil {
			if h == nil {
				o.Nil = true
				return
			}
			o.W, o.H, o.NC = int(h.OrientedWidth), int(h.OrientedHeight), h.GetColourChannelCount()
			for _, e := range h.ExtraChannelInfo {
				o.EC = append(o.EC, int(e.EcType))
			}
		}
	case "decode":
		m, e := dec.Decode()
		if err = e; err == nil {
			if m == nil {
				o.Nil = true
				return
			}
			o.W, o.H, o.NC = int(m.Width), int(m.Height), len(m.Buffer)
			o.Sum = imageSum(m)
			for i := 0; i < m.NumExtraChannels(); i++ {
				t, _ := m.GetExtraChannelType(i)
				o.EC = append(o.EC, int(t))
			}
		}
	}
	if err != nil {
		o.Err, o.Msg = true, err.Error()
	}
}

func imageSum(m *core.JXLImage) int {
	h := fnv.New32a()
	for i := range m.Buffer {
		b := &m.Buffer[i]
		binary.Write(h, binary.LittleEndian, []int32{b.Width, b.Height})
		for _, row := range b.IntBuffer {
			binary.Write(h, binary.LittleEndian, row)
		}
		for _, row := range b.FloatBuffer {
			binary.Write(h, binary.LittleEndian, row)
		}
	}
	return int(h.Sum32() >> 2)
}

func init() {
	ops["query"] = func(j *Job, r *Res) {
		var qs []QueryOut
		json.Unmarshal([]byte(j.S), &qs)
		var dec *core.JXLDecoder
		for i := range qs {
			if dec == nil || j.N == 0 { // one decoder for all questions, or a fresh one
				dec = core.NewJXLDecoder(mkReader(j.Reader, j.Data), nil)
			}
			ask(&qs[i], j.Reader, j.Data, dec)
		}
		r.J, _ = json.Marshal(qs)
	}
	gens["C15"] = func(r *rand.Rand, n int, tier string, emit func(any)) {
		for n > 0 {
			k := n
			if k > 2000 {
				k = 2000
			}
			n -= k
			var jobs []*Job
			var ts []*QueryTrace
			for i := 0; i < k; i++ {
				b, kind := queryFile(r)
				qs := []QueryOut{{Q: "config"}, {Q: "rconfig"}, {Q: "header"}, {Q: "decode"}, {Q: "image"}, {Q: "rimage"}}
				for i := r.Intn(3); i > 0; i-- {
					qs = append(qs, QueryOut{Q: []string{"header", "decode"}[r.Intn(2)]})
				}
				r.Shuffle(len(qs), func(i, j int) { qs[i], qs[j] = qs[j], qs[i] })
				s, _ := json.Marshal(qs)
				jobs = append(jobs, &Job{Op: "query", Data: b, S: string(s), N: r.Intn(2), Reader: []string{"", "", "dribble1", "dribble3", "eager"}[r.Intn(5)]})
				ts = append(ts, &QueryTrace{Bytes: ints(b), Kind: kind})
			}
			for i, x := range runJobs(jobs) {
				t := ts[i]
				t.Pan, t.Msg, t.A = x.Pan, x.Msg, []QueryOut{}
				if x.J != nil {
					json.Unmarshal(x.J, &t.A)
				}
				for i := range t.A {
					if t.A[i].EC == nil {
						t.A[i].EC = []int{}
					}
				}
				emit(t)
			}
		}
	}
}

// queryFile is a file whose header is worth asking about.
func queryFile(r *rand.Rand) ([]byte, string) {
	var b []byte
	kind := "image"
	switch r.Intn(10) {
	case 0, 1: // any header, hardly ever an image behind it
		p := randHdr(r)
		if r.Intn(3) == 0 { // a side only level 10 allows
			p.W, p.H, p.Ratio, p.AllDef = 1<<18-1+r.Intn(4), 1+r.Intn(2), 0, false
			if r.Intn(2) == 0 {
				p.W, p.H = p.H, p.W
			}
		}
		w := &BW{}
		p.write(r, w)
		b = w.b
		for j := r.Intn(40); j > 0; j-- {
			b = append(b, byte(r.Intn(256)))
		}
		kind = "header"
	default:
		h := plainHdr(r, 1+r.Intn(6), 1+r.Intn(6))
		if r.Intn(6) == 0 { // shapes given by a ratio
			h.Ratio = 1 + r.Intn(7)
			h.W = []int{0, h.H, h.H * 12 / 10, h.H * 4 / 3, h.H * 3 / 2, h.H * 16 / 9, h.H * 5 / 4, h.H * 2}[h.Ratio]
		}
		if r.Intn(2) == 0 {
			h.Extra, h.Orient = true, 1+r.Intn(8)
			if r.Intn(4) == 0 {
				h.Intr = &[2]int{1 + r.Intn(300), 1 + r.Intn(300)}
			}
		}
		for i := range h.ECs {
			h.ECs[i].Type = []int{0, 0, 1, 4, 16, 3, 6}[r.Intn(7)]
			h.ECs[i].Assoc = h.ECs[i].Type == 0 && r.Intn(4) == 0
		}
		switch r.Intn(8) {
		case 0:
			h.ICC = plainICC(r)
		case 1:
			b, _ := randICC(r)
			h.ICC = b
		}
		h.XYB = r.Intn(8) == 0
		w := &BW{}
		h.write(r, w)
		writeFrame(r, w, h.nc(), len(h.ECs), &FrameOpts{F: plainF(h), Xf: XfOpts{Max: 1, IDs: []int{0}, Keep: 12}, TreeSz: r.Intn(3), Style: -1, VStyle: -1})
		b = w.b
	}
	switch r.Intn(8) {
	case 0, 1, 2:
		b = wrap(r, b)
		kind += " in boxes"
	case 3:
		b = bytes.Clone(b[:r.Intn(len(b)+1)])
		kind = "cut"
	case 4:
		q := r.Intn(len(b) * 8)
		b = bytes.Clone(b)
		b[q/8] ^= 1 << uint(q%8)
		kind = "flip"
	}
	return b, kind
}
