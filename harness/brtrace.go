package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"math/rand"

	"github.com/kpfaulkner/jxl-go/jxlio"
)

// BrOp is one call on the bit reader and what it returned.
type BrOp struct {
	Op  string `json:"op"`
	N   int    `json:"n"`
	M   int    `json:"m"`
	A   []int  `json:"a"`   // extra arguments (U32 table)
	V   []int  `json:"v"`   // result: 4 limbs of 16 bits, or bytes
	Err bool   `json:"err"` // an error was returned
	Pan bool   `json:"pan"` // the call panicked
	C   int    `json:"c"`   // BitsRead() afterwards
}

type BrTrace struct {
	Bytes []int  `json:"bytes"`
	Rd    string `json:"rd"`
	Ops   []BrOp `json:"ops"`
}

func limbs(v uint64) []int {
	return []int{int(v & 0xffff), int(v >> 16 & 0xffff), int(v >> 32 & 0xffff), int(v >> 48 & 0xffff)}
}

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

// dribble returns at most k bytes per Read: allowed by io.Reader.
type dribble struct {
	*bytes.Reader
	k int
}

func (d *dribble) Read(p []byte) (int, error) {
	if len(p) > d.k {
		p = p[:d.k]
	}
	return d.Reader.Read(p)
}

// eager returns io.EOF together with the last bytes: allowed by io.Reader.
type eager struct{ *bytes.Reader }

func (e *eager) Read(p []byte) (int, error) {
	n, err := e.Reader.Read(p)
	if err == nil && n > 0 && e.Reader.Len() == 0 {
		err = io.EOF
	}
	return n, err
}

func mkReader(kind string, b []byte) io.ReadSeeker {
	switch kind {
	case "dribble1":
		return &dribble{bytes.NewReader(b), 1}
	case "dribble3":
		return &dribble{bytes.NewReader(b), 3}
	case "eager":
		return &eager{bytes.NewReader(b)}
	}
	return bytes.NewReader(b)
}

func doBrOp(br *jxlio.BitStreamReader, o *BrOp) {
	defer func() {
		if r := recover(); r != nil {
			o.Pan = true
		}
		o.C = int(br.BitsRead())
		if int(br.GetBitsCount()) != o.C {
			o.C = -1
		}
		if o.V == nil {
			o.V = []int{}
		}
		if o.A == nil {
			o.A = []int{}
		}
	}()
	var err error
	var v uint64
	switch o.Op {
	case "bits":
		v, err = br.ReadBits(uint32(o.N))
	case "show":
		v, err = br.ShowBits(o.N)
	case "skip":
		err = br.SkipBits(uint32(o.N))
	case "skipb":
		var k int64
		k, err = br.Skip(uint32(o.N))
		v = uint64(k)
	case "bool":
		var b bool
		b, err = br.ReadBool()
		if b {
			v = 1
		}
	case "byte":
		var b byte
		b, err = br.ReadByte()
		v = uint64(b)
	case "align":
		err = br.ZeroPadToByte()
	case "bytes":
		buf := make([]byte, o.N)
		err = br.ReadBytesToBuffer(buf, uint32(o.N))
		if err == nil {
			o.V = ints(buf)
		}
	case "at":
		buf := make([]byte, o.M)
		err = br.ReadByteArrayWithOffsetAndLength(buf, int64(o.N), uint32(o.M))
		if err == nil {
			o.V = ints(buf)
		}
	case "bu64":
		v, err = br.ReadBytesUint64(o.N)
	case "seek":
		var k int64
		k, err = br.Seek(int64(o.N), o.M)
		v = uint64(k)
	case "reset":
		err = br.Reset()
	case "atend":
		if br.AtEnd() {
			v = 1
		}
	case "u32":
		var u uint32
		u, err = br.ReadU32(o.A[0], o.A[1], o.A[2], o.A[3], o.A[4], o.A[5], o.A[6], o.A[7])
		v = uint64(u)
	case "u64":
		v, err = br.ReadU64()
	case "u8":
		var u int
		u, err = br.ReadU8()
		v = uint64(u)
	case "enum":
		var u int32
		u, err = br.ReadEnum()
		v = uint64(u)
	case "f16":
		var f float32
		f, err = br.ReadF16()
		v = uint64(math.Float32bits(f))
	case "icc":
		var u int32
		u, err = br.ReadICCVarint()
		v = uint64(u)
	case "zig32":
		// pure function: A = 4 limbs of the argument
		u := uint32(o.A[0]) | uint32(o.A[1])<<16
		v = uint64(uint32(jxlio.UnpackSigned(u)))
	case "zig64":
		u := uint64(o.A[0]) | uint64(o.A[1])<<16 | uint64(o.A[2])<<32 | uint64(o.A[3])<<48
		v = uint64(jxlio.UnpackSigned64(u))
	default:
		panic(fmt.Sprint("unknown op ", o.Op))
	}
	if err != nil {
		o.Err = true
		return
	}
	if o.V == nil {
		o.V = limbs(v)
	}
}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	switch r.Intn(6) {
	case 0:
		for i := range b {
			b[i] = 0xff
		}
	case 1: // all zero
	case 2:
		for i := range b {
			b[i] = byte(r.Intn(256)) | byte(r.Intn(256))
		}
	default:
		r.Read(b)
	}
	return b
}

var u32Tables = [][]int{
	{0, 0, 1, 0, 2, 4, 18, 6}, {1, 9, 1, 13, 1, 18, 1, 30}, {0, 3, 8, 6, 72, 10, 1096, 13},
	{0, 10, 1024, 14, 17408, 22, 4211712, 30}, {8, 0, 16, 0, 32, 0, 1, 6}, {32, 5, 16, 0, 24, 0, 1, 6},
	{0, 8, 256, 11, 2304, 14, 18688, 30}, {0, 0, 0, 0, 0, 0, 0, 32}, {1073741823, 30, 5, 32, 2147483647, 31, 1, 0},
}

func brSession(r *rand.Rand, numbers bool, emit func(any)) {
	n := r.Intn(24)
	if r.Intn(4) == 0 {
		n = r.Intn(4)
	}
	if r.Intn(8) == 0 {
		n = 40 + r.Intn(80)
	}
	b := randBytes(r, n)
	rd := []string{"plain", "plain", "plain", "dribble1", "dribble3", "eager"}[r.Intn(6)]
	br := jxlio.NewBitStreamReader(mkReader(rd, b))
	t := BrTrace{Bytes: ints(b), Rd: rd}
	k := 3 + r.Intn(22)
	needSeek := false
	for i := 0; i < k; i++ {
		var o BrOp
		x := r.Intn(100)
		if needSeek {
			if r.Intn(2) == 0 {
				o = BrOp{Op: "reset"}
			} else {
				o = BrOp{Op: "seek", N: r.Intn(n + 1), M: 0}
			}
		} else if numbers && x < 80 {
			switch r.Intn(10) {
			case 0, 1:
				o = BrOp{Op: "u32", A: u32Tables[r.Intn(len(u32Tables))]}
			case 2, 3:
				o = BrOp{Op: "u64"}
			case 4:
				o = BrOp{Op: "u8"}
			case 5:
				o = BrOp{Op: "enum"}
			case 6:
				o = BrOp{Op: "f16"}
			case 7:
				o = BrOp{Op: "icc"}
			case 8:
				v := r.Uint64() >> uint(r.Intn(33))
				if r.Intn(3) == 0 {
					v = math.MaxUint64 - uint64(r.Intn(4))
				}
				o = BrOp{Op: "zig32", A: limbs(v & 0xffffffff)}
			case 9:
				v := r.Uint64() >> uint(r.Intn(64))
				if r.Intn(3) == 0 {
					v = math.MaxUint64 - uint64(r.Intn(4))
				}
				o = BrOp{Op: "zig64", A: limbs(v)}
			}
		} else {
			switch {
			case x < 24:
				o = BrOp{Op: "bits", N: r.Intn(20)}
			case x < 34:
				o = BrOp{Op: "bits", N: r.Intn(67)}
			case x < 46:
				o = BrOp{Op: "show", N: r.Intn(26)}
			case x < 50:
				o = BrOp{Op: "show", N: r.Intn(66)}
			case x < 58:
				o = BrOp{Op: "skip", N: r.Intn(40)}
			case x < 62:
				o = BrOp{Op: "skipb", N: r.Intn(6)}
			case x < 68:
				o = BrOp{Op: "bool"}
			case x < 72:
				o = BrOp{Op: "byte"}
			case x < 78:
				o = BrOp{Op: "align"}
			case x < 83:
				o = BrOp{Op: "bytes", N: r.Intn(6)}
			case x < 86:
				o = BrOp{Op: "bu64", N: r.Intn(10)}
			case x < 89:
				o = BrOp{Op: "at", N: r.Intn(n + 2), M: r.Intn(5)}
			case x < 92:
				o = BrOp{Op: "seek", N: r.Intn(n + 1), M: 0}
			case x < 94:
				o = BrOp{Op: "seek", N: 0, M: 1}
			case x < 95:
				o = BrOp{Op: "seek", N: -r.Intn(n + 1), M: 2}
			case x < 97:
				o = BrOp{Op: "reset"}
			default:
				o = BrOp{Op: "atend"}
			}
		}
		doBrOp(br, &o)
		t.Ops = append(t.Ops, o)
		if o.Pan {
			break
		}
		if needSeek && !o.Err {
			needSeek = false
		}
		if o.Err && o.Op != "show" {
			needSeek = true
		}
	}
	emit(t)
}

// brExhaustive enumerates short programs over a small byte string: every start alignment x every
// pair of operations near the end of the data.
func brExhaustive(r *rand.Rand, emit func(any)) {
	ops := []BrOp{{Op: "bool"}, {Op: "align"}, {Op: "byte"}, {Op: "atend"}, {Op: "skipb", N: 1}, {Op: "skipb", N: 2},
		{Op: "bytes", N: 1}, {Op: "seek", N: 1, M: 0}, {Op: "seek", N: 0, M: 1}, {Op: "reset"}, {Op: "at", N: 1, M: 1}}
	for _, n := range []int{1, 7, 8, 9, 15, 16, 17, 24} {
		ops = append(ops, BrOp{Op: "bits", N: n}, BrOp{Op: "show", N: n}, BrOp{Op: "skip", N: n})
	}
	for start := 0; start < 18; start++ {
		for i := range ops {
			for j := range ops {
				if (i+j+start)%3 != r.Intn(3) {
					continue
				}
				b := make([]byte, 3)
				r.Read(b)
				br := jxlio.NewBitStreamReader(bytes.NewReader(b))
				t := BrTrace{Bytes: ints(b), Rd: "plain"}
				seq := []BrOp{{Op: "bits", N: start}, ops[i], ops[j], {Op: "bits", N: 3}}
				for _, o := range seq {
					doBrOp(br, &o)
					t.Ops = append(t.Ops, o)
					if o.Pan || o.Err && o.Op != "show" {
						break
					}
				}
				emit(t)
			}
		}
	}
}

func init() {
	gens["C01"] = func(r *rand.Rand, n int, tier string, emit func(any)) {
		brExhaustive(r, emit)
		for i := 0; i < n; i++ {
			brSession(r, false, emit)
		}
	}
	gens["C02"] = func(r *rand.Rand, n int, tier string, emit func(any)) {
		// every half float
		step := 1
		if tier == "quick" {
			step = 7
		}
		for base := 0; base < 65536; base += 64 * step {
			bs := []byte{}
			t := BrTrace{Rd: "plain"}
			for k := 0; k < 64; k++ {
				v := base + k*step + r.Intn(step)
				bs = append(bs, byte(v), byte(v>>8))
			}
			t.Bytes = ints(bs)
			br := jxlio.NewBitStreamReader(bytes.NewReader(bs))
			for k := 0; k < 64; k++ {
				o := BrOp{Op: "f16"}
				doBrOp(br, &o)
				t.Ops = append(t.Ops, o)
				if o.Err {
					s := BrOp{Op: "seek", N: 2 * (k + 1)}
					doBrOp(br, &s)
					t.Ops = append(t.Ops, s)
				}
			}
			emit(t)
		}
		// every 8-bit number form pattern and every enumeration pattern
		for v := 0; v < 2048; v++ {
			b := []byte{byte(v), byte(v >> 8), 0xa5}
			for _, op := range []string{"u8", "enum"} {
				br := jxlio.NewBitStreamReader(bytes.NewReader(b))
				o := BrOp{Op: op}
				doBrOp(br, &o)
				emit(BrTrace{Bytes: ints(b), Rd: "plain", Ops: []BrOp{o}})
			}
		}
		for i := 0; i < n; i++ {
			brSession(r, true, emit)
		}
	}
}
