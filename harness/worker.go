package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/kpfaulkner/jxl-go/bundle"
	"github.com/kpfaulkner/jxl-go/core"
	"github.com/kpfaulkner/jxl-go/options"
)

// Job is one call of the real code, run in a child process so that a crash,
// a runaway allocation or an endless loop is an observation and not an accident.
type Job struct {
	Op     string
	Data   []byte
	B      []byte
	Reader string // kind of reader, see mkReader
	Procs  int    // GOMAXPROCS
	Maxg   int    // options.MaxGoroutines
	N      int
	S      string
}

// ChanOut is one decoded channel. Float samples are recorded as round(f*max*64).
type ChanOut struct {
	Fl bool    `json:"fl"`
	W  int     `json:"w"`
	H  int     `json:"h"`
	D  [][]int `json:"d"`
}

// Res is what the call returned.
type Res struct {
	Err  bool
	Nil  bool // neither image nor error
	Pan  bool
	Msg  string
	W, H int
	Ch   []ChanOut
	B    []byte
	I    []int
	J    json.RawMessage `json:",omitempty"`
}

const badFloat = 1073741823 // a sample that is no number or too large to record

func scaled(f float32, max float64) int {
	v := math.Round(float64(f) * max * 64)
	if math.IsNaN(v) || math.Abs(v) > 1<<29 {
		return badFloat
	}
	return int(v)
}

func depths(data []byte) []float64 {
	h, err := core.NewJXLDecoder(bytes.NewReader(data), nil).GetImageHeader()
	if err != nil || h == nil {
		return nil
	}
	return headerDepths(h)
}

func headerDepths(h *bundle.ImageHeader) []float64 {
	var o []float64
	mx := func(b uint32) float64 { return math.Exp2(float64(b)) - 1 }
	for c := 0; c < h.GetColourChannelCount(); c++ {
		o = append(o, mx(h.BitDepth.BitsPerSample))
	}
	for _, e := range h.ExtraChannelInfo {
		o = append(o, mx(e.BitDepth.BitsPerSample))
	}
	return o
}

func outImage(img *core.JXLImage, mx []float64) []ChanOut {
	out := []ChanOut{}
	for c := range img.Buffer {
		b := &img.Buffer[c]
		o := ChanOut{Fl: b.IsFloat(), W: int(b.Width), H: int(b.Height), D: [][]int{}}
		m := 1.0
		if c < len(mx) {
			m = mx[c]
		}
		if o.Fl {
			for _, row := range b.FloatBuffer {
				r := make([]int, len(row))
				for x, v := range row {
					r[x] = scaled(v, m)
				}
				o.D = append(o.D, r)
			}
		} else {
			for _, row := range b.IntBuffer {
				r := make([]int, len(row))
				for x, v := range row {
					r[x] = int(v)
				}
				o.D = append(o.D, r)
			}
		}
		out = append(out, o)
	}
	return out
}

func opts(j *Job) *options.JXLOptions {
	if j.Maxg == 0 {
		return nil
	}
	return &options.JXLOptions{MaxGoroutines: j.Maxg}
}

// ops are the operations a worker knows.
var ops = map[string]func(j *Job, r *Res){
	"decode": func(j *Job, r *Res) {
		img, err := core.NewJXLDecoder(mkReader(j.Reader, j.Data), opts(j)).Decode()
		if err != nil {
			r.Err, r.Msg = true, err.Error()
			return
		}
		if img == nil {
			r.Nil = true
			return
		}
		r.W, r.H = int(img.Width), int(img.Height)
		r.Ch = outImage(img, depths(j.Data))
	},
}

func runJob(j *Job) (r *Res) {
	r = &Res{}
	defer func() {
		if e := recover(); e != nil {
			r.Pan = true
			r.Msg = fmt.Sprint("panic: ", e)
		}
	}()
	if j.Procs > 0 {
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(j.Procs))
	}
	ops[j.Op](j, r)
	return
}

func workerMain(args []string) {
	if !raceBuild { // the race detector needs much address space
		lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	dec := json.NewDecoder(in)
	for {
		var j Job
		if err := dec.Decode(&j); err != nil {
			return
		}
		b, _ := json.Marshal(runJob(&j))
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}

// child is a running worker process.
type child struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *tail
}

// tail keeps the first part of what a crashing worker prints.
type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	if len(t.b) < 2000 {
		t.b = append(t.b, p...)
	}
	t.mu.Unlock()
	return len(p), nil
}

func startChild() *child {
	c := &child{err: &tail{}}
	c.cmd = exec.Command(os.Args[0], "worker")
	c.cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1")
	c.in, _ = c.cmd.StdinPipe()
	o, _ := c.cmd.StdoutPipe()
	c.cmd.Stderr = c.err
	if err := c.cmd.Start(); err != nil {
		panic(err)
	}
	c.out = bufio.NewReaderSize(o, 1<<20)
	return c
}

func (c *child) stop() {
	c.in.Close()
	c.cmd.Process.Kill()
	c.cmd.Wait()
}

// Timeout of one call.
var Timeout = 20 * time.Second

// Patience is how many times that a call may take that still works.
var Patience time.Duration = 2

// idle tells when a process has had its time: after the timeout when it no longer works, after Patience
// times the timeout in any case.  On a machine that is busy with other things work takes longer.
func idle(pid int, done chan bool) chan bool {
	ch := make(chan bool, 1)
	ticks := func() int64 {
		b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
		if err != nil {
			return -1
		}
		f := strings.Fields(string(b[bytes.LastIndexByte(b, ')')+1:]))
		if len(f) < 13 {
			return -1
		}
		u, _ := strconv.ParseInt(f[11], 10, 64)
		s, _ := strconv.ParseInt(f[12], 10, 64)
		return u + s
	}
	go func() {
		start, last, still := time.Now(), int64(0), 0
		wait := Timeout
		for {
			select {
			case <-done:
				return
			case <-time.After(wait):
			}
			wait = 3 * time.Second
			t := ticks()
			if t <= last+2 {
				still++
			} else {
				still = 0
			}
			last = t
			if t < 0 || still >= 3 || time.Since(start) > Patience*Timeout {
				ch <- true
				return
			}
		}
	}()
	return ch
}

// call runs one job; a dead child is replaced by the caller.
func (c *child) call(j *Job) (*Res, bool) {
	b, _ := json.Marshal(j)
	type rd struct {
		l   []byte
		err error
	}
	ch := make(chan rd, 1)
	go func() {
		if _, err := c.in.Write(append(b, '\n')); err != nil {
			ch <- rd{nil, err}
			return
		}
		l, err := c.out.ReadBytes('\n')
		ch <- rd{l, err}
	}()
	done := make(chan bool)
	defer close(done)
	select {
	case x := <-ch:
		if x.err == nil {
			r := &Res{}
			if json.Unmarshal(x.l, r) == nil {
				return r, true
			}
		}
		c.stop()
		c.err.mu.Lock()
		m := string(c.err.b)
		c.err.mu.Unlock()
		if len(m) > 300 {
			m = m[:300]
		}
		return &Res{Pan: true, Msg: "crash: " + m}, false
	case <-idle(c.cmd.Process.Pid, done):
		c.stop()
		return &Res{Pan: true, Msg: "did not return"}, false
	}
}

// runJobs runs the jobs on all cores and returns the results in order.
func runJobs(jobs []*Job) []*Res {
	res := make([]*Res, len(jobs))
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	next := 0
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c := startChild()
			ok := true
			defer func() {
				if ok {
					c.stop()
				}
			}()
			for {
				mu.Lock()
				k := next
				next++
				mu.Unlock()
				if k >= len(jobs) {
					return
				}
				if !ok {
					c = startChild()
				}
				res[k], ok = c.call(jobs[k])
			}
		}()
	}
	wg.Wait()
	return res
}
