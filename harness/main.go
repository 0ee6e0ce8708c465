// vharness drives the real jxl-go code and records what it did, as NDJSON traces that the
// TLA+ specifications in /verif/spec judge. It contains no oracle of its own.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"os"

	"github.com/sirupsen/logrus"
)

type genFunc func(r *rand.Rand, n int, tier string, emit func(any))

var gens = map[string]genFunc{}

func main() {
	logrus.SetOutput(io.Discard)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vharness gen|worker ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "gen":
		fs := flag.NewFlagSet("gen", flag.ExitOnError)
		kind := fs.String("kind", "", "generator")
		seed := fs.Int64("seed", 1, "seed")
		n := fs.Int("n", 100, "number of cases")
		tier := fs.String("tier", "quick", "tier")
		out := fs.String("out", "", "output file")
		fs.Parse(os.Args[2:])
		g, ok := gens[*kind]
		if !ok {
			fmt.Fprintln(os.Stderr, "unknown generator", *kind)
			os.Exit(2)
		}
		f, err := os.Create(*out)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		w := bufio.NewWriterSize(f, 1<<20)
		cnt := 0
		g(rand.New(rand.NewSource(*seed)), *n, *tier, func(v any) {
			b, err := json.Marshal(v)
			if err != nil {
				panic(err)
			}
			w.Write(b)
			w.WriteByte('\n')
			cnt++
		})
		w.Flush()
		f.Close()
		fmt.Printf("generated %d\n", cnt)
	case "worker":
		workerMain(os.Args[2:])
	default:
		if c, ok := cmds[os.Args[1]]; ok {
			c(os.Args[2:])
			return
		}
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

var cmds = map[string]func([]string){}
