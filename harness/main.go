package vh

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/pprof"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
)

var nowFn = time.Now

func env(k, def string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return def
}

func envInt(k string, def int) int {
	n, err := strconv.Atoi(os.Getenv(k))
	if err != nil {
		return def
	}
	return n
}

type outFile struct {
	f *os.File
	w *bufio.Writer
	n int
}

// huge are long texts, which are given short names in what is recorded.
var huge = []string{strings.Repeat("z", 300_000), strings.Repeat("yx", 800_000)}

func newOut(path string) *outFile {
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	return &outFile{f: f, w: bufio.NewWriterSize(f, 1<<20)}
}

func (o *outFile) put(v any) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	for i, h := range huge {
		b = bytes.ReplaceAll(b, []byte(h), []byte(fmt.Sprintf("[huge%d]", i)))
	}
	// TLC reads ASCII
	for _, r := range string(b) {
		if r < 0x80 {
			o.w.WriteByte(byte(r))
		} else {
			fmt.Fprintf(o.w, "<U+%04X>", r)
		}
	}
	o.w.WriteByte('\n')
	o.n++
}

func (o *outFile) close() {
	o.w.Flush()
	o.f.Close()
}

var progress atomic.Int64

// watchdog ends the process when a run hangs, recording that it did.
func watchdog(o *outFile, cur func() (*World, M)) {
	go func() {
		last, since := progress.Load(), time.Now()
		for {
			time.Sleep(200 * time.Millisecond)
			if p := progress.Load(); p != last {
				last, since = p, time.Now()
				continue
			}
			if time.Since(since) > 20*time.Second {
				w, m := cur()
				if m == nil && w != nil {
					ops := append(append([]M{}, w.ops...), M{"o": "panic", "m": "hangs: " + w.cur})
					m = M{"cells": w.ncells, "qm": M{}, "ops": ops}
				}
				if m != nil {
					m["qm"] = allQ()
					o.put(m)
				}
				o.close()
				fmt.Println("VH-HANG")
				if os.Getenv("VH_DUMP") != "" {
					pprof.Lookup("goroutine").WriteTo(os.Stdout, 2)
				}
				os.Exit(0)
			}
		}
	}()
}

func allQ() M {
	m := M{}
	for _, q := range append(append([]string{}, queries...), cliQueries...) {
		m[q] = []string{}
	}
	return m
}

// inBubble runs f in a synctest bubble and reports a panic of the bubble
// (deadlock).
func inBubble(t *testing.T, f func()) (perr any) {
	defer func() { perr = recover() }()
	synctest.Test(t, func(t *testing.T) { f() })
	return nil
}

// Main is the driver.
func Main(t *testing.T) {
	switch env("VH_MODE", "") {
	case "rand":
		mainRand(t)
	case "conc":
		mainConc(t)
	case "real":
		mainReal(t)
	case "replay":
		mainReplay(t)
	default:
		t.Fatal("unknown mode")
	}
}

func runWorld(t *testing.T, o *outFile, cur **World, cells []string, f func(w *World)) {
	var w *World
	perr := inBubble(t, func() {
		w = NewWorld(cells)
		*cur = w
		f(w)
		w.Close()
	})
	if perr != nil && w != nil {
		w.ops = append(w.ops, M{"o": "panic", "m": fmt.Sprintf("blocked: %v (%s)", perr, w.cur)})
	}
	if perr == nil && len(w.mws) > 0 && !w.dead {
		script := w.script
		var p *World
		perr = inBubble(t, func() {
			p = NewWorld(cells)
			p.plain = true
			for _, op := range script {
				p.Do(op)
			}
			p.Close()
		})
		if perr != nil || p.dead {
			panic(fmt.Sprintf("without middleware: %v %v", perr, p.ops))
		}
		w.mwCompare(p)
	}
	o.put(w.Run())
	progress.Add(1)
}

func mainRand(t *testing.T) {
	o := newOut(env("VH_OUT", "/dev/stdout"))
	var cur *World
	watchdog(o, func() (*World, M) { return cur, nil })
	prof := env("VH_PROFILE", "")
	seed := int64(envInt("VH_SEED", 1))
	n := envInt("VH_N", 10)
	budget := time.Duration(envInt("VH_BUDGET_MS", 600000)) * time.Millisecond
	begin := time.Now()
	for i := 0; i < n && time.Since(begin) < budget; i++ {
		rng := rand.New(rand.NewSource(seed*1_000_003 + int64(i)))
		p := Profile(prof, rng, i)
		runWorld(t, o, &cur, []string{"c1", "c2", "c3"}, func(w *World) { Random(rng, p, w) })
	}
	o.close()
	fmt.Printf("VH-RUNS %d\n", o.n)
}

// mainReplay executes behaviours that TLC generated from the specification.
func mainReplay(t *testing.T) {
	o := newOut(env("VH_OUT", "/dev/stdout"))
	var cur *World
	watchdog(o, func() (*World, M) { return cur, nil })
	in, err := os.Open(env("VH_IN", ""))
	if err != nil {
		t.Fatal(err)
	}
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var ops []Op
		if err := json.Unmarshal(sc.Bytes(), &ops); err != nil {
			t.Fatalf("%v: %s", err, sc.Text())
		}
		runWorld(t, o, &cur, []string{"c1", "c2", "c3"}, func(w *World) {
			g := &gen{Rand: rand.New(rand.NewSource(1)), w: w, p: &Prof{}, cells: len(w.cells), rdone: map[int]bool{}}
			step := func(op Op) {
				if op.O == "readall" || op.O == "searchall" {
					g.step(op.O)
				} else {
					w.Do(op)
				}
			}
			for _, op := range ops {
				step(op)
			}
			for j := range w.chs { // what is left in the channels
				for k := 0; k < 3; k++ {
					step(Op{O: "recv", J: j + 1})
				}
				step(Op{O: "stats", J: j + 1, C: 1})
			}
			step(Op{O: "tick", D: 1})
			step(Op{O: "readall"})
			step(Op{O: "searchall"})
			step(Op{O: "again"})
		})
	}
	o.close()
	fmt.Printf("VH-RUNS %d\n", o.n)
}
