package vh

import (
	"fmt"
	"math/rand"
)

type cgen struct {
	*rand.Rand
	p    *Prog
	nt   int   // traces created so far
	ne   int   // events
	nc   int   // contexts
	sub  []int // contexts of stream calls made so far, not cancelled
	coll []int // collector per trace
	cats []string
	core bool
	lazy int // one in n events is lazy
	keys bool
	via  bool // searches over HTTP, and of several searchers
}

// genProg makes a small concurrent program.
func genProg(kind string, rng *rand.Rand, i int) *Prog {
	g := &cgen{Rand: rng, p: &Prog{Size: []int{1000}, GMax: 1000}, cats: []string{"a", "b"}, lazy: 3}
	p := g.p
	p.Own = i%4 == 3
	nth := 2 + rng.Intn(2)
	var w map[string]int
	nops := 2 + rng.Intn(3)
	if k := envInt("VH_SCALE", 1); k > 1 {
		nth += 2
		nops *= k
	}
	setup := 1
	focus, duel := false, false
	switch kind {
	case "ev": // one or two traces, many hands
		w = M2("ev", 12, "fin", 2, "evs", 5, "iserr", 2, "isfin", 2, "copy", 2)
		setup = 1 + rng.Intn(2)
		g.core = true
		p.Clk = rng.Intn(2) == 0
		if rng.Intn(4) == 0 {
			p.GMax = 10
		}
		duel = rng.Intn(3) == 0
	case "fin": // freezing
		duel = rng.Intn(3) == 0
		w = M2("ev", 8, "fin", 6, "evs", 4, "iserr", 3, "isfin", 3, "copy", 3)
		setup = 1
		g.core = true
		p.Clk = rng.Intn(2) == 0
	case "max": // event limit
		w = M2("ev", 14, "fin", 1, "evs", 4, "iserr", 1, "copy", 2)
		p.GMax = 10
		g.core = true
	case "lazy":
		w = M2("ev", 6, "evs", 10, "copy", 3, "search", 4, "fin", 1)
		g.lazy = 1
		p.Caps = []int{8}
	case "ret": // retention
		w = M2("new", 10, "size", 4, "search", 5, "fin", 2)
		p.Size = []int{1 + rng.Intn(3)}
		setup = rng.Intn(4)
	case "rec": // recycling
		w = M2("new", 10, "size", 2, "fin", 8, "ev", 10, "evs", 4, "copy", 3, "search", 4, "iserr", 1)
		p.Size = []int{1 + rng.Intn(2)}
		setup = 1 + rng.Intn(3)
		g.cats = g.cats[:1]
	case "search", "via": // copies
		g.via = kind == "via"
		w = M2("ev", 10, "fin", 4, "search", 10, "copy", 4, "new", 1)
		setup = 1 + rng.Intn(2)
		g.keys = true
		if rng.Intn(3) > 0 { // one reader, one writer
			focus = true
		}
		if rng.Intn(3) == 0 { // full, or nearly so
			p.GMax = 10
		}
	case "stream":
		w = M2("ev", 12, "fin", 3, "new", 3, "recv", 3, "stats", 2, "size", 1)
		p.Caps = []int{rng.Intn(3), 20}[:1+rng.Intn(2)]
		setup = 1
		g.keys = true
	case "sub":
		w = M2("ev", 6, "fin", 1, "new", 3, "recv", 4, "stats", 4, "cancel", 4, "sub", 4)
		p.Caps = []int{rng.Intn(3), 20}[:1+rng.Intn(2)]
		setup = 1
	case "ids":
		w = M2("new", 20, "size", 1)
		setup = 0
		g.core = true
		p.Size = []int{2, 2}
		p.Clk = rng.Intn(2) == 0
		nops = 3
	case "pfx":
		w = M2("ev", 20, "evs", 3)
		setup = 1
		g.core = true
		g.lazy = 2
	case "log":
		w = M2("ev", 12, "fin", 3, "new", 4)
		p.Log = true
		g.lazy = 1 << 30
		g.core = false
	case "mix":
		w = M2("new", 6, "ev", 6, "fin", 5, "search", 4, "size", 2, "evs", 2, "stats", 1, "recv", 2)
		p.Size = []int{1 + rng.Intn(3)}
		setup = 1 + rng.Intn(2)
		p.Caps = []int{[]int{1, 30}[rng.Intn(2)]}
		if rng.Intn(3) == 0 {
			p.Size = append(p.Size, 1+rng.Intn(2))
			p.Shared = rng.Intn(2) == 0
		}
	case "web":
		w = M2("new", 4, "ev", 6, "fin", 4, "web", 12, "search", 2, "size", 1)
		p.Size = []int{1 + rng.Intn(3), 3}
		p.Shared = rng.Intn(2) == 0
	default:
		panic("unknown kind " + kind)
	}
	if env("VH_FREE", "") == "race" {
		w["glob"], w["reg"], w["max"] = 1, 1, 1
		if kind != "ids" {
			w["iserr"], w["isfin"] = w["iserr"]+1, w["isfin"]+1
		}
	}
	for k := 0; k < setup; k++ {
		p.Setup = append(p.Setup, g.op("new", g.all()))
	}
	for k := 0; k < rng.Intn(3) && setup > 0; k++ {
		p.Setup = append(p.Setup, g.op([]string{"ev", "ev", "fin"}[rng.Intn(3)], g.all()))
	}
	if p.GMax == 10 && setup > 0 {
		for k := 0; k < 7+rng.Intn(4); k++ {
			o := g.op("ev", []int{1})
			p.Setup = append(p.Setup, o)
		}
	}
	var names []string
	total := 0
	for _, o := range []string{"new", "ev", "fin", "evs", "iserr", "isfin", "copy", "size", "search", "recv", "stats", "sub", "cancel", "glob", "reg", "max", "web"} {
		if w[o] > 0 {
			names = append(names, o)
			total += w[o]
		}
	}
	base := g.all()
	if kind == "ret" && rng.Intn(3) == 0 { // a change of size against what fills categories
		p.Size = []int{1 + rng.Intn(3)}
		if setup > 0 && rng.Intn(2) == 0 {
			g.cats = []string{"c", "d"}
		}
		var fill []COp
		for k := 0; k < 2+rng.Intn(3); k++ {
			fill = append(fill, g.op("new", nil))
			if k > 0 && rng.Intn(3) > 0 {
				fill[k].Cat = fill[0].Cat
			}
		}
		one := []COp{g.op("size", nil)}
		one[0].N = 1 + rng.Intn(4)
		if rng.Intn(3) == 0 {
			one = append(one, g.op([]string{"new", "size", "search"}[rng.Intn(3)], nil))
		}
		p.Threads = [][]COp{one, fill}
		return p
	}
	if duel { // updates of one trace against each other
		mine := base[:1]
		one, two := []COp{g.op("ev", mine)}, []COp{g.op([]string{"fin", "fin", "ev"}[rng.Intn(3)], mine)}
		one[0].E = rng.Intn(2) == 0
		if rng.Intn(2) == 0 {
			two = append(two, g.op([]string{"ev", "iserr", "evs", "copy"}[rng.Intn(4)], mine))
		}
		if rng.Intn(2) == 0 {
			one = append(one, g.op([]string{"ev", "fin", "evs"}[rng.Intn(3)], mine))
		}
		p.Threads = [][]COp{one, two}
		return p
	}
	if focus {
		mine := base[:1]
		rd := []COp{g.op([]string{"search", "search", "copy", "copy", "evs"}[rng.Intn(5)], mine)}
		if rd[0].O == "search" {
			rd[0].Lim = 250
		}
		var wr []COp
		for k := 0; k < 1+rng.Intn(3); k++ {
			o := g.op("ev", mine)
			o.E = rng.Intn(2) == 0
			wr = append(wr, o)
		}
		wr = append(wr, g.op("fin", mine))
		if rng.Intn(3) == 0 { // the last update
			wr = wr[:len(wr)-1]
		}
		p.Threads = [][]COp{rd, wr}
		return p
	}
	// streaming threads
	switch kind {
	case "stream", "mix", "lazy":
		for j := range p.Caps {
			p.Threads = append(p.Threads, []COp{g.op("sub", nil)})
			p.Threads[len(p.Threads)-1][0].J = j + 1
		}
		if nth > 2 {
			nth--
		}
		if kind == "stream" && rng.Intn(2) == 0 {
			w["cancel"] = 1
		}
	case "sub":
		nth = 2
	}
	for t := 0; t < nth; t++ {
		mine := append([]int{}, base...)
		var ops []COp
		for k := 0; k < nops; k++ {
			x := rng.Intn(total)
			o := ""
			for _, o = range names {
				if x -= w[o]; x < 0 {
					break
				}
			}
			if len(mine) == 0 && o != "new" && o != "size" && o != "search" {
				o = "new"
			}
			if o == "sub" || (o == "cancel" && g.nc == 0) { // a stream call blocks: it gets a thread of its own
				if g.nc < 3 {
					p.Threads = append(p.Threads, []COp{g.op("sub", nil)})
				}
				continue
			}
			op := g.op(o, mine)
			if o == "new" {
				mine = append(mine, op.T)
			}
			ops = append(ops, op)
		}
		p.Threads = append(p.Threads, ops)
	}
	return p
}

func (g *cgen) all() []int {
	var r []int
	for t := 1; t <= g.nt; t++ {
		r = append(r, t)
	}
	return r
}

func (g *cgen) filt() *Filt {
	f := &Filt{}
	switch g.Intn(7) {
	case 0:
		f.Act = true
	case 1, 2:
		f.Fin = true
	case 3:
		f.Err = true
	case 4:
		f.Suc = true
	}
	if g.Intn(5) == 0 {
		f.Cat = g.cats[g.Intn(len(g.cats))]
	}
	if g.keys && g.Intn(3) == 0 {
		f.Q = "key"
	}
	return f
}

func (g *cgen) op(o string, mine []int) COp {
	op := COp{O: o}
	if len(mine) > 0 {
		op.T = mine[g.Intn(len(mine))]
	}
	switch o {
	case "new":
		g.nt++
		op.T = g.nt
		op.Cat = g.cats[g.Intn(len(g.cats))]
		op.C = 1 + g.Intn(len(g.p.Size))
		if g.core && g.Intn(3) == 0 {
			op.C = 0
		}
	case "ev":
		g.ne++
		op.X = fmt.Sprintf("e%d", g.ne)
		if g.keys && g.Intn(3) == 0 {
			op.X += "key"
		}
		op.E = g.Intn(4) == 0
		op.L = g.Intn(g.lazy) == 0
		op.P = g.Intn(4) % 3
	case "fin", "evs":
		op.P = g.Intn(3)
	case "size":
		op.C = 1 + g.Intn(len(g.p.Size))
		op.N = g.Intn(4)
	case "search":
		op.C = 1 + g.Intn(len(g.p.Size))
		op.F = g.filt()
		op.Lim = 250
		if g.Intn(6) == 0 {
			op.Lim = 1
		}
		if g.via {
			op.Via = g.Intn(6) % 3
			if op.Via == 2 && g.Intn(2) == 0 {
				op.Via = 0
			}
		}
	case "sub":
		g.nc++
		op.N = g.nc
		op.J = 1 + g.Intn(len(g.p.Caps))
		op.C = 1 // one channel must not be subscribed to several brokers
		op.F = g.filt()
		g.sub = append(g.sub, g.nc)
		op.T = 0
	case "glob", "reg", "max", "web":
		op.N = g.Intn(30)
		op.C = 1 + g.Intn(len(g.p.Size))
	case "cancel":
		op.N = 1 + g.Intn(g.nc)
	case "stats", "recv":
		op.J = 1 + g.Intn(len(g.p.Caps))
		op.C = 1
	}
	return op
}
