package vh

import (
	"fmt"
	"math/rand"
	"strings"
)

// Profile returns the shape of the i-th random run of a check.
func Profile(name string, r *rand.Rand, i int) *Prof {
	pick := func(xs ...int) int { return xs[r.Intn(len(xs))] }
	many := func(cs []string) []string { // sometimes many categories
		if r.Intn(10) > 0 {
			return cs
		}
		var xs []string
		if r.Intn(3) == 0 { // long ones
			for n, k := pick(2, 3), 0; k < n; k++ {
				xs = append(xs, strings.Repeat("long category ", pick(5, 10, 20, 100))+fmt.Sprint(k))
			}
			return append(xs, xs[0][:64], xs[0]+" ")
		}
		for n, k := pick(8, 9, 16, 17, 33, 65), 0; k < n; k++ {
			xs = append(xs, fmt.Sprint("cat-", k))
		}
		return xs
	}
	hugen := 0
	if i%25 == 7 {
		hugen = 2
	}
	switch name {
	case "C01": // events
		p := &Prof{Ops: 30 + r.Intn(40), NCols: pick(0, 1, 1, 2), Core: true, Cats: []string{"a", "b"}, Texts: plainTexts, Pfx: []string{"p", "q%"},
			W: M2("new", 6, "ev", 30, "evburst", 3, "fin", 3, "read", 10, "tick", 8, "search", 2, "pfx", 1), Lims: []int{0, 5, 250}, GMax: []int{1000, 1000, 10},
			Vias: true, Log: true}
		p.Tail = []string{"readall", "searchall"}
		return p
	case "C02": // finish
		return &Prof{Ops: 30 + r.Intn(30), NCols: pick(0, 1, 1, 2), Core: true, Log: true, Cats: []string{"a", "b"}, Texts: plainTexts, Pfx: []string{"p", "q%"},
			W: M2("new", 5, "ev", 20, "evburst", 2, "fin", 14, "read", 16, "tick", 12, "search", 3, "pfx", 3, "reg", 2, "max", 3, "gmax", 1, "size", 1), Lims: []int{0, 5, 250},
			GMax: []int{10, 11, 1000}, Sizes: []int{1, 2, 100}, Vias: true, Tail: []string{"tick", "readall", "searchall"}}
	case "C03": // limits
		return &Prof{Ops: 20 + r.Intn(30), NCols: pick(0, 1, 1), Core: true, Log: true, Cats: []string{"a"}, Texts: []string{"alpha", "beta", "x%"}, Pfx: []string{"p"},
			W: M2("new", 5, "ev", 20, "evburst", 14, "fin", 3, "read", 10, "tick", 4, "search", 3, "pfx", 2, "max", 10, "gmax", 8), Lims: []int{0, 250},
			GMax: []int{-5, 0, 1, 9, 10, 11, 12, 15, 20, 25, 1000, 10000, 10001, 2000000}, Tail: []string{"readall", "searchall"}}
	case "C03big": // limits, many events
		if i == 0 {
			return &Prof{NCols: pick(0, 1), Core: true, Cats: []string{"a"}, W: M2("read", 1), Lims: []int{250}, GMax: []int{10, 100, 1000}, Head: []string{"new", "evn66k"}, Tail: []string{"readall", "searchall"}}
		}
		return &Prof{Ops: 8 + r.Intn(8), NCols: pick(0, 1), Core: true, Cats: []string{"a"}, Texts: []string{"alpha"},
			W: M2("new", 3, "ev", 3, "evn", 8, "fin", 1, "read", 2, "search", 1, "max", 2, "gmax", 1), Lims: []int{0, 250}, InitSz: []int{1, 2}, Head: []string{"new", "evn"},
			GMax: []int{10, 100, 255, 256, 257, 1000, 1000, 4096, 10000, 10001}, Tail: []string{"readall", "searchall"}}
	case "C04": // lazy and eager arguments
		p := &Prof{Ops: 30 + r.Intn(40), NCols: pick(0, 1, 1, 2), Core: true, Cats: []string{"a", "b"}, Texts: []string{"x", "y", "z=", ""}, Pfx: []string{"p", "q="}, Cells: true,
			W: M2("new", 4, "ev", 20, "cell", 20, "fin", 2, "read", 10, "tick", 2, "search", 4, "pfx", 3, "evals", 3), Lims: []int{1, 3, 250}, GMax: []int{1000, 10},
			NChans: pick(0, 0, 2), Caps: []int{0, 2, 100}, Tail: []string{"readall", "searchall", "cell", "cell", "cell", "readall", "searchall", "evals", "again"}, Vias: true}
		if p.NChans > 0 {
			if p.NCols == 0 {
				p.NCols = 1
			}
			p.W["sub"], p.W["unsub"], p.W["recv"] = 3, 2, 5
			p.NoDead = true
		}
		return p
	case "C05": // retention
		return &Prof{Ops: 30 + r.Intn(40), NCols: pick(1, 1, 2), Cats: many([]string{"a", "b", "c", "", "d e"}[:1+r.Intn(5)]), Texts: []string{"x", "y"},
			W: M2("new", 14, "burst", 8, "size", 12, "fin", 8, "ev", 4, "searchall", 8, "tick", 3), Lims: []int{250},
			Sizes: []int{-1, 0, 1, 1, 2, 2, 3, 4, 5, 7, 10, 20}, InitSz: []int{1, 2, 3, 5, 8, 1000}, Tail: []string{"searchall", "readall"}}
	case "C05big": // many traces
		p := &Prof{Ops: 10 + r.Intn(8), NCols: 1, Cats: []string{"a", "b"}[:1+r.Intn(2)], Texts: []string{"x"},
			W: M2("burst", 10, "size", 3, "fin", 1, "searchall", 1), Lims: []int{250}, MaxTr: 1100, Burst: 300,
			Sizes: []int{32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 999, 1000, 1001, 2000}, Tail: []string{"searchall"}}
		if r.Intn(2) == 0 {
			p.InitSz = p.Sizes
		}
		return p
	case "C05huge": // categories larger than the default
		p := &Prof{Ops: 12 + r.Intn(8), NCols: 1, Cats: []string{"a", "b"}[:1+r.Intn(2)], Texts: []string{"x"},
			W: M2("newn", 8, "size", 4, "new", 4, "fin", 1, "tick", 3, "searchall", 2), Lims: []int{250}, MaxTr: 7000,
			Sizes: []int{1, 500, 999, 1000, 1001, 1024, 2000, 4096, 5000, 6000, 10000}, InitSz: []int{1000, 2000, 6000, 10000}, Tail: []string{"searchall"}}
		if i%3 == 0 {
			p.InitSz = []int{10000}
			p.W = M2("newn", 8, "new", 2)
			p.Cats = []string{"a"}
		}
		return p
	case "C06": // recycling
		return &Prof{Ops: 50 + r.Intn(50), NCols: pick(1, 1, 2), Core: true, Log: r.Intn(3) == 0, Cats: []string{"a", "b"}[:1+r.Intn(2)], Texts: plainTexts, Pfx: []string{"p", "q%"},
			W: M2("new", 14, "burst", 3, "size", 5, "fin", 14, "ev", 20, "evburst", 2, "read", 8, "search", 6, "again", 4, "tick", 4, "pfx", 2), Lims: []int{0, 1, 3, 250},
			Sizes: []int{1, 1, 2, 3, 5}, InitSz: []int{1, 2, 3}, Stacks: r.Intn(3) > 0, Vias: true, Depths: []int{0, 0, 1, 2, -1}, GMax: []int{10, 1000},
			Tail: []string{"again", "readall", "searchall", "again"}}
	case "C07": // search selection
		return &Prof{Ops: 40 + r.Intn(40), NCols: pick(1, 1, 2), Cats: many([]string{"a", "b", "c", "d"}[:1+r.Intn(4)]), Texts: plainTexts, Queries: queries, Pfx: []string{"p"},
			W: M2("new", 14, "burst", 3, "fin", 8, "ev", 14, "search", 14, "tick", 8, "size", 1), Lims: []int{-3, 0, 1, 1, 2, 3, 5, 10, 11, 249, 250, 251, 1000000},
			Sizes: []int{3, 5, 12, 100}, InitSz: []int{2, 4, 13, 1000, 1000}, Stacks: r.Intn(3) == 0, Vias: true, Depths: []int{0, 0, 1, 2, 3, -1, -4, 100},
			GMax: []int{10, 1000, 1000}, Log: true, Tail: []string{"search", "search", "search", "again"}}
	case "C07big": // limits around 250
		return &Prof{Ops: 60, NCols: 1, Cats: []string{"a", "b"}[:1+r.Intn(2)], Texts: []string{"x"}, Queries: []string{"x"},
			W: M2("burst", 30), Lims: []int{0, 249, 250, 251, 1000000, 10}, MaxTr: 270, Tail: []string{"search", "search"}}
	case "C08": // filters
		return &Prof{Ops: 30 + r.Intn(30), NCols: pick(1, 2, 3), Shared: true, Cats: []string{"a", "ab", "b", "", []string{"b", " ", " a"}[r.Intn(3)]}, Texts: plainTexts, Queries: queries, Pfx: []string{"p"},
			W: M2("new", 5, "fin", 6, "ev", 14, "evburst", 1, "allow", 20, "search", 6, "tick", 8, "src", 1, "sub", 3, "unsub", 1, "recv", 4), Lims: []int{250, 2, 250},
			Stacks: r.Intn(2) == 0, Vias: true, Depths: []int{0}, GMax: []int{10, 1000}, NChans: 2, Caps: []int{1000}, NoDead: true, Tail: []string{"search", "search"}}
	case "C09": // statistics
		return &Prof{Ops: 40 + r.Intn(40), NCols: pick(1, 1, 2), Cats: many([]string{"a", "b", "overall", ""}[:1+r.Intn(4)]), Texts: []string{"alpha", "beta"}, Queries: queries,
			W: M2("new", 10, "burst", 2, "fin", 12, "ev", 10, "evburst", 3, "search", 12, "tick", 12, "size", 1), Lims: []int{0, 1, 2, 250},
			Sizes: []int{2, 3, 5, 100}, InitSz: []int{1, 3, 1000}, Buckets: true, GMax: []int{10, 1000}, Tail: []string{"search", "search"}}
	case "C10": // several searchers
		return &Prof{Ops: 40 + r.Intn(40), NCols: pick(1, 2, 3, 4, 1, 2, 3, 4, 8, 1, 2, 3, 4, 20), Cats: many([]string{"a", "b", "c"}[:1+r.Intn(3)]), Texts: []string{"alpha", "beta"}, Queries: []string{"alpha", "beta", "[", "zzz"},
			W: M2("new", 14, "burst", 2, "fin", 10, "ev", 8, "search", 14, "tick", 8, "size", 1, "src", 1, "again", 2), Lims: []int{0, 1, 2, 3, 5, 250},
			Sizes: []int{2, 3, 5, 100}, InitSz: []int{2, 1000}, Buckets: true, GMax: []int{10, 1000}, Multi: true, Faults: r.Intn(2) == 0, Tail: []string{"search", "search", "again"}}
	case "C11": // streaming
		return &Prof{Ops: 50 + r.Intn(50), NCols: pick(1, 1, 2, 3), Shared: true, Cats: []string{"a", "b"}, Texts: plainTexts, Queries: []string{"alpha", "beta", "^$", "a.b", "truncated", "callDirect"}, Pfx: []string{"p", "q%"},
			W: M2("new", 8, "fin", 6, "ev", 20, "evburst", 2, "sub", 4, "unsub", 1, "recv", 16, "stats", 6, "tick", 6, "pfx", 2, "reg", 1, "size", 1), Lims: []int{250},
			NChans: pick(1, 2, 3, 1, 2, 3, 2, 10), Caps: []int{0, 1, 2, 5, 1000, 1000}, NoDead: true, GMax: []int{10, 1000}, Sizes: []int{1, 2, 5}, Log: true, Vias: true, Tail: []string{"again"}}
	case "C12": // subscriptions
		return &Prof{Ops: 50 + r.Intn(50), NCols: pick(1, 1, 2), Shared: true, Cats: []string{"a", "b"}, Texts: []string{"x", "y"}, Pfx: []string{"p"},
			W: M2("new", 10, "fin", 6, "ev", 12, "sub", 14, "unsub", 10, "recv", 8, "stats", 12, "tick", 3), Lims: []int{250},
			NChans: pick(1, 2, 3, 4, 2, 3, 4, 9, 18), Caps: []int{0, 0, 1, 2, 5}, NoDead: true, GMax: []int{1000}}
	case "C14": // search over HTTP
		cats := []string{"a", "b", "A", " a ", "cat & dog=1", "<b>x</b>", "50%25 \"q\"", "日本;a,b", "a+b c#d", ""}
		r.Shuffle(len(cats), func(i, j int) { cats[i], cats[j] = cats[j], cats[i] })
		return &Prof{Huge: hugen, Ops: 30 + r.Intn(30), NCols: pick(1, 1, 2, 3), Cats: cats[:1+r.Intn(4)], Texts: webTexts, Queries: webQueries, Pfx: []string{"p"},
			W: M2("new", 14, "burst", 2, "fin", 8, "ev", 16, "search", 16, "tick", 8, "hbad", 1, "hodd", 1, "again", 1), Lims: []int{-3, 0, 1, 1, 2, 3, 5, 250, 251, 1000000},
			Srcs: []string{"", "s&t=<1>", "src two%20", " S ", "src-ünï"}, Web: true, Stacks: r.Intn(3) == 0, Vias: true, Depths: []int{0, 0, 1, 2, 3, -1, -4, 100},
			Buckets: true, GMax: []int{10, 1000, 1000}, Multi: r.Intn(4) == 0, Tail: []string{"search", "search", "search", "again"}}
	case "C15": // streams over HTTP
		return &Prof{Huge: hugen, Ops: 40 + r.Intn(40), NCols: pick(1, 1, 2), Shared: true, Cats: []string{"a", "cat & dog=1", "<b>;x", "stream"}, Texts: webTexts, Queries: webQueries, Pfx: []string{"p", "q%"},
			W: M2("new", 10, "fin", 8, "ev", 22, "evburst", 1, "hopen", 6, "hbreak", 3, "hcancel", 2, "hfail", 1, "hcode", 1, "hgate", 4, "hflood", 2, "tick", 10, "pfx", 1), Lims: []int{250},
			Srcs: []string{"", "s&t=<1>", "src two%20", " S "}, NoDead: true, GMax: []int{10, 1000}, Log: true, Vias: true, Tail: []string{"htail"},
			Ticks: []int{0, 1, 1000, 100000, 999999, 1000000, 1000001, 2500000, 3000000, 10000000, 60000000, pick(60000000, 60000000, 650000000)}}
	case "C16": // middleware
		return &Prof{Ops: 30 + r.Intn(40), NCols: 1, Cats: []string{"a", "traces", "GET /x%d", ""}, Texts: plainTexts, Pfx: []string{"p", "q%"},
			W:    M2("mwopen", 6, "mwset", 4, "mwhead", 5, "mww", 14, "mwf", 5, "mwread", 2, "mwmod", 2, "mwbreak", 1, "mwend", 7, "ev", 10, "pfx", 1, "new", 1, "fin", 1, "tick", 10, "read", 4, "searchall", 1),
			Lims: []int{250}, GMax: []int{1000, 1000, 1000, 10}, Log: true, Vias: true, Tail: []string{"readall", "searchall"},
			Ticks: []int{0, 1, 7, 999, 1500, 12345, 250000, 1000000, 2500000, 61000000}}
	case "C17": // contexts, prefixes, regions
		return &Prof{Ops: 40 + r.Intn(40), NCols: pick(1, 1, 2), Core: true, Deep: r.Intn(3) == 0, Tags: r.Intn(3) == 0, Log: r.Intn(3) == 0, Cats: []string{"a", "b%d"}, Texts: plainTexts, Pfx: []string{"p", "q%", "%s", "ünï", "[x]", "a b", "100%!", "p1", "→"},
			W: M2("new", 8, "ev", 20, "deco", 1, "pfx", 14, "reg", 8, "rend", 8, "get", 8, "read", 4, "tick", 8, "fin", 1), Lims: []int{250},
			Vias: true, Cells: r.Intn(3) == 0, GMax: []int{1000}, NoDead: r.Intn(2) == 0, Tail: []string{"readall"}, Ticks: []int{0, 1, 7, 999, 1500, 12345, 250000, 1000000, 2500000, 61000000}}
	case "C18": // logging
		return &Prof{Ops: 40 + r.Intn(30), NCols: pick(1, 2), Core: true, Log: true, Tags: r.Intn(2) == 0, Cells: r.Intn(2) == 0, Cats: []string{"a", "b"}, Texts: logTexts, Pfx: []string{"p", "q%"},
			W: M2("new", 8, "ev", 24, "deco", 1, "cell", 4, "pfx", 4, "fin", 8, "log", 4, "read", 4, "tick", 8, "search", 3, "size", 1, "sub", 2, "unsub", 1, "recv", 4), Lims: []int{250},
			NChans: 1, Caps: []int{1000}, NoDead: r.Intn(2) == 0, Sizes: []int{1, 2, 100}, Vias: true, GMax: []int{1000, 10},
			Tail: []string{"log", "readall", "searchall", "log"}, Ticks: []int{0, 1, 7, 999, 1500, 12345, 250000, 1000000, 2500000}}
	case "C19": // identifiers
		tail := []string{"ids"}
		if i%100 == 0 { // many in the same millisecond
			tail = []string{"ids", "idburst", "ids"}
		}
		return &Prof{Ops: 60, NCols: 3, Core: true, Cats: []string{"a", "b"}, Texts: []string{"x"},
			W: M2("new", 20, "burst", 20, "tick", 4, "fin", 8, "size", 2, "ids", 2), Sizes: []int{1, 2, 3}, InitSz: []int{1, 2, 1000}, Lims: []int{250}, GMax: []int{1000},
			Ticks: []int{0, 1, 10, 999, 1000, 1001, 5000000}, Tail: tail}
	case "C22": // the page
		cats := []string{"a", "b", "A", " a ", "cat & dog=1", "<b>x</b>", "50%25 \"q\"", "日本;a,b", "a+b c#d", ""}
		r.Shuffle(len(cats), func(i, j int) { cats[i], cats[j] = cats[j], cats[i] })
		return &Prof{Huge: hugen, Ops: 30 + r.Intn(30), NCols: pick(1, 1, 2, 3), Cats: cats[:1+r.Intn(4)], Texts: webTexts, Queries: webQueries, Pfx: []string{"p"},
			W: M2("new", 14, "burst", 2, "fin", 8, "ev", 16, "search", 12, "tick", 8, "again", 1), Lims: []int{-3, 0, 1, 1, 2, 3, 5, 250, 251, 1000000},
			Srcs: []string{"", "s&t=<1>", "src two%20", " S ", "src-ünï"}, Web: true, Page: true, Stacks: r.Intn(3) == 0, Vias: true, Depths: []int{0, 0, 1, 2, 3, -1, -4, 100},
			Buckets: true, GMax: []int{10, 1000, 1000}, Multi: r.Intn(4) == 0, Tail: []string{"search", "search", "search", "again"}}
	case "C23": // the command line tool
		cats := []string{"a", "b", "A", " a ", "cat & dog=1", "<b>x</b>", "50%25 \"q\"", "日本;a,b", "-x", "a+b c#d"}
		r.Shuffle(len(cats), func(i, j int) { cats[i], cats[j] = cats[j], cats[i] })
		return &Prof{Huge: hugen, Ops: 40 + r.Intn(30), NCols: pick(1, 2, 3, 1, 2, 3, 6), Cats: cats[:1+r.Intn(4)], Texts: webTexts, Queries: cliQueries, Pfx: []string{"p"},
			W: M2("new", 14, "burst", 1, "fin", 8, "ev", 16, "csearch", 8, "cbad", 1, "copen", 3, "hbreak", 2, "hfail", 1, "hcode", 1, "hgate", 2, "hcancel", 2, "hflood", 1, "tick", 8), Lims: []int{-3, 0, 1, 1, 2, 3, 5, 10, 250, 251, 1000000},
			Srcs: []string{"", "s&t=<1>", "src two%20", " S ", "src-ünï"}, Stacks: r.Intn(3) == 0, Vias: true, Depths: []int{0, 0, 1, 2, 3, -1, -4, 100}, NoDead: true,
			GMax: []int{10, 1000, 1000}, Tail: []string{"csearch", "csearch", "htail"},
			Ticks: []int{0, 1, 1000, 100000, 999999, 1000000, 1000001, 2500000, 3000000, 10000000, 60000000}}
	case "C24": // package eztrc: one run in a process
		cats := []string{"a", "b", "A", " a ", "cat & dog=1", "<b>x</b>", "50%25 \"q\"", "日本;a,b", ""}
		r.Shuffle(len(cats), func(i, j int) { cats[i], cats[j] = cats[j], cats[i] })
		return &Prof{Ops: 150, NCols: 2, Cats: cats[:1+r.Intn(4)], Texts: webTexts, Queries: webQueries, Pfx: []string{"p", "q%", "%s"}, Ez: true, Core: true, Cells: true,
			W:    M2("new", 16, "fin", 8, "ev", 20, "pfx", 4, "reg", 2, "rend", 2, "get", 4, "max", 1, "read", 6, "search", 10, "sub", 1, "unsub", 1, "recv", 4, "stats", 2, "size", 1, "hopen", 2, "hbreak", 1, "hcancel", 1, "tick", 8, "again", 1, "evals", 1),
			Lims: []int{-3, 0, 1, 2, 3, 5, 250}, Sizes: []int{1, 2, 5, 1000}, NChans: 2, Caps: []int{100}, Buckets: true,
			Srcs: []string{"", "src two%20"}, Web: true, Page: r.Intn(3) == 0, Stacks: r.Intn(3) == 0, Vias: true, Depths: []int{0, 0, 1, 2, -1}, GMax: []int{10, 1000, 1000}, NoDead: true,
			Ticks: []int{0, 1, 1000, 100000, 999999, 1000000, 2500000, 3000000, 10000000}, Tail: []string{"readall", "search", "search", "htail"}}
	case "C24mw": // its middleware
		p := Profile("C16", r, i)
		p.Ez, p.Log = true, false
		return p
	case "C21": // stacks
		return &Prof{Ops: 40 + r.Intn(40), NCols: pick(1, 1, 2), Core: true, Deep: r.Intn(3) == 0, Log: r.Intn(3) == 0, Cats: []string{"a", "b"}, Texts: []string{"x", "y"}, Pfx: []string{"p", "q"},
			W: M2("new", 10, "fin", 8, "ev", 24, "gstk", 4, "pfx", 2, "reg", 2, "rend", 2, "read", 8, "search", 6, "size", 2, "tick", 2), Lims: []int{250, 3},
			Sizes: []int{1, 2, 5}, InitSz: []int{1, 2, 5, 1000}, Stacks: true, Vias: true, Depths: []int{0, 0, 1, 2, 3, -1}, GMax: []int{1000}, NoDead: true,
			NChans: 1, Caps: []int{1000}, Tail: []string{"readall", "searchall"}}
	}
	panic("unknown profile " + name)
}

// M2 makes a map of weights.
func M2(kv ...any) map[string]int {
	m := map[string]int{}
	for i := 0; i+1 < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1].(int)
	}
	return m
}
