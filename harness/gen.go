package vh

import (
	"fmt"
	"math/rand"
	"strings"
	"time"
)

// Prof says what a random run looks like.
type Prof struct {
	Ops     int            // number of operations
	W       map[string]int // weights of the operations
	Cats    []string
	Texts   []string
	Pfx     []string
	Queries []string
	NCols   int
	Shared  bool // collectors may share a broker
	Log     bool // log decorators
	Deep    bool // prefixes in prefixes in prefixes
	Huge    int  // number of huge texts
	Tags    bool // decorators that change texts
	Core    bool // traces outside of collectors
	Sizes   []int
	InitSz  []int // initial sizes
	Lims    []int
	GMax    []int
	Depths  []int
	Buckets bool
	Stacks  bool
	Cells   bool
	Vias    bool
	Caps    []int
	NChans  int
	Ticks   []int
	Faults  bool // failing searchers
	Multi   bool
	NoDead  bool // don't use finished traces for further calls
	Head    []string
	Tail    []string
	MaxTr   int
	Burst   int
	Page    bool // searches are shown by a page
	Ez      bool // the first collector is the easy one
	Web     bool // searches over HTTP
	Srcs    []string
}

var (
	plainTexts = []string{"alpha", "beta", "gamma delta", "50% done", "naïve ☃ snow", "a.b", "x=1, y=2", "%d", "%s%!z(", "tab\there", "", "alphabet", "ALPHA", "42", "with\nnewline", "(truncated event count 3)", " lead", "trail ", "日本語"}
	logTexts   = []string{"alpha", "beta", "gamma delta", "50% done", "naïve ☃ snow", "a.b", "%d", "%s%!z(", "x=1, y=2", "日本語", "100%", "a % b", "{}"}
	queries    = []string{"alpha", "^beta$", "a.b", "(?i)ALPHA", "^$", "[0-9]+", "nothing at all", "truncated", "gamma|snow", "[", "(", "a{2,1}", "callFuncOne", "callFuncTwo", "calls\\.go", "vh\\.call", "delta$", "%", "☃", "^ ", " $", "^harness/c", "[^ ]/harness/", "^[a-z ]*\\z"}
	webTexts   = []string{"alpha", "a < b && c > d", "<script>alert(1)</script>", "</span></div>", "&lt;", "a,b;c", "\"quoted\" 'single'", "naïve ☃ snow", "50% done", "日本語", "x=1&y=2", "{{.}}", "`tick`", "", " lead", "trail ", "with\nnewline", "<!--", "\\u003c"}
	webQueries = []string{"alpha", "a <", "<script>", "&", "a.b", "[", "50%", "☃", "\"", "x=1&y=2", "a+b", "^$", "(?i)ALPHA", "nothing", ";", "#", "lead|trail", "callFuncOne", "\\\\u", "^\\s", " lead", "trail ", " ", "ALPHA", "\u00e9"}
	ticks      = []int{0, 1, 7, 99, 100, 101, 500, 1000, 4999, 5000, 10000, 25000, 50001, 100000, 1000000, 1500000}
)

var cliQueries = append([]string{"-x", "--"}, webQueries...)

type gen struct {
	*rand.Rand
	w     *World
	p     *Prof
	nt    int    // traces
	fin   []bool // finished, per handle's trace number
	colb  []int
	cells int
	rdone map[int]bool
	subb  []int
	loose bool // streaming requests may be traced, too
}

func (g *gen) pick(xs []string) string { return xs[g.Intn(len(xs))] }
func (g *gen) int(xs []int) int        { return xs[g.Intn(len(xs))] }

// own is how the traces of a collector are those of the caller: not at all,
// most of the time; made by it (1, or 5 if that is set later), wrapped by it (2)
func (g *gen) own() int {
	if g.Intn(4) > 0 {
		return 0
	}
	return []int{1, 5, 2, 3, 7}[g.Intn(5)]
}

func (g *gen) chance(n int) bool       { return g.Intn(n) == 0 }

func (g *gen) pieces() []Piece {
	n := 1
	if g.chance(3) {
		n = 2 + g.Intn(2)
	}
	var p []Piece
	if g.p.Cells && g.chance(6) {
		return []Piece{{C: 1 + g.Intn(g.cells)}}
	}
	if g.p.Huge > 0 && g.chance(8) {
		g.p.Huge--
		return []Piece{{S: g.pick(huge)}}
	}
	for i := 0; i < n; i++ {
		x := Piece{S: g.pick(g.p.Texts)}
		if g.p.Cells && g.chance(2) {
			x.C = 1 + g.Intn(g.cells)
		}
		if g.chance(60) { // long ones
			n := g.int([]int{30, 50, 62, 64, 80, 100, 127, 128, 129, 200, 255, 256, 257, 500, 512, 1000, 1024, 1500, 2048, 4096, 5000})
			if g.chance(20) {
				n = g.int([]int{10000, 32768, 65536, 70000})
			}
			x.S += strings.Repeat(g.pick([]string{"x", "long ", "ab", "é"}), n)[:n/2*2]
		}
		p = append(p, x)
	}
	return p
}

func (g *gen) filt() *Filt {
	f := &Filt{}
	if len(g.p.Queries) == 0 {
		f.Fin = g.chance(4)
		return f
	}
	if g.chance(4) {
		return f
	}
	if g.chance(5) {
		f.Src = append(f.Src, g.w.colsrc[g.Intn(len(g.w.colsrc))])
		if g.chance(2) {
			f.Src = append([]string{"elsewhere"}, f.Src...)
		}
		if g.chance(5) {
			f.Src = []string{"elsewhere"}
		}
		if g.chance(8) {
			for n := g.int([]int{7, 8, 9, 15, 16, 17, 33, 64, 65, 100}); n > 0; n-- {
				f.Src = append([]string{fmt.Sprint("elsewhere", n)}, f.Src...)
			}
		}
		for i := range f.Src {
			if f.Src[i] == "" {
				f.Src[i] = "default"
			}
		}
	}
	if g.chance(6) {
		n := g.Intn(3)
		if g.chance(8) {
			n = g.int([]int{7, 8, 9, 15, 16, 17, 33, 64, 65, 100})
		}
		for i := 0; i <= n; i++ {
			f.IDs = append(f.IDs, g.Intn(g.nt+2))
		}
	}
	if g.chance(4) {
		f.Cat = g.pick(g.p.Cats)
	}
	switch g.Intn(8) {
	case 0:
		f.Act = true
	case 1, 2:
		f.Fin = true
	case 3:
		if g.chance(4) {
			f.Act, f.Fin = true, true
		}
	}
	if g.chance(5) {
		f.Min = []int{g.int([]int{0, 1, 100, 101, 1000, 5000, 12345, 25000, 100000, 1000000, -5, 2000000, 1234567, 61000001})}
	}
	switch g.Intn(7) {
	case 0:
		f.Suc = true
	case 1:
		f.Err = true
	}
	if g.chance(2) {
		f.Q = g.pick(g.p.Queries)
	}
	return f
}

func (g *gen) req() *Req {
	r := &Req{F: g.filt(), Lim: g.int(g.p.Lims), Depth: 0}
	if len(g.p.Depths) > 0 {
		r.Depth = g.int(g.p.Depths)
	}
	if g.p.Buckets && g.chance(2) {
		n := g.Intn(6)
		if g.chance(6) {
			n = 6 + g.Intn(9)
		}
		if g.chance(20) {
			n = 15 + g.Intn(55)
		}
		if g.chance(8) { // almost the default
			r.B = append(r.B, 0, 100, 1000, 5000, 10000, 25000, 50000, 100000, 1000000)
			n = g.Intn(2)
			if n == 0 {
				r.B[1+g.Intn(8)]++
			}
		}
		for i := 0; i < n; i++ {
			r.B = append(r.B, g.int([]int{0, 0, 1, 100, 101, 1000, 5000, 10000, 99999, 100000, 1000000, -7, -100, 1500000}))
		}
	}
	return r
}

// urlParams writes the request as URL parameters, some of them unusual.
func (g *gen) urlParams(r *Req) *URLParams {
	u := &URLParams{}
	odd := []string{"", "abc", "1.5", "-", "1e3", "0x10", "ten", "1 0", "%31"}
	if g.chance(8) {
		u.N = []Tok{intTok(g.pick(append(odd, "-7", "0", "+3", "007")))}
	} else if r.Lim != 0 || g.chance(2) {
		u.N = []Tok{intTok(fmt.Sprint(r.Lim))}
	}
	if g.chance(8) {
		u.Stack = []Tok{intTok(g.pick(odd))}
	} else if r.Depth != 0 || g.chance(2) {
		u.Stack = []Tok{intTok(fmt.Sprint(r.Depth))}
	}
	for _, b := range r.B {
		u.B = append(u.B, durTok((time.Duration(b) * us).String()))
		if g.chance(6) {
			u.B = append(u.B, durTok(g.pick([]string{"", "5", "abc", "0", "1500us", "0.001s", "-1ms"})))
		}
	}
	if len(r.F.Min) > 0 {
		u.Min = []Tok{durTok((time.Duration(r.F.Min[0]) * us).String())}
	} else if g.chance(8) {
		u.Min = []Tok{durTok(g.pick([]string{"", "5", "abc", "1 s", "0", "1500us"}))}
	}
	return u
}

func (g *gen) searcher(depth int) *Srch {
	s := &Srch{D: g.Intn(5), S: []*Srch{}}
	if g.p.Multi && (depth == 0 || (depth < 2 && g.chance(4))) {
		s.K = "multi"
		n := g.Intn(5)
		if g.chance(6) {
			n = 5 + g.Intn(8)
		}
		for i := 0; i < n; i++ {
			s.S = append(s.S, g.searcher(depth+1))
		}
		if depth == 0 && n > 0 && len(g.w.cols) > 9 { // all of them
			s.S = s.S[:0]
			for _, c := range g.Perm(len(g.w.cols)) {
				s.S = append(s.S, &Srch{K: "col", C: c + 1, D: g.Intn(5), S: []*Srch{}})
			}
		} else if depth == 0 && g.p.Faults && g.chance(8) { // many
			for i := 10 + g.Intn(30); i > 0; i-- {
				s.S = append(s.S, &Srch{K: g.pick([]string{"err", "nil"}), D: g.Intn(5), S: []*Srch{}})
			}
			g.Shuffle(len(s.S), func(i, j int) { s.S[i], s.S[j] = s.S[j], s.S[i] })
		}
		return s
	}
	s.K, s.C = "col", 1+g.Intn(len(g.w.cols))
	if g.p.Faults {
		switch g.Intn(8) {
		case 0:
			s.K = "err"
		case 1:
			s.K = "nil"
		case 2:
			s.K = "reserr"
		case 3:
			s.K = "prob"
		}
	}
	if g.p.Multi && g.chance(3) {
		s.Sk = g.int([]int{-1000, -100, -1, 1, 50, 3000})
	}
	return s
}

// distinct collectors only once in a multi searcher: otherwise the same trace
// is returned twice.
func dedup(s *Srch, seen map[int]bool) *Srch {
	if s.K == "multi" {
		var xs []*Srch
		for _, x := range s.S {
			if y := dedup(x, seen); y != nil {
				xs = append(xs, y)
			}
		}
		s.S = xs
		if s.S == nil {
			s.S = []*Srch{}
		}
		return s
	}
	if s.K != "err" && s.K != "nil" {
		if seen[s.C] {
			return nil
		}
		seen[s.C] = true
	}
	return s
}

func (g *gen) handle() int { // prefer recent ones
	n := len(g.w.hs)
	if n == 0 {
		return 0
	}
	if g.chance(3) {
		return 1 + g.Intn(n)
	}
	return n - g.Intn(min(n, 6))
}

func (g *gen) do(op Op) { g.w.Do(op) }

func (g *gen) isFin(h int) bool {
	t := g.w.hs[h-1].t
	return t > 0 && t <= len(g.fin) && g.fin[t-1]
}

// Random makes a random run.
func Random(rng *rand.Rand, p *Prof, w *World) {
	g := &gen{Rand: rng, w: w, p: p, cells: len(w.cells), rdone: map[int]bool{}, loose: p.W["hopen"] > 0 && !p.Ez && rng.Intn(4) == 0}
	w.stacks, w.ez = p.Stacks, p.Ez
	srcs := []string{"", "src-one", "src two", "src-three", "src-five", "SRC-ONE", "7", "src-one "}
	if len(p.Srcs) > 0 {
		srcs = p.Srcs
	}
	if len(p.GMax) > 0 {
		g.do(Op{O: "gmax", N: g.int(p.GMax)})
	}
	if p.Page && g.chance(2) {
		g.do(Op{O: "link", I: 1 + g.Intn(2)})
	}
	for i := 0; i < p.NCols; i++ {
		b := i + 1
		if p.Shared && i > 0 && g.chance(3) {
			b = i
		}
		g.colb = append(g.colb, b)
		tags := 0
		if p.Tags && g.chance(3) {
			tags = 1 + g.Intn(3)
		}
		g.do(Op{O: "col", Src: srcs[i%len(srcs)], B: b, On: p.Log && g.chance(2), Style: g.Intn(2), N: g.Intn(2), Cap: g.own(), I: tags})
		if len(p.InitSz) > 0 {
			g.do(Op{O: "size", C: i + 1, N: g.int(p.InitSz)})
		}
	}
	for i := 0; i < p.NChans; i++ {
		g.do(Op{O: "chan", Cap: g.int(p.Caps)})
	}
	for _, o := range p.Head {
		g.step(o)
	}
	var names []string
	total := 0
	for _, o := range opNames {
		if p.W[o] > 0 {
			names = append(names, o)
			total += p.W[o]
		}
	}
	for n := 0; n < p.Ops && !w.dead; n++ {
		k := g.Intn(total)
		var o string
		for _, o = range names {
			if k -= p.W[o]; k < 0 {
				break
			}
		}
		g.step(o)
	}
	for _, o := range p.Tail {
		g.step(o)
	}
	// everything that is still in the channels
	if p.NChans > 0 {
		for j := range w.chs {
			for i := 0; i < 4000 && len(w.chs[j].ch) > 0 && !w.dead; i++ {
				g.do(Op{O: "recv", J: j + 1})
			}
			g.do(Op{O: "recv", J: j + 1})
			g.do(Op{O: "unsub", J: j + 1})
		}
	}
}

var opNames = []string{"tick", "gmax", "gstk", "cell", "src", "deco", "size", "new", "ev", "pfx", "reg", "rend", "fin", "max", "read", "get", "search", "again", "sub", "unsub", "stats", "recv", "allow", "log", "evals", "ids", "readall", "searchall", "burst", "evburst", "evn", "newn", "hbad", "hodd", "hopen", "csearch", "cbad", "copen", "hbreak", "hcancel", "hfail", "hcode", "hgate", "hflood", "htail", "mwopen", "mwset", "mwhead", "mww", "mwf", "mwread", "mwmod", "mwbreak", "mwend"}

func (g *gen) step(o string) {
	w, p := g.w, g.p
	h := g.handle()
	switch o {
	case "src", "deco", "size", "newn", "search", "hbad", "searchall", "sub", "unsub", "stats", "recv":
		if len(w.cols) == 0 {
			return
		}
	}
	switch o {
	case "tick":
		t := ticks
		if len(p.Ticks) > 0 {
			t = p.Ticks
		}
		d := g.int(t)
		if now := w.rel(nowFn()); now+d > 1_000_000_000 {
			return
		}
		g.do(Op{O: "tick", D: d})
	case "gmax":
		g.do(Op{O: "gmax", N: g.int(p.GMax)})
	case "gstk":
		g.do(Op{O: "gstk", On: g.chance(2)})
	case "cell":
		v := fmt.Sprintf("v%d", g.Intn(1000))
		if g.chance(5) {
			v = ""
		}
		g.do(Op{O: "cell", I: 1 + g.Intn(g.cells), V: v})
	case "src":
		c := 1 + g.Intn(len(w.cols))
		s := fmt.Sprintf("renamed-%d", g.Intn(3))
		g.do(Op{O: "src", C: c, Src: s})
		w.colsrc[c-1] = s
	case "deco":
		op := Op{O: "deco", C: 1 + g.Intn(len(w.cols)), On: p.Log && g.chance(2), N: g.Intn(3)}
		if p.Tags {
			op.I = g.Intn(4)
		}
		g.do(op)
	case "size":
		g.do(Op{O: "size", C: 1 + g.Intn(len(w.cols)), N: g.int(p.Sizes)})
	case "new":
		g.newTrace()
	case "burst":
		n := 2 + g.Intn(8)
		if p.Burst > 0 {
			n = 1 + g.Intn(p.Burst)
		}
		for i := 0; i < n; i++ {
			g.newTrace()
		}
	case "ev", "evburst":
		if h == 0 || (p.NoDead && g.isFin(h)) {
			return
		}
		n := 1
		if o == "evburst" {
			n = 3 + g.Intn(12)
		}
		for i := 0; i < n; i++ {
			k := []string{"T", "LT", "E", "LE", "T", "LT"}[g.Intn(6)]
			if !g.chance(4) && (k == "E" || k == "LE") {
				k = "T"
			}
			op := Op{O: "ev", H: h, K: k, P: g.pieces(), Style: g.Intn(7)}
			if p.Vias {
				op.Via = g.pick([]string{"", "", "get", "ez", "ezget", "one", "two"})
				op.Nest = g.Intn(4)
			}
			g.do(op)
		}
	case "evn66k":
		if h > 0 {
			g.do(Op{O: "evn", H: h, K: "T", Name: "y", N: 66000 + g.Intn(1000)})
		}
	case "newn": // many traces at once
		n := g.int([]int{100, 500, 1000, 1001, 1500, 3000})
		if g.nt+n > p.MaxTr {
			return
		}
		g.nt += n
		t := len(w.hs) + 1
		g.do(Op{O: o, C: 1 + g.Intn(len(w.cols)), Cat: g.pick(p.Cats), N: n, I: g.int([]int{0, 1, 2, 7})})
		if t > 1 { // those around the oldest ones
			f := &Filt{}
			for k := 0; k < 6; k++ {
				f.IDs = append(f.IDs, 1+g.Intn(t+n-1))
			}
			g.do(Op{O: "search", S: &Srch{K: "col", C: 1 + g.Intn(len(w.cols))}, Req: &Req{F: f, Lim: 250}})
		}
	case "evn":
		if h == 0 {
			return
		}
		g.do(Op{O: o, H: h, K: g.pick([]string{"T", "T", "LT", "LE"}), Name: g.pick([]string{"x", "ev-"}), N: g.int([]int{40, 100, 130, 250, 256, 257, 300, 990, 1000, 1001, 2000, 5000, 9990, 10000, 10001, g.int([]int{1000, 33000, 66000})})})
	case "pfx":
		if h == 0 || len(w.pfx[h-1]) > 8 {
			return
		}
		if p.Deep && g.chance(3) && !g.isFin(h) { // one in another
			for n := g.int([]int{3, 5, 6, 7, 8, 9, 12}); n > 0; n-- {
				if g.chance(6) {
					g.do(Op{O: "reg", H: h, Name: g.pick(p.Pfx)})
				} else {
					g.do(Op{O: "pfx", H: h, P: []Piece{{S: g.pick(p.Pfx)}}, Style: g.int([]int{0, 1, 3, 4, 5, 6}), Via: g.pick([]string{"", "ez"})})
				}
				h = len(w.hs)
			}
			g.do(Op{O: "ev", H: h, K: g.pick([]string{"T", "LT", "E", "LE"}), P: []Piece{{S: g.pick(p.Texts)}}, Style: g.Intn(6), Nest: g.Intn(4), Via: g.pick([]string{"", "get", "ez"})})
			return
		}
		var ps []Piece
		for i := 0; i < 1+g.Intn(3); i++ {
			x := Piece{S: g.pick(p.Pfx)}
			if p.Cells && g.chance(2) {
				x.C = 1 + g.Intn(g.cells)
			}
			ps = append(ps, x)
		}
		g.do(Op{O: "pfx", H: h, P: ps, Style: g.int([]int{0, 1, 3, 4, 5, 6, 6}), N: g.Intn(2), Via: g.pick([]string{"", "ez"})})
	case "reg":
		if h == 0 || len(w.pfx[h-1]) > 8 || (p.NoDead && g.isFin(h)) {
			return
		}
		g.do(Op{O: "reg", H: h, Name: g.pick(p.Pfx), Via: g.pick([]string{"", "ez"})})
	case "rend":
		n := len(w.regs)
		if n == 0 {
			return
		}
		r := 1 + g.Intn(n)
		if g.rdone[r] || (p.NoDead && p.NChans > 0 && g.isFin(w.regh[r-1])) { // (it may have lost its events)
			return
		}
		g.rdone[r] = true
		g.do(Op{O: "rend", Rg: r})
	case "fin":
		if h == 0 || (p.NoDead && g.isFin(h)) {
			return
		}
		g.do(Op{O: "fin", H: h})
		if t := w.hs[h-1].t; t > 0 {
			for len(g.fin) < t {
				g.fin = append(g.fin, false)
			}
			g.fin[t-1] = true
		}
	case "max":
		if h == 0 {
			return
		}
		g.do(Op{O: "max", H: h, N: g.int(p.GMax)})
	case "read":
		if h == 0 {
			return
		}
		g.do(Op{O: "read", H: h, On: g.chance(3)})
	case "readall":
		for i := range w.hs {
			g.do(Op{O: "read", H: i + 1})
		}
	case "get":
		g.do(Op{O: "get", H: g.Intn(len(w.hs) + 1), Cat: "key", N: g.Intn(100)})
	case "search":
		s := dedup(g.searcher(0), map[int]bool{})
		if !p.Multi {
			s.D = 0
		}
		op := Op{O: "search", S: s, Req: g.req()}
		if p.Web {
			op.Via = g.pick([]string{"json", "json", "url", "url", ""})
			if p.Page {
				op.Via = "html"
			}
			op.Style = g.Intn(60)
			if op.Via == "json" && g.chance(40) { // large requests
				op.Req.F.Src = append(op.Req.F.Src, strings.Repeat("s", g.int([]int{5000, 20000, 60000})))
				for _, x := range w.colsrc {
					if x == "" {
						x = "default"
					}
					op.Req.F.Src = append(op.Req.F.Src, x)
				}
			}
			if op.Via == "url" || op.Via == "html" {
				op.U = g.urlParams(op.Req)
			}
			if op.Via != "" && g.chance(10) {
				if g.chance(2) {
					op.Req.F.Q = "["
				}
				s.K, s.S = g.pick([]string{"err", "nil", "prob"}), []*Srch{}
				s.C = 1
			}
		}
		if (p.Web || p.Multi) && !p.Page && !p.Ez && g.chance(15) && w.rel(nowFn()) < 700_000_000 { // a slow one
			x := s
			for len(x.S) > 0 && g.chance(2) {
				x = x.S[g.Intn(len(x.S))]
			}
			x.D = g.int([]int{3000, 7_000_000_000, 40_000_000_000, 100_000_000_000})
		}
		g.do(op)
	case "hbad":
		g.do(Op{O: o, N: g.Intn(1000), Style: g.Intn(60), S: &Srch{K: "col", C: 1 + g.Intn(len(w.cols))}, Req: g.req()})
	case "csearch":
		s := &Srch{K: "multi", C: 1}
		for _, i := range g.Perm(len(w.cols))[:1+g.Intn(len(w.cols))] {
			s.S = append(s.S, &Srch{K: "col", C: i + 1, S: []*Srch{}})
		}
		if g.chance(4) {
			for n := g.int([]int{1, 1, 1, 2, 5, 12}); n > 0; n-- {
				s.S = append(s.S, &Srch{K: "err", C: 1, D: g.Intn(3), S: []*Srch{}})
			}
			g.Shuffle(len(s.S), func(i, j int) { s.S[i], s.S[j] = s.S[j], s.S[i] })
		}
		rq := g.req()
		rq.B = []int{}
		g.do(Op{O: "search", Via: "cli", S: s, Req: rq, Style: g.Intn(420), CO: &cliOpt{IncReq: g.chance(2), IncStats: g.chance(2)}})
	case "cbad":
		g.do(Op{O: o, N: g.Intn(100)})
	case "copen":
		if w.ww != nil {
			for _, h := range w.ww.hc { // one at a time
				if h.ret == "-" {
					return
				}
			}
		}
		op := Op{O: o, F: g.filt(), SR: &StreamReq{K: "cli"}, CO: &cliOpt{Events: g.chance(2)}, Style: g.Intn(420)}
		if op.F.Bad || op.F.Q == "[" {
			op.F.Q, op.F.Bad = "", false
		}
		seen := map[int]bool{}
		for _, i := range g.Perm(len(w.cols)) {
			if !seen[g.colb[i]] && (len(op.Cs) == 0 || g.chance(2)) {
				seen[g.colb[i]] = true
				op.Cs, op.Bs = append(op.Cs, i+1), append(op.Bs, g.colb[i])
			}
		}
		if g.chance(2) {
			op.SR.Buf = []Tok{{OK: true, V: g.int([]int{0, 1, 2, 3, 5, 100, 100001, -5})}}
		}
		if g.chance(2) {
			op.SR.Stats = []Tok{{OK: true, V: g.int([]int{100000, 1000000, 30000000, 90000000})}}
		}
		op.SR.Retry = g.int([]int{0, 1, 1000000, 1000000, 1000000, 2500000, 60000000, 90000000, -3})
		op.SR.Noise = g.chance(4)
		g.unlucky(op.SR)
		g.do(op)
	case "hopen":
		if w.ww != nil && len(w.ww.hc) >= 4 {
			return
		}
		c := 1 + g.Intn(len(w.cols))
		sr := &StreamReq{K: g.pick([]string{"client", "client", "url", "body"}), Own: g.loose && g.chance(2), Loose: g.loose}
		if sr.K == "client" {
			if g.chance(2) {
				n := g.int([]int{0, 1, 1, 2, 2, 3, 5, 100, 99999, 100001, -5})
				sr.Buf = []Tok{{Raw: "", OK: true, V: n}}
			}
			if g.chance(2) {
				sr.Stats = []Tok{{Raw: "", OK: true, V: g.int([]int{0, 1, 999999, 1000000, 1500000, 2000000, 30000000, 60000000, 70000000, -1})}}
			}
			sr.Retry = g.int([]int{0, 1, 1000000, 1000000, 2500000, 60000000, 90000000, -3})
			sr.Via = g.chance(3)
			sr.Noise = g.chance(4)
			g.unlucky(sr)
		} else {
			if g.chance(2) {
				sr.Buf = []Tok{intTok(g.pick([]string{"0", "1", "2", "5", "abc", "", "-1", "100001", "1.5"}))}
			}
			if g.chance(2) {
				sr.Stats = []Tok{durTok(g.pick([]string{"1s", "2.5s", "0", "0s", "-1s", "abc", "", "5", "100ms", "60s", "90s"}))}
			}
		}
		if sr.Loose || w.ez {
			sr.Buf = nil
		}
		g.do(Op{O: o, C: c, B: g.colb[c-1], F: g.filt(), SR: sr, Style: g.Intn(60)})
	case "mwopen", "mwset", "mwhead", "mww", "mwf", "mwread", "mwmod", "mwbreak", "mwend":
		g.mw(o)
	case "hflood": // more than a client that does not read can take
		if w.ww == nil || len(w.ww.hc) == 0 || g.loose {
			return
		}
		k := 1 + g.Intn(len(w.ww.hc))
		if h := w.ww.hc[k-1]; h.open && h.nact > 0 && (h.proc == nil || len(h.proc.hs) == 1) {
			g.do(Op{O: "hgate", J: k})
		}
		g.newTrace()
		g.step("evburst")
		g.step("evburst")
		if h := w.ww.hc[k-1]; !h.open && g.chance(2) {
			g.do(Op{O: "hgate", J: k, On: true})
			g.step("ev")
			g.step("tick")
			g.do(Op{O: "tick", D: g.int([]int{1000000, 10000000})})
		}
	case "hbreak", "hcancel", "hfail", "hcode", "hgate":
		if w.ww == nil || len(w.ww.hc) == 0 {
			return
		}
		k := 1 + g.Intn(len(w.ww.hc))
		h := w.ww.hc[k-1]
		switch o {
		case "hcancel":
			if !h.open {
				g.do(Op{O: "hgate", J: k, On: true})
			}
			g.do(Op{O: o, J: k})
		case "hgate":
			if h.proc != nil && len(h.proc.hs) > 1 {
				return
			}
			if h.req.Loose || (h.open && h.nact == 0) {
				return
			}
			g.do(Op{O: o, J: k, On: !h.open})
		case "hfail":
			if h.req.K == "client" || h.req.K == "cli" {
				g.do(Op{O: o, J: k, N: g.Intn(3), On: g.chance(2)})
			}
		case "hcode":
			if h.req.K == "client" || h.req.K == "cli" {
				g.do(Op{O: o, J: k, N: g.int([]int{400, 404, 204, 200, 301})})
				if g.chance(2) {
					g.do(Op{O: "hgate", J: k, On: true})
					g.do(Op{O: "hbreak", J: k})
				}
			}
		case "hbreak":
			if !h.open {
				g.do(Op{O: "hgate", J: k, On: true})
			}
			g.do(Op{O: o, J: k})
		default:
			g.do(Op{O: o, J: k})
		}
	case "htail":
		if w.ww == nil {
			return
		}
		for i, h := range w.ww.hc {
			if !h.open {
				g.do(Op{O: "hgate", J: i + 1, On: true})
			}
		}
		g.do(Op{O: "tick", D: 1000})
		for i, h := range w.ww.hc {
			if h.proc == nil || h.proc.hs[0] == h {
				g.do(Op{O: "hcancel", J: i + 1})
			}
		}
		g.do(Op{O: "tick", D: 190_000_000})
	case "hodd":
		g.do(Op{O: o, N: g.Intn(1000)})
	case "searchall":
		for c := range w.cols {
			g.do(Op{O: "search", S: &Srch{K: "col", C: c + 1}, Req: &Req{F: &Filt{}, Lim: 250}})
		}
	case "sub":
		c := 1 + g.Intn(len(w.cols))
		j := 1 + g.Intn(len(w.chs))
		// a channel is one subscription, of one broker
		if w.chs[j-1].cancel != nil && w.chs[j-1].b != g.colb[c-1] {
			return
		}
		g.do(Op{O: "sub", J: j, C: c, B: g.colb[c-1], F: g.filt()})
	case "unsub":
		g.do(Op{O: "unsub", J: 1 + g.Intn(len(w.chs))})
	case "stats":
		j := 1 + g.Intn(len(w.chs))
		c := 1
		for i, b := range g.colb {
			if w.chs[j-1].cancel != nil && w.chs[j-1].b == b {
				c = i + 1
			}
		}
		g.do(Op{O: "stats", J: j, C: c})
	case "recv":
		g.do(Op{O: "recv", J: 1 + g.Intn(len(w.chs))})
	case "allow":
		if h == 0 {
			return
		}
		g.do(Op{O: "allow", H: h, F: g.filt(), On: g.chance(2)})
	case "idburst":
		g.do(Op{O: o, N: 250000})
	default: // again, log, evals, ids
		g.do(Op{O: o})
	}
}

func (g *gen) newTrace() {
	w, p := g.w, g.p
	if p.MaxTr > 0 && g.nt >= p.MaxTr {
		return
	}
	op := Op{O: "new", Cat: g.pick(p.Cats)}
	if len(w.cols) > 0 && !(p.Core && g.chance(3)) {
		op.C = 1 + g.Intn(len(w.cols))
		if p.W["pfx"] > 0 && len(w.hs) > 0 && g.chance(5) {
			op.Ctx = 1 + g.Intn(len(w.hs))
			if p.NoDead && g.isFin(op.Ctx) {
				op.Ctx = 0
			}
		}
	} else {
		op.Src = "core source"
		op.On = p.Log && g.chance(2)
		op.Style = g.Intn(2)
	}
	if op.Ctx == 0 {
		g.nt++
	}
	g.do(op)
}

// unlucky makes the first attempts fail.
func (g *gen) unlucky(sr *StreamReq) {
	if g.chance(6) {
		sr.Fails, sr.Dial = 1+g.Intn(3), g.chance(2)
	}
	if g.chance(12) {
		sr.CodeN, sr.Code = g.int([]int{400, 404, 204, 200, 301}), "err"
		if sr.CodeN == 204 {
			sr.Code = "ok"
		}
	}
}

// mw makes requests to handlers behind the middleware.
func (g *gen) mw(o string) {
	w := g.w
	var act []*mwreq
	for _, q := range w.mws {
		if !q.ends {
			act = append(act, q)
		}
	}
	if o == "mwopen" || len(act) == 0 {
		if len(act) >= 3 {
			return
		}
		mr := &MwReq{Direct: g.chance(4), Flusher: g.chance(2), Method: g.pick([]string{"GET", "GET", "POST", "HEAD", "PUT", "DELETE", "PATCH", "OPTIONS"}),
			URL: g.pick([]string{"/", "/a", "/a/b?c=d", "/a%20b?q=%25d%25s", "/%E6%97%A5?x=%E6", "/?", "/p;x=1?a&b=", "//x", "/" + strings.Repeat("long/", 60)})}
		for _, n := range []string{"User-Agent", "Accept", "Content-Type", "X-Other", "Accept"} {
			if g.chance(2) {
				mr.Heads = append(mr.Heads, []string{n, g.pick([]string{"x", "*/*", "text/html, */*;q=0.8", "100%s %d", "a: b", "application/json; charset=utf-8", ""})})
			}
		}
		if mr.Method == "POST" || mr.Method == "PUT" {
			mr.Body = g.int([]int{0, 1, 1000})
		}
		g.nt++
		g.do(Op{O: "mwopen", Cat: g.pick(g.p.Cats), MR: mr})
		return
	}
	q := act[g.Intn(len(act))]
	op := Op{O: o, J: q.k, Style: g.Intn(6)}
	switch o {
	case "mwset":
		op.Name, op.V = g.pick([]string{"X-One", "X-Two", "Content-Type", "Cache-Control"}), g.pick([]string{"v", "text/plain", "a%b"})
		if g.chance(3) && !q.cl {
			q.cl = true
			op.N = g.int([]int{0, 1, 5, 100, 1000})
			op.Name, op.V = "Content-Length", fmt.Sprint(op.N)
		}
	case "mwhead":
		op.N = g.int([]int{100, 102, 103, 200, 200, 201, 204, 304, 301, 400, 404, 500, 503, 999})
		if q.req.Direct && g.chance(6) {
			op.N = 101
		}
	case "mww":
		op.N = g.int([]int{0, 1, 2, 5, 10, 50, 99, 100, 256, 512, 1023, 1024, 1025, 1280, 2047, 2049, 3000, 3001, 5000, 50000})
		if g.chance(30) {
			op.N = g.int([]int{102399, 102400, 300000, 1048575, 1048576, 2500000})
		}
		if op.N == 0 {
			op.Style = g.Intn(2)
		}
	case "mwend":
		op.K = g.pick([]string{"none", "none", "none", "none", "value", "abort", "error"})
		for len(g.fin) < q.t {
			g.fin = append(g.fin, false)
		}
		if q.t > 0 {
			g.fin[q.t-1] = true
		}
	}
	g.do(op)
}
