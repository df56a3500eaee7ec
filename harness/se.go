// Package vh drives the real code and records what it does.
package vh

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"log"
	"net/http"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/oklog/ulid/v2"
	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/eztrc"
)

type M = map[string]any

const us = time.Microsecond

// Piece of an event text: a string followed by the value of a cell.
type Piece struct {
	S string `json:"s"`
	C int    `json:"c"`
}

// Filt is a filter, with traces by number.
type Filt struct {
	Src []string `json:"src"`
	IDs []int    `json:"ids"`
	Cat string   `json:"cat"`
	Act bool     `json:"act"`
	Fin bool     `json:"fin"`
	Min []int    `json:"min"`
	Suc bool     `json:"suc"`
	Err bool     `json:"err"`
	Q   string   `json:"q"`
	Bad bool     `json:"bad"`
}

// Srch is a searcher.
type Srch struct {
	K  string  `json:"k"`
	C  int     `json:"c"`
	D  int     `json:"d"`  // delay
	Sk int     `json:"sk"` // its clock is ahead (us)
	S  []*Srch `json:"s"`
}

// Req is a search request.
type Req struct {
	F     *Filt `json:"f"`
	Lim   int   `json:"lim"`
	B     []int `json:"b"`
	Depth int   `json:"depth"`
}

// Op is one call.
type Op struct {
	O                            string
	C, H, J, N, D, B, Cap, I, Rg int
	Ctx                          int
	On                           bool
	Src, Cat, Name, V, K         string
	P                            []Piece
	Style                        int    // how texts are turned into formats and arguments
	Via                          string // call site
	Nest                         int
	F                            *Filt
	S                            *Srch
	Req                          *Req
	U                            *URLParams
	SR                           *StreamReq
	MR                           *MwReq
	CO                           *cliOpt
	Cs, Bs                       []int
}

type handle struct {
	ctx context.Context
	tr  trc.Trace
	t   int
	own bool // plain core trace
	dp  int  // number of wrappers
}

// ownTrace is a trace of the caller, with nothing but the methods of a trace.
type ownTrace struct{ trc.Trace }

func ownDeco(tr trc.Trace) trc.Trace { return ownTrace{tr} }

// ownNewTrace makes such traces.
func ownNewTrace(ctx context.Context, source, category string, decorators ...trc.DecoratorFunc) (context.Context, trc.Trace) {
	_, tr := trc.New(context.Background(), source, category)
	tr = ownDeco(tr)
	for _, d := range decorators {
		tr = d(tr)
	}
	return trc.Put(ctx, tr)
}

// tagTrace puts something in front of every text.
type tagTrace struct {
	trc.Trace
	tag string
}

func (t tagTrace) Tracef(f string, a ...any)     { t.Trace.Tracef(t.tag+f, a...) }
func (t tagTrace) LazyTracef(f string, a ...any) { t.Trace.LazyTracef(t.tag+f, a...) }
func (t tagTrace) Errorf(f string, a ...any)     { t.Trace.Errorf(t.tag+f, a...) }
func (t tagTrace) LazyErrorf(f string, a ...any) { t.Trace.LazyErrorf(t.tag+f, a...) }

// withCancel is context.WithCancel, and the context is cancelled with a cause.
func withCancel(ctx context.Context) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancelCause(ctx)
	return ctx, func() { cancel(errors.New("no longer needed")) }
}

type chanw struct {
	ch     chan trc.Trace
	cancel context.CancelFunc
	b      int
	done   chan M
}

type held struct {
	what string
	v    any
	js   string
}

type cellArg struct {
	w   *World
	i   int
	cnt *int
}

func (c cellArg) String() string {
	c.w.mu.Lock()
	defer c.w.mu.Unlock()
	*c.cnt++
	return c.w.cells[c.i-1]
}

// World is one run.
type World struct {
	mu      sync.Mutex
	start   time.Time
	cols    []*trc.Collector
	colsrc  []string
	colpf   [][]Piece
	empties map[string]bool // categories that searchers know without traces
	brokers map[int]*trc.Broker
	hs      []*handle
	regs    []func()
	regh    []int // their handles
	chs     []*chanw
	cells   []string
	ncells  []string
	tnum    map[string]int // trace number by ID
	tids    []string
	tstart  []time.Time
	ttr     []trc.Trace
	holds   []held
	texts   map[string]bool
	qs      map[string]bool
	pfx     [][]Piece // prefix pieces per handle
	logbuf  []byte
	evals   []*evalRec
	ops     []M
	ez      bool // the first collector is that of package eztrc
	stacks  bool // log stacks
	link    int  // how pages link to source code
	dead    bool
	cur     string
	ww      *webWorld
	srvlog  syncBuf
	mwnet   *pipeNet
	mwsrv   *http.Server
	mwlog   syncBuf
	mws     []*mwreq
	plain   bool           // without middleware
	clis    []*Srch        // what the command line tool searches
	tb      map[string]int // broker of a trace
	colb    []int
	script  []Op // what was done to these requests
}

type evalRec struct {
	cnt  int
	args int // number of arguments that count
	lazy bool
}

func NewWorld(cells []string) *World {
	trc.SetTraceMaxEvents(1000)
	trc.SetTraceStacks(true)
	setLink(0)
	return &World{
		start: time.Now(), brokers: map[int]*trc.Broker{}, tnum: map[string]int{},
		texts: map[string]bool{}, qs: map[string]bool{}, tb: map[string]int{},
		cells: append([]string(nil), cells...), ncells: append([]string(nil), cells...),
	}
}

func (w *World) rel(t time.Time) int { return int(t.Sub(w.start) / us) }

func (w *World) add(m M) { w.ops = append(w.ops, m) }

// number of the trace with the given ID, 0 if unknown
func (w *World) num(id string) int { return w.tnum[id] }

func (w *World) idOf(t int) string {
	if t >= 1 && t <= len(w.tids) {
		return w.tids[t-1]
	}
	return "01ARZ3NDEKTSV4RRFFQ69G5FAV"
}

func (w *World) register(tr trc.Trace) int {
	id := tr.ID()
	if n, ok := w.tnum[id]; ok {
		return n
	}
	w.tids = append(w.tids, id)
	w.tstart = append(w.tstart, tr.Started())
	w.ttr = append(w.ttr, tr)
	w.tnum[id] = len(w.tids)
	return len(w.tids)
}

func (w *World) filter(f *Filt) trc.Filter {
	tf := trc.Filter{
		Sources: append([]string(nil), f.Src...), Category: f.Cat, IsActive: f.Act, IsFinished: f.Fin,
		IsSuccess: f.Suc, IsErrored: f.Err, Query: f.Q,
	}
	for _, i := range f.IDs {
		tf.IDs = append(tf.IDs, w.idOf(i))
	}
	if len(f.Min) > 0 {
		d := time.Duration(f.Min[0]) * us
		tf.MinDuration = &d
	}
	return tf
}

func (f *Filt) norm(w *World) *Filt {
	if f.Src == nil {
		f.Src = []string{}
	}
	if f.IDs == nil {
		f.IDs = []int{}
	}
	for i, n := range f.IDs {
		if n > len(w.tids) {
			f.IDs[i] = 0 // doesn't exist yet
		}
	}
	if f.Min == nil {
		f.Min = []int{}
	}
	_, err := regexp.Compile(f.Q)
	f.Bad = err != nil
	if f.Q != "" && !f.Bad {
		w.qs[f.Q] = true
	}
	return f
}

// format and arguments for the pieces, depending on style
func (w *World) fmtArgs(p []Piece, style int, cnt *int) (string, []any) {
	var (
		f    strings.Builder
		args []any
	)
	esc := func(s string) string { return strings.ReplaceAll(s, "%", "%%") }
	if style == 5 { // explicit argument indexes, reversed
		var all []any
		for _, x := range p {
			all = append(all, x.S)
			if x.C > 0 {
				all = append(all, cellArg{w, x.C, cnt})
			}
		}
		for i := range all {
			fmt.Fprintf(&f, "%%[%d]v", len(all)-i)
		}
		for i := len(all) - 1; i >= 0; i-- {
			args = append(args, all[i])
		}
		return f.String(), args
	}
	for i, x := range p {
		switch st := style; {
		case st == 0:
			f.WriteString(esc(x.S))
		case st == 1:
			f.WriteString("%s")
			args = append(args, x.S)
		case st == 2 && len([]rune(x.S)) > 2:
			r := []rune(x.S)
			f.WriteString(esc(string(r[:1])))
			f.WriteString("%v")
			f.WriteString(esc(string(r[len(r)-1:])))
			args = append(args, string(r[1:len(r)-1]))
		case st == 3 && len([]rune(x.S)) > 1:
			r := []rune(x.S)
			f.WriteString("%c%s")
			args = append(args, r[0], string(r[1:]))
		case st == 4:
			f.WriteString("%s%v")
			h := len(x.S) / 2
			for h > 0 && x.S[h]&0xC0 == 0x80 {
				h--
			}
			args = append(args, []byte(x.S[:h]), errors.New(x.S[h:]))
		default:
			if i%2 == 0 {
				f.WriteString(esc(x.S))
			} else {
				f.WriteString("%s")
				args = append(args, x.S)
			}
		}
		if x.C > 0 {
			f.WriteString("%s")
			args = append(args, cellArg{w, x.C, cnt})
		}
	}
	return f.String(), args
}

func (w *World) text(p []Piece) string {
	var b strings.Builder
	for _, x := range p {
		b.WriteString(x.S)
		if x.C > 0 {
			b.WriteString(w.cells[x.C-1])
		}
	}
	return b.String()
}

var regionEnd = regexp.MustCompile(`(?s)^(.*← .* )\[([^\[\]]*)\]$`)

// plainText is the text of an event without durations, which are judged apart.
func plainText(x string) string {
	if m := regionEnd.FindStringSubmatch(x); m != nil {
		if _, err := time.ParseDuration(m[2]); err == nil {
			return m[1] + "[D]"
		}
	} else if m := mwEnd.FindStringSubmatch(x); m != nil {
		if _, err := time.ParseDuration(m[3]); err == nil {
			return "HTTP " + m[1] + ", " + m[2] + ", D"
		}
	}
	return x
}

func (w *World) evs(evs []trc.Event) []M {
	res := make([]M, len(evs))
	for i, ev := range evs {
		w.texts[ev.What] = true
		x := plainText(ev.What)
		st := []Fr{}
		if w.stacks {
			for _, f := range ev.Stack {
				st = append(st, Fr{f.Function, compactFileLine(f.FileLine)})
			}
		} else if len(ev.Stack) > 0 {
			st = append(st, Fr{"+", "+"})
		}
		res[i] = M{"w": w.rel(ev.When), "x": x, "e": ev.IsError, "s": st}
	}
	return res
}

func (w *World) view(tr trc.Trace, evs []trc.Event) M {
	k := "any"
	if w.stacks {
		k = "full"
	}
	return M{
		"t": w.num(tr.ID()), "src": tr.Source(), "cat": tr.Category(), "st": w.rel(tr.Started()),
		"du": int(tr.Duration() / us), "fin": tr.Finished(), "err": tr.Errored(), "ev": w.evs(evs), "k": k,
	}
}

func statsM(w *World, cs *trc.CategoryStats) M {
	rt := func(t time.Time) int {
		if t.IsZero() {
			return -1
		}
		return w.rel(t)
	}
	bk := cs.BucketCounts
	if bk == nil {
		bk = []int{}
	}
	return M{"cat": cs.Category, "ev": cs.EventCount, "act": cs.ActiveCount, "bk": bk, "er": cs.ErroredCount,
		"old": rt(cs.Oldest), "new": rt(cs.Newest)}
}

// traces and events per 1000s
func ratesM(cs *trc.CategoryStats) []int {
	f := func(x float64) int {
		if !(x >= 0 && x < 1e6) {
			return -1 // not judged
		}
		return int(x * 1000)
	}
	return []int{f(cs.TraceRate()), f(cs.EventRate())}
}

type funcSearcher func(context.Context, *trc.SearchRequest) (*trc.SearchResponse, error)

func (f funcSearcher) Search(ctx context.Context, r *trc.SearchRequest) (*trc.SearchResponse, error) {
	return f(ctx, r)
}

// searcher builds the searcher; parts collects the individual responses.
func (w *World) searcher(s *Srch, parts *[]held) trc.Searcher {
	var base trc.Searcher
	switch s.K {
	case "col":
		base = w.cols[s.C-1]
	case "reserr":
		c := w.cols[s.C-1]
		base = funcSearcher(func(ctx context.Context, r *trc.SearchRequest) (*trc.SearchResponse, error) {
			res, _ := c.Search(ctx, r)
			res.Problems = append(res.Problems, "problem of the searcher")
			return res, errors.New("partial")
		})
	case "prob":
		c := w.cols[s.C-1]
		base = funcSearcher(func(ctx context.Context, r *trc.SearchRequest) (*trc.SearchResponse, error) {
			res, err := c.Search(ctx, r)
			res.Problems = append(res.Problems, "problem of the searcher")
			for cat := range w.empties { // it knows more categories
				if _, ok := res.Stats.Categories[cat]; !ok {
					res.Stats.Categories[cat] = trc.NewCategoryStats(cat, res.Stats.Bucketing)
				}
			}
			return res, err
		})
	case "err":
		base = funcSearcher(func(context.Context, *trc.SearchRequest) (*trc.SearchResponse, error) {
			return nil, errors.New("failed")
		})
	case "nil":
		base = funcSearcher(func(context.Context, *trc.SearchRequest) (*trc.SearchResponse, error) { return nil, nil })
	case "multi":
		ms := trc.MultiSearcher{}
		for _, x := range s.S {
			ms = append(ms, w.searcher(x, parts))
		}
		base = ms
	}
	if s.S == nil {
		s.S = []*Srch{}
	}
	return funcSearcher(func(ctx context.Context, r *trc.SearchRequest) (*trc.SearchResponse, error) {
		if s.D > 0 && s.D < 1000 {
			time.Sleep(time.Duration(s.D)) // nanoseconds: orders the answers
		}
		res, err := base.Search(ctx, r)
		if s.D >= 1000 {
			time.Sleep(time.Duration(s.D)) // a slow one, it has looked before
		}
		if res != nil {
			for _, st := range res.Traces {
				st.TraceStarted = st.TraceStarted.Add(time.Duration(s.Sk) * us)
			}
			js, _ := json.Marshal(res)
			w.mu.Lock()
			*parts = append(*parts, held{"response of a searcher", res, string(js)})
			w.mu.Unlock()
		}
		return res, err
	})
}

func (w *World) durs(b []int) []time.Duration {
	if len(b) == 0 {
		return nil
	}
	var ds []time.Duration
	for _, x := range b {
		ds = append(ds, time.Duration(x)*us)
	}
	return ds
}

// resM converts a response. The request is the normalized one.
func (w *World) resM(res *trc.SearchResponse, req *trc.SearchRequest) M {
	r := M{"panic": "", "total": res.TotalCount, "match": res.MatchCount, "np": len(res.Problems)}
	trs := []M{}
	for _, st := range res.Traces {
		trs = append(trs, w.view(st, st.Events()))
	}
	r["tr"] = trs
	src := res.Sources
	if src == nil {
		src = []string{}
	}
	r["src"] = src
	r["srcsorted"] = sort.StringsAreSorted(src)
	bk := []int{}
	stats := []M{}
	over := M{}
	rates := [][]int{}
	if res.Stats != nil {
		for _, d := range res.Stats.Bucketing {
			bk = append(bk, int(d/us))
		}
		js1, _ := json.Marshal(res.Stats)
		all := res.Stats.AllCategories()
		for i := len(all) - 2; i >= 0; i-- { // without what was added, see searcher
			if w.empties[all[i].Category] && reflect.DeepEqual(all[i], trc.NewCategoryStats(all[i].Category, res.Stats.Bucketing)) {
				all = append(all[:i:i], all[i+1:]...)
			}
		}
		for _, cs := range all[:len(all)-1] {
			stats = append(stats, statsM(w, cs))
			if cs != res.Stats.Categories[cs.Category] {
				stats = append(stats, M{"cat": "category stats under another name"})
			}
		}
		over = statsM(w, all[len(all)-1])
		o2 := statsM(w, res.Stats.Overall())
		js2, _ := json.Marshal(res.Stats)
		for _, cs := range all {
			rates = append(rates, ratesM(cs))
		}
		if !reflect.DeepEqual(over, o2) || !bytes.Equal(js1, js2) {
			over["cat"] = "computing the overall statistics changed something"
		}
	}
	r["bk"], r["stats"], r["over"], r["rates"] = bk, stats, over, rates
	r["lim"], r["q"] = req.Limit, req.Filter.Query
	return r
}

func (w *World) hold(what string, v any) {
	js, _ := json.Marshal(v)
	w.holds = append(w.holds, held{what, v, string(js)})
}

// Write implements io.Writer, for log decorators.
func (w *World) Write(p []byte) (int, error) {
	w.mu.Lock()
	w.logbuf = append(w.logbuf, p...)
	w.mu.Unlock()
	return len(p), nil
}

// logDeco is a log decorator that writes to w, in one of the two ways to make it.
func (w *World) logDeco(style int) trc.DecoratorFunc {
	if style%2 == 0 {
		return trc.LogDecorator(w)
	}
	return trc.LoggerDecorator(log.New(w, "", 0))
}

var logID = regexp.MustCompile(`(?m)^[0-9A-HJKMNP-TV-Z]{26} `)

// splitLog cuts what was written into lines; every line starts with an ID (the
// text of an event may contain line breaks).
func splitLog(buf string) []M {
	var res []M
	ix := logID.FindAllStringIndex(buf, -1)
	if len(buf) > 0 && (len(ix) == 0 || ix[0][0] != 0) {
		return []M{{"s": buf}}
	}
	for i, x := range ix {
		end := len(buf)
		if i+1 < len(ix) {
			end = ix[i+1][0]
		}
		rest := buf[x[1]:end]
		if strings.HasSuffix(rest, "\n") {
			res = append(res, M{"id": buf[x[0] : x[1]-1], "s": rest[:len(rest)-1]})
		} else {
			res = append(res, M{"s": rest})
		}
	}
	return res
}

var (
	logNew = regexp.MustCompile(`(?s)^started, source '(.*)', category '(.*)'$`)
	logFin = regexp.MustCompile(`^done, (\w+), (\S+)$`)
)

// logLines interprets what the log decorators wrote: exp says which kinds of
// lines to expect (the same text could be of several kinds).
func (w *World) logLines() []M {
	res := []M{}
	for _, l := range splitLog(string(w.logbuf)) {
		id, _ := l["id"].(string)
		s := l["s"].(string)
		m := M{"t": w.num(id), "k": "ev", "s": plainText(s), "d": 0}
		if x := logNew.FindStringSubmatch(s); x != nil {
			m["k"], m["s"] = "new", x[1]+"/"+x[2]
		} else if x := logFin.FindStringSubmatch(s); x != nil {
			d, _ := time.ParseDuration(x[2])
			m["k"], m["s"], m["d"] = "fin", x[1], int(d/us)
		} else if x, ok := strings.CutPrefix(s, "ERROR: "); ok {
			m["k"], m["s"] = "err", x
		}
		res = append(res, m)
	}
	return res
}

func (w *World) broker(b int) *trc.Broker {
	if w.brokers[b] == nil {
		w.brokers[b] = trc.NewBroker()
	}
	return w.brokers[b]
}

func (w *World) anySub(b int) bool {
	for _, c := range w.chs {
		if c.cancel != nil && c.b == b {
			return true
		}
	}
	return false
}

// ezcol says whether the collector is that of package eztrc.
func (w *World) ezcol(c int) bool { return w.ez && !w.plain && c == 1 }

// Do executes one operation and records it.
func (w *World) Do(op Op) {
	if w.dead {
		return
	}
	w.cur = fmt.Sprintf("%+v", op)
	defer func() {
		if r := recover(); r != nil {
			w.add(M{"o": "panic", "m": fmt.Sprintf("%s: %v", op.O, r)})
			w.dead = true
		}
	}()
	defer w.hobs()
	if op.O == "tick" || strings.HasPrefix(op.O, "mw") {
		w.script = append(w.script, op)
	}
	switch op.O {
	case "tick":
		time.Sleep(time.Duration(op.D) * us)
		w.add(M{"o": "tick", "d": op.D})
	case "gmax":
		trc.SetTraceMaxEvents(op.N)
		w.add(M{"o": "gmax", "n": op.N})
	case "link": // how the page links to source code
		w.link = op.I
		setLink(op.I)
	case "full": // record whole stacks
		w.stacks = true
	case "gstk":
		trc.SetTraceStacks(op.On)
		w.add(M{"o": "gstk", "on": op.On})
	case "cell":
		w.mu.Lock()
		w.cells[op.I-1] = op.V
		w.mu.Unlock()
		w.add(M{"o": "cell", "i": op.I, "v": op.V})
	case "col":
		cfg := trc.CollectorConfig{Source: op.Src, Broker: w.broker(op.B)}
		if op.Cap&5 == 1 {
			cfg.NewTrace = ownNewTrace
		}
		var tags []trc.DecoratorFunc
		pf := []Piece{}
		for i := 1; i <= op.I; i++ {
			tag := fmt.Sprintf("d%d ", i)
			tags = append(tags, func(tr trc.Trace) trc.Trace { return tagTrace{tr, tag} })
			pf = append(pf, Piece{S: tag})
		}
		w.colpf = append(w.colpf, pf)
		var c *trc.Collector
		if w.ezcol(len(w.cols) + 1) {
			c = eztrc.Collector()
		} else if op.On && op.Style == 1 {
			c = trc.NewCollector(cfg).SetDecorators(append([]trc.DecoratorFunc{w.logDeco(op.N)}, tags...)...)
		} else {
			if op.On {
				cfg.Decorators = []trc.DecoratorFunc{w.logDeco(op.N)}
			}
			if op.Cap&2 != 0 {
				cfg.Decorators = append(cfg.Decorators, ownDeco)
			}
			cfg.Decorators = append(cfg.Decorators, tags...)
			c = trc.NewCollector(cfg)
			if op.Cap&5 == 5 {
				c.SetNewTrace(ownNewTrace)
			}
		}
		w.cols = append(w.cols, c)
		w.colsrc = append(w.colsrc, op.Src)
		w.colb = append(w.colb, op.B)
		w.add(M{"o": "col", "src": op.Src, "b": op.B, "lg": op.On, "pf": pf})
	case "deco": // other decorators from now on
		var ds []trc.DecoratorFunc
		if op.On {
			ds = append(ds, w.logDeco(op.N))
		}
		pf := []Piece{}
		for i := 1; i <= op.I; i++ {
			tag := fmt.Sprintf("e%d ", i)
			ds = append(ds, func(tr trc.Trace) trc.Trace { return tagTrace{tr, tag} })
			pf = append(pf, Piece{S: tag})
		}
		w.cols[op.C-1].SetDecorators(ds...)
		w.colpf[op.C-1] = pf
		w.add(M{"o": "deco", "c": op.C, "lg": op.On, "pf": pf})
	case "src":
		w.cols[op.C-1].SetSourceName(op.Src)
		w.add(M{"o": "src", "c": op.C, "src": op.Src})
	case "size":
		w.cols[op.C-1].SetCategorySize(op.N)
		w.add(M{"o": "size", "c": op.C, "n": op.N})
	case "new":
		ctx := context.Background()
		own := op.C == 0
		dp := 0
		pf := []Piece{}
		if op.Ctx > 0 {
			ctx = w.hs[op.Ctx-1].ctx
			own = w.hs[op.Ctx-1].own
			dp = w.hs[op.Ctx-1].dp
			pf = w.pfx[op.Ctx-1]
		} else if op.C > 0 {
			pf = w.colpf[op.C-1]
		}
		var tr trc.Trace
		switch {
		case op.C == 0 && op.On:
			ctx, tr = trc.New(ctx, op.Src, op.Cat, w.logDeco(op.Style))
			own = false
		case op.C == 0:
			ctx, tr = trc.New(ctx, op.Src, op.Cat)
		case w.ezcol(op.C):
			ctx, tr = eztrc.New(ctx, op.Cat)
		default:
			ctx, tr = w.cols[op.C-1].NewTrace(ctx, op.Cat)
		}
		if op.Ctx > 0 {
			w.texts[w.text(pf)+"(+ "+op.Cat+")"] = true
		}
		n := w.register(tr)
		if op.C > 0 && op.Ctx == 0 {
			w.tb[tr.ID()] = w.colb[op.C-1]
		}
		if g, ok := trc.MaybeGet(ctx); !ok || g.ID() != tr.ID() {
			n = -1
		}
		w.hs = append(w.hs, &handle{ctx, tr, n, own, dp})
		w.pfx = append(w.pfx, pf)
		w.add(M{"o": "new", "c": op.C, "src": op.Src, "cat": op.Cat, "ctx": op.Ctx, "t": n, "fr": []Fr{}, "lg": op.On})
	case "ev":
		h := w.hs[op.H-1]
		er := &evalRec{lazy: op.K == "LT" || op.K == "LE"}
		for _, x := range op.P {
			if x.C > 0 {
				er.args++
			}
		}
		f, a := w.fmtArgs(op.P, op.Style, &er.cnt)
		full := append(append([]Piece{}, w.pfx[op.H-1]...), op.P...)
		w.texts[w.text(full)] = true
		var fr []Fr
		do := func() []Fr {
			switch op.Via {
			case "get":
				return callGet(h.ctx, op.K, f, a)
			case "ez":
				return callEz(h.ctx, op.K, f, a)
			case "ezget":
				return callEzGet(h.ctx, op.K, f, a)
			case "one":
				return callFuncOne(h.tr, op.K, f, a)
			case "two":
				return callFuncTwo(h.tr, op.K, f, a)
			default:
				return callDirect(h.tr, op.K, f, a)
			}
		}
		fr = nestA(op.Nest, do)
		w.evals = append(w.evals, er)
		if !w.stacks {
			fr = fr[:min(len(fr), 2)]
		}
		for _, x := range fr {
			w.texts[x.F], w.texts[x.L] = true, true
		}
		p := op.P
		if p == nil {
			p = []Piece{}
		}
		w.mu.Lock()
		n := er.cnt
		w.mu.Unlock()
		w.add(M{"o": "ev", "h": op.H, "k": op.K, "p": p, "fr": fr, "n": n})
	case "newn": // many traces at once
		c := w.cols[op.C-1]
		t0 := len(w.tnum) + 1
		t := t0
		for i := 1; i <= op.N; i++ {
			ctx, tr := c.NewTrace(context.Background(), op.Cat)
			if n := w.register(tr); n != t0+i-1 {
				t = -1
			}
			if op.I > 0 && i%op.I == 0 {
				tr.Finish()
			}
			w.tb[tr.ID()] = w.colb[op.C-1]
			w.hs = append(w.hs, &handle{ctx, tr, t0 + i - 1, false, 0})
			w.pfx = append(w.pfx, w.colpf[op.C-1])
		}
		w.add(M{"o": "newn", "c": op.C, "cat": op.Cat, "n": op.N, "k": op.I, "t": t})
	case "evn": // many events at once
		h := w.hs[op.H-1]
		var fr []Fr
		for i := 1; i <= op.N; i++ {
			x := fmt.Sprint(op.Name, i)
			if op.K == "T" || op.K == "E" {
				fr = callDirect(h.tr, op.K, x, nil)
			} else {
				fr = callDirect(h.tr, op.K, "%s%d", []any{op.Name, i})
			}
		}
		w.add(M{"o": "evn", "h": op.H, "k": op.K, "s": op.Name, "n": op.N, "fr": fr[:min(len(fr), 2)]})
	case "pfx":
		h := w.hs[op.H-1]
		var cnt int
		f, a := w.fmtArgs(op.P, op.Style, &cnt)
		if op.N == 1 {
			f = "  " + f + " \t"
		}
		if op.Style == 6 { // arguments with spare capacity, shared
			a = append(make([]any, 0, 16), a...)
		}
		var ctx context.Context
		var tr trc.Trace
		if op.Via == "ez" {
			ctx, tr = eztrc.Prefix(h.ctx, f, a...)
		} else {
			ctx, tr = trc.Prefix(h.ctx, f, a...)
		}
		p := op.P
		if strings.TrimSpace(f) == "" {
			p = nil
		}
		if p == nil {
			p = []Piece{}
		}
		n := w.num(tr.ID())
		if g, ok := trc.MaybeGet(ctx); !ok || g.ID() != tr.ID() {
			n = -1
		}
		w.hs = append(w.hs, &handle{ctx, tr, n, h.own && len(p) == 0, h.dp + 1})
		np := append([]Piece{}, w.pfx[op.H-1]...)
		if len(p) > 0 {
			np = append(append(np, p...), Piece{" ", 0})
		}
		w.pfx = append(w.pfx, np)
		w.add(M{"o": "pfx", "h": op.H, "p": p, "t": n})
	case "reg":
		h := w.hs[op.H-1]
		ctx, tr, fin, fr := callRegion(h.ctx, op.Name, op.Via == "ez")
		n := w.num(tr.ID())
		if g, ok := trc.MaybeGet(ctx); !ok || g.ID() != tr.ID() {
			n = -1
		}
		w.hs = append(w.hs, &handle{ctx, tr, n, false, h.dp + 1})
		w.pfx = append(w.pfx, append(append([]Piece{}, w.pfx[op.H-1]...), Piece{"· ", 0}))
		w.regs, w.regh = append(w.regs, fin), append(w.regh, len(w.hs))
		w.add(M{"o": "reg", "h": op.H, "name": op.Name, "t": n, "fr": fr})
	case "rend":
		before := w.lastRegionEnds()
		fr := callRegionEnd(w.regs[op.Rg-1])
		d := w.newRegionEnd(before)
		w.add(M{"o": "rend", "r": op.Rg, "fr": fr, "d": d})
	case "fin":
		w.hs[op.H-1].tr.Finish()
		w.add(M{"o": "fin", "h": op.H})
	case "max":
		h := w.hs[op.H-1]
		tr, ok := trc.SetMaxEvents(h.tr, op.N)
		if tr.ID() != h.tr.ID() {
			ok = false
		}
		w.add(M{"o": "max", "h": op.H, "n": op.N, "ok": ok, "must": h.own})
	case "read":
		h := w.hs[op.H-1]
		evs := h.tr.Events()
		w.add(M{"o": "read", "h": op.H, "v": w.view(h.tr, evs)})
		if op.On {
			w.hold(fmt.Sprintf("events read from handle %d", op.H), evs)
		}
	case "get":
		ctx := context.Background()
		if op.H > 0 {
			ctx = context.WithValue(w.hs[op.H-1].ctx, op.Cat, 1) // derived context
		}
		mget, get := trc.MaybeGet, trc.Get
		if op.N%2 == 1 {
			mget, get = eztrc.MaybeGet, eztrc.Get
		}
		tr, ok := mget(ctx)
		n := 0
		if ok {
			n = w.num(tr.ID())
		}
		g := get(ctx)
		if ok && g.ID() != tr.ID() {
			n = -1
		}
		if !ok { // orphan: usable, and not the trace of anybody
			g.Tracef("orphan %d", op.N)
			g.LazyErrorf("orphan %s", "lazy")
			evs := g.Events()
			if len(evs) != 2 || evs[0].What != fmt.Sprintf("orphan %d", op.N) || evs[1].What != "orphan lazy" || !g.Errored() || g.Finished() || w.num(g.ID()) != 0 {
				n = -1
			}
			g.Finish()
			if !g.Finished() {
				n = -1
			}
		}
		w.add(M{"o": "get", "h": op.H, "t": n})
	case "idburst":
		prev, bad := "", 0
		for i := 0; i < op.N; i++ {
			_, tr := trc.New(context.Background(), "", "")
			id := tr.ID()
			if id <= prev {
				bad++
			}
			prev = id
		}
		w.add(M{"o": "idburst", "n": op.N, "bad": bad})
	case "search":
		op.Req.F.norm(w)
		began := time.Since(w.start)
		req := &trc.SearchRequest{Filter: w.filter(op.Req.F), Limit: op.Req.Lim, Bucketing: w.durs(op.Req.B), StackDepth: op.Req.Depth}
		orig := append([]time.Duration(nil), req.Bucketing...)
		given := req.Bucketing
		var parts []held
		if op.U == nil {
			op.U = &URLParams{}
		}
		op.U.norm()
		var (
			r   M
			res *trc.SearchResponse
			err error
		)
		if op.Via == "" {
			w.empties = map[string]bool{"none": true}
			for _, h := range w.hs {
				w.empties[h.tr.Category()] = true
			}
			res, err = w.searcher(op.S, &parts).Search(context.Background(), req)
		} else if op.Via == "cli" {
			r = w.cliSearch(op, &parts)
		} else {
			r = w.webSearch(op, &parts)
		}
		if op.Via != "" {
			// judged as it is
		} else if err != nil || res == nil {
			r = M{"panic": fmt.Sprintf("search failed: %v", err), "tr": []M{}}
		} else {
			r = w.resM(res, req)
			w.empties = nil
			if !reflect.DeepEqual(orig, append([]time.Duration(nil), given...)) {
				r["panic"] = "the caller's bucketing was modified"
			}
			for _, p := range parts {
				js, _ := json.Marshal(p.v)
				if string(js) != p.js {
					r["panic"] = "merging modified a " + p.what
				}
			}
			w.hold("search response", res)
		}
		if op.Req.B == nil {
			op.Req.B = []int{}
		}
		if op.CO == nil {
			op.CO = &cliOpt{}
		}
		if time.Since(w.start)-began > us {
			if _, ok := r["rates"]; ok {
				r["rates"] = []any{} // they are of a later time
			}
		}
		w.add(M{"o": "search", "s": op.S, "req": op.Req, "r": r, "via": op.Via, "u": op.U, "co": op.CO})
		if x := time.Since(w.start) % us; x != 0 { // keep to whole microseconds
			time.Sleep(us - x)
		}
		if x := time.Since(w.start) - began; x != 0 {
			w.add(M{"o": "tick", "d": int(x / us)})
		}
	case "mwopen":
		w.mwopen(op)
	case "mwset", "mwhead", "mww", "mwf", "mwread", "mwmod", "mwbreak", "mwend":
		w.mwdo(op)
	case "hopen":
		op.F.norm(w)
		for _, x := range []*[]Tok{&op.SR.Buf, &op.SR.Stats} {
			if *x == nil {
				*x = []Tok{}
			}
		}
		w.hopen(op)
		w.add(M{"o": "hopen", "c": op.C, "b": op.B, "f": op.F, "r": op.SR, "co": &cliOpt{}})
	case "copen":
		op.F.norm(w)
		for _, x := range []*[]Tok{&op.SR.Buf, &op.SR.Stats} {
			if *x == nil {
				*x = []Tok{}
			}
		}
		w.cliStream(op)
		for i, c := range op.Cs {
			w.add(M{"o": "hopen", "c": c, "b": op.Bs[i], "f": op.F, "r": op.SR, "co": op.CO})
		}
	case "cbad":
		w.add(M{"o": "cbad", "r": w.cliBad(op)})
	case "hbreak":
		w.ww.net.kill(w.ww.hc[op.J-1].host)
		w.add(M{"o": "hbreak", "k": op.J})
	case "hcancel":
		w.ww.hc[op.J-1].cancel()
		w.add(M{"o": "hcancel", "k": op.J})
		for i, h := range w.ww.hc { // the same process
			if h.proc != nil && h.proc == w.ww.hc[op.J-1].proc && i != op.J-1 {
				w.add(M{"o": "hcancel", "k": i + 1})
			}
		}
	case "hfail":
		w.ww.hc[op.J-1].failing(op.N, op.On, -1)
		w.add(M{"o": "hfail", "k": op.J, "n": op.N})
	case "hcode":
		h := w.ww.hc[op.J-1]
		h.mu.Lock()
		h.code = op.N
		h.mu.Unlock()
		w.add(M{"o": "hcode", "k": op.J, "ret": map[bool]string{true: "ok", false: "err"}[op.N == 204]})
	case "hgate":
		w.ww.hc[op.J-1].setGate(op.On)
		w.add(M{"o": "hgate", "k": op.J, "on": op.On})
	case "hbad":
		op.Req.F.norm(w)
		w.add(M{"o": "hbad", "r": w.webBad(op)})
	case "hodd":
		w.add(M{"o": "hodd", "e": w.webOdd(op)})
	case "again":
		diff := ""
		for _, h := range w.holds {
			js, _ := json.Marshal(h.v)
			if string(js) != h.js {
				diff = fmt.Sprintf("%s changed from %.600s to %.600s", h.what, h.js, js)
				break
			}
		}
		w.add(M{"o": "again", "diff": diff})
	case "chan":
		w.chs = append(w.chs, &chanw{ch: make(chan trc.Trace, op.Cap)})
		w.add(M{"o": "chan", "cap": op.Cap})
	case "sub":
		c := w.chs[op.J-1]
		op.F.norm(w)
		f := w.filter(op.F)
		ctx, cancel := withCancel(context.Background())
		donec := make(chan M, 1)
		col := w.cols[op.C-1]
		go func() {
			st, err := col.Stream(ctx, f, c.ch)
			donec <- M{"s": M{"sk": st.Skips, "se": st.Sends, "dr": st.Drops}, "err": err}
		}()
		synctest.Wait()
		failed := false
		select {
		case m := <-donec:
			failed = m["err"] != nil
			cancel()
		default:
			if c.cancel == nil {
				c.cancel, c.done, c.b = cancel, donec, op.B
			} else {
				cancel()
				synctest.Wait()
			}
		}
		w.add(M{"o": "sub", "j": op.J, "b": op.B, "f": op.F, "e": failed})
	case "unsub":
		c := w.chs[op.J-1]
		if c.cancel == nil {
			return
		}
		c.cancel()
		synctest.Wait()
		select {
		case m := <-c.done:
			err, _ := m["err"].(error)
			w.add(M{"o": "unsub", "j": op.J, "s": m["s"], "ctxerr": errors.Is(err, context.Canceled)})
		default:
			w.add(M{"o": "panic", "m": "stream did not return"})
			w.dead = true
		}
		c.cancel = nil
	case "stats":
		st, err := w.cols[op.C-1].StreamStats(context.Background(), w.chs[op.J-1].ch)
		w.add(M{"o": "stats", "j": op.J, "ok": err == nil, "s": M{"sk": st.Skips, "se": st.Sends, "dr": st.Drops}})
	case "recv":
		select {
		case tr := <-w.chs[op.J-1].ch:
			v := w.view(tr, tr.Events())
			w.add(M{"o": "recv", "j": op.J, "ok": true, "v": v})
			w.hold("streamed trace", tr)
		default:
			w.add(M{"o": "recv", "j": op.J, "ok": false})
		}
	case "allow":
		h := w.hs[op.H-1]
		op.F.norm(w)
		f := w.filter(op.F)
		str := w.mentions(f)
		np := 0
		if op.On {
			np = len(f.Normalize())
		} else if op.F.Bad {
			np = 1 // without Normalize, problems are not reported
		}
		r := f.Allow(h.tr)
		if r2 := f.Allow(trc.NewSearchTrace(h.tr)); r2 != r {
			w.add(M{"o": "panic", "m": "filter gives different answers for a trace and its copy"})
		}
		w.add(M{"o": "allow", "h": op.H, "f": op.F, "r": r, "np": np, "str": str})
	case "log":
		w.add(M{"o": "log", "l": w.logLines()})
	case "evals":
		bad := []string{}
		w.mu.Lock()
		for i, e := range w.evals {
			if e.lazy && e.cnt > e.args {
				bad = append(bad, fmt.Sprintf("lazy event call %d evaluated its %d arguments %d times", i+1, e.args, e.cnt))
			}
		}
		w.mu.Unlock()
		w.add(M{"o": "evals", "bad": bad})
	case "ids":
		const digits = "0123456789ABCDEFGHJKMNPQRSTVWXYZ"
		dig := func(s string) []int {
			r := []int{}
			for _, c := range s {
				r = append(r, strings.IndexRune(digits, c))
			}
			return r
		}
		ids := []M{}
		same := true
		for i, tr := range w.ttr {
			if tr.ID() != w.tids[i] {
				same = false
			}
			var u ulid.ULID
			u.SetTime(ulid.Timestamp(w.tstart[i]))
			ids = append(ids, M{"id": dig(w.tids[i]), "st": dig(u.String()[:10])})
		}
		w.add(M{"o": "ids", "ids": ids, "same": same})
	default:
		panic("unknown op " + op.O)
	}
}

// mentions says which conditions show in the printed form of the filter.
func (w *World) mentions(f trc.Filter) []string {
	s := f.String()
	res := []string{}
	add := func(k string, ok bool) {
		if ok {
			res = append(res, k)
		}
	}
	all := func(xs []string) bool {
		for _, x := range xs {
			if !strings.Contains(s, x) {
				return false
			}
		}
		return len(xs) > 0
	}
	add("src", all(f.Sources))
	add("ids", all(f.IDs))
	add("cat", f.Category != "" && strings.Contains(s, f.Category))
	add("act", strings.Contains(s, "IsActive"))
	add("fin", strings.Contains(s, "IsFinished"))
	add("min", strings.Contains(s, "MinDuration") && (f.MinDuration == nil || strings.Contains(s, f.MinDuration.String())))
	add("suc", strings.Contains(s, "IsSuccess"))
	add("err", strings.Contains(s, "IsErrored"))
	add("q", f.Query != "" && strings.Contains(s, f.Query))
	if f.MinDuration == nil && strings.Contains(s, "MinDuration") {
		res = append(res, "min?")
	}
	for k, sub := range map[string]string{"src?": "Sources", "ids?": "IDs", "cat?": "Category", "q?": "Query"} {
		set := map[string]bool{"src?": len(f.Sources) > 0, "ids?": len(f.IDs) > 0, "cat?": f.Category != "", "q?": f.Query != ""}[k]
		if !set && strings.Contains(s, sub) {
			res = append(res, k)
		}
	}
	return res
}

// durations shown by region ends, over all traces
func (w *World) lastRegionEnds() map[string]int {
	m := map[string]int{}
	for i, tr := range w.ttr {
		n := 0
		for _, ev := range tr.Events() {
			if regionEnd.MatchString(ev.What) {
				n++
			}
		}
		m[w.tids[i]] = n
	}
	return m
}

func (w *World) newRegionEnd(before map[string]int) int {
	for i, tr := range w.ttr {
		var last string
		n := 0
		for _, ev := range tr.Events() {
			if x := regionEnd.FindStringSubmatch(ev.What); x != nil {
				n++
				last = x[2]
			}
		}
		if n > before[w.tids[i]] {
			d, err := time.ParseDuration(last)
			if err != nil {
				return -1
			}
			return int(d / us)
		}
	}
	return -1
}

// Close ends all subscriptions.
func (w *World) Close() {
	w.webClose()
	w.mwClose()
	for _, c := range w.chs {
		if c.cancel != nil {
			c.cancel()
		}
	}
}

// Run returns the record of the run.
func (w *World) Run() M {
	for n := 1; n <= 60; n++ {
		w.texts[fmt.Sprintf("(truncated event count %d)", n)] = true
	}
	qm := M{}
	for q := range w.qs {
		re := regexp.MustCompile(q)
		ts := []string{}
		for t := range w.texts {
			if re.MatchString(t) {
				ts = append(ts, t)
			}
		}
		sort.Strings(ts)
		qm[q] = ts
	}
	return M{"cells": w.ncells, "qm": qm, "ops": w.ops}
}
