package vh

import (
	"context"
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/trcweb"
	"github.com/peterbourgon/trc/zvsched"
	"vh/gg"
)

// COp is one call of a concurrent program.
type COp struct {
	O   string
	T   int // trace, by the number of its creation (1..)
	P   int // prefixes of the handle that is used
	X   string
	E   bool // error event
	L   bool // lazy
	Cat string
	C   int
	N   int
	J   int
	F   *Filt
	Lim int
	Via int // search: 0 direct, 1 over HTTP, 2 as one of several searchers
}

// Prog is a concurrent program: the set-up is executed by thread 0, then the
// other threads run, then thread 0 looks at everything.
type Prog struct {
	Size    []int // per collector
	Shared  bool  // one broker
	GMax    int
	Caps    []int // channels
	Setup   []COp
	Threads [][]COp
	Clk     bool // the clock advances at every step
	Log     bool // traces have a log decorator
	Own     bool // traces are made by the caller
}

type cworld struct {
	p       *Prog
	cols    []*trc.Collector
	chs     []chan trc.Trace
	cancels []context.CancelFunc
	ctxs    []context.Context
	traces  []trc.Trace
	hctx    []context.Context
	ptr     []map[int]trc.Trace // prefixed handles
	hist    []M
	start   time.Time
	subs    map[int]bool // channels with a pending stream call
	qs      map[string]bool
	texts   map[string]bool
	lz      []*lazyCnt
	holds   []held
	fail    string
	mu      sync.Mutex
	logbuf  []byte
	srvs    []*trcweb.TraceServer
	none    *trc.Collector // always empty
	norec   bool           // nothing is recorded (the race detector is watching)
}

// Write is the destination of log decorators. It may take a while.
func (w *cworld) Write(p []byte) (int, error) {
	zvsched.Y(0)
	w.mu.Lock()
	w.logbuf = append(w.logbuf, p...)
	w.mu.Unlock()
	return len(p), nil
}

type lazyCnt struct {
	base string
	n    int
}

func (l *lazyCnt) String() string {
	l.n++
	n := l.n
	zvsched.Y(0) // evaluation may take a while
	return fmt.Sprintf("%s#%d", l.base, n)
}

func (w *cworld) now() int { return int(time.Since(w.start)) }

func (w *cworld) rec(m M) {
	if w.norec {
		return
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	m["now"] = w.now()
	w.hist = append(w.hist, m)
}

func (w *cworld) filter(f *Filt) trc.Filter {
	if f == nil {
		return trc.Filter{}
	}
	return trc.Filter{Category: f.Cat, IsActive: f.Act, IsFinished: f.Fin, IsSuccess: f.Suc, IsErrored: f.Err, Query: f.Q}
}

func cevs(evs []trc.Event) []M {
	res := make([]M, len(evs))
	for i, ev := range evs {
		res[i] = M{"x": ev.What, "e": ev.IsError}
	}
	return res
}

func (w *cworld) cview(tr trc.Trace) M {
	evs := tr.Events()
	return M{"id": tr.ID(), "cat": tr.Category(), "src": tr.Source(), "fin": tr.Finished(), "err": tr.Errored(), "ev": cevs(evs)}
}

var pfxTexts = []string{"", "pa", "pb"}

// handle returns the trace of slot t with p prefixes (shared by all threads).
func (w *cworld) handle(t, p int) trc.Trace {
	return w.ptr[t-1][p]
}

func fullText(p int, x string) string {
	s := ""
	for i := 1; i <= p; i++ {
		s += pfxTexts[i] + " "
	}
	return s + x
}

func (w *cworld) do(th int, op COp) {
	rop := M{"o": op.O, "t": op.T, "c": op.C, "cat": op.Cat, "n": op.N, "j": op.J, "x": "", "e": op.E, "lim": op.Lim}
	if op.O == "ev" {
		x := op.X
		if op.L {
			x += "#1"
		}
		rop["x"] = fullText(op.P, x)
	}
	if op.F != nil {
		f := *op.F
		f.Src, f.IDs, f.Min = []string{}, []int{}, []int{}
		if f.Q != "" && !w.norec {
			w.mu.Lock()
			w.qs[f.Q] = true
			w.mu.Unlock()
		}
		rop["f"] = f
	} else {
		rop["f"] = Filt{Src: []string{}, IDs: []int{}, Min: []int{}}
	}
	w.rec(M{"k": "call", "th": th, "op": rop})
	if th > 0 {
		zvsched.Y(0)
	}
	r := M{"ok": true}
	switch op.O {
	case "new":
		ctx, tr := context.Background(), trc.Trace(nil)
		if op.C == 0 {
			ctx, tr = trc.New(ctx, "core", op.Cat)
		} else {
			ctx, tr = w.cols[op.C-1].NewTrace(ctx, op.Cat)
		}
		w.traces[op.T-1] = tr
		m := map[int]trc.Trace{0: tr}
		c := ctx
		for i := 1; i <= 2; i++ {
			args := append(make([]any, 0, 8), pfxTexts[i])
			c, m[i] = trc.Prefix(c, "%s", args...)
		}
		w.ptr[op.T-1] = m
		w.hctx[op.T-1] = ctx
	case "ev":
		tr := w.handle(op.T, op.P)
		if op.L {
			l := &lazyCnt{base: op.X}
			if !w.norec {
				w.mu.Lock()
				w.lz = append(w.lz, l)
				w.mu.Unlock()
			}
			if op.E {
				tr.LazyErrorf("%s", l)
			} else {
				tr.LazyTracef("%s", l)
			}
		} else if op.E {
			tr.Errorf("%s%s", op.X[:1], op.X[1:])
		} else {
			tr.Tracef("%s%s", op.X[:1], op.X[1:])
		}
	case "fin":
		w.handle(op.T, op.P).Finish()
	case "max":
		trc.SetMaxEvents(w.handle(op.T, 0), op.N)
	case "glob": // only without judgement
		trc.SetTraceMaxEvents(10 + op.N)
		trc.SetTraceStacks(op.N%2 == 0)
	case "reg":
		_, tr, fin := trc.Region(w.hctx[op.T-1], "region")
		tr.Tracef("in region")
		fin()
	case "web": // only without judgement
		w.use(op)
	case "cfg":
		w.cols[op.C-1].SetSourceName("s1")
	case "evs":
		r["ev"] = cevs(w.handle(op.T, op.P).Events())
	case "isfin":
		r["b"] = w.handle(op.T, op.P).Finished()
	case "iserr":
		r["b"] = w.handle(op.T, op.P).Errored()
	case "copy":
		st := trc.NewSearchTrace(w.handle(op.T, 0))
		r["v"] = w.cview(st)
		w.hold("copy", st)
	case "size":
		w.cols[op.C-1].SetCategorySize(op.N)
	case "search":
		res, err := w.searcher(op).Search(context.Background(), &trc.SearchRequest{Filter: w.filter(op.F), Limit: op.Lim, Bucketing: []time.Duration{0}})
		if err != nil {
			w.fail = "search failed: " + err.Error()
			break
		}
		r["total"], r["match"] = res.TotalCount, res.MatchCount
		trs := []M{}
		for i, st := range res.Traces {
			trs = append(trs, w.cview(st))
			if i > 0 {
				p := res.Traces[i-1]
				if st.Started().After(p.Started()) || (st.Started().Equal(p.Started()) && st.ID() >= p.ID()) {
					w.fail = "search result not newest first"
				}
			}
		}
		r["tr"] = trs
		st := []M{}
		for _, cs := range res.Stats.Categories {
			bk := -1
			if len(cs.BucketCounts) > 0 {
				bk = cs.BucketCounts[0]
			}
			st = append(st, M{"cat": cs.Category, "act": cs.ActiveCount, "er": cs.ErroredCount, "bk": bk, "ev": cs.EventCount})
		}
		sort.Slice(st, func(i, j int) bool { return st[i]["cat"].(string) < st[j]["cat"].(string) })
		r["st"] = st
		w.hold("search response", res)
	case "sub":
		st, err := w.cols[op.C-1].Stream(w.ctxs[op.N-1], w.filter(op.F), w.chs[op.J-1])
		r["s"] = M{"sk": st.Skips, "se": st.Sends, "dr": st.Drops}
		r["ok"] = errors.Is(err, context.Canceled)
		if err == nil {
			w.fail = "stream returned without error"
		}
	case "cancel":
		w.cancels[op.N-1]()
	case "stats":
		st, err := w.cols[op.C-1].StreamStats(context.Background(), w.chs[op.J-1])
		r["ok"] = err == nil
		r["s"] = M{"sk": st.Skips, "se": st.Sends, "dr": st.Drops}
	case "recv":
		select {
		case tr := <-w.chs[op.J-1]:
			r["v"] = w.cview(tr)
			w.hold("streamed trace", tr)
		default:
			r["ok"] = false
		}
	default:
		panic("unknown op " + op.O)
	}
	w.rec(M{"k": "ret", "th": th, "r": r})
}

// searcher returns the way to search collector op.C.
func (w *cworld) searcher(op COp) trc.Searcher {
	switch op.Via {
	case 1:
		return trcweb.NewSearchClient(w.client(op.C), "server/traces")
	case 2:
		return trc.MultiSearcher{w.cols[op.C-1], w.none}
	}
	return w.cols[op.C-1]
}

func (w *cworld) client(c int) HTTPFunc {
	return func(r *http.Request) (*http.Response, error) { return wire(w.srvs[c-1], r) }
}

// use does one of the many things that can be done over HTTP.
func (w *cworld) use(op COp) {
	ctx := context.Background()
	if op.T > 0 && op.N%2 == 0 {
		ctx = w.hctx[op.T-1]
	}
	srv := w.srvs[op.C-1]
	get := func(h http.Handler, ctx context.Context, accept, query string) *httptest.ResponseRecorder {
		r := httptest.NewRequest("GET", "/traces?"+query, nil).WithContext(ctx)
		r.Header.Set("accept", accept)
		rec := httptest.NewRecorder()
		h.ServeHTTP(rec, r)
		return rec
	}
	mw := trcweb.Middleware(w.cols[op.C-1].NewTrace, trcweb.Categorize)
	switch op.N % 5 {
	case 0:
		get(srv, ctx, "text/html", "n=3&q=e")
	case 1:
		get(mw(srv), ctx, "application/json", "n=3&finished&b=1ms")
	case 2:
		var ms trc.MultiSearcher
		for i := range w.cols {
			ms = append(ms, w.cols[i], trcweb.NewSearchClient(w.client(i+1), "server/traces"))
		}
		res, err := append(ms, ms).Search(ctx, &trc.SearchRequest{Filter: trc.Filter{Query: "e"}, Limit: 5, Bucketing: []time.Duration{5, 1}})
		if err == nil {
			res.Stats.Overall()
			res.Stats.AllCategories()
		}
	case 3:
		ctx, cancel := context.WithCancel(ctx)
		done := make(chan struct{})
		go func() {
			get(mw(srv), ctx, "text/event-stream", "sendbuf=5")
			close(done)
		}()
		for i := 0; i < 20; i++ {
			runtime.Gosched()
		}
		w.handle(op.T, 0).Tracef("while streaming")
		cancel()
		<-done
	case 4:
		get(mw(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
			trc.Get(r.Context()).Tracef("handling")
			fmt.Fprint(rw, "body")
		})), ctx, "", "")
	}
}

func (w *cworld) hold(what string, v any) {
	js, _ := json.Marshal(v)
	if w.norec {
		return
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	w.holds = append(w.holds, held{what, v, string(js)})
}

// resolve replaces IDs by numbers.
func (w *cworld) resolve() {
	num := map[string]int{}
	var ids []string
	for i, tr := range w.traces {
		if tr == nil {
			continue
		}
		id := tr.ID()
		if num[id] != 0 {
			w.fail = "two traces have the same ID"
		}
		num[id] = i + 1
		ids = append(ids, id)
	}
	fix := func(v any) {
		if m, ok := v.(M); ok && m["id"] != nil {
			m["t"] = num[m["id"].(string)]
			delete(m, "id")
		}
	}
	for _, h := range w.hist {
		if r, ok := h["r"].(M); ok {
			fix(r["v"])
			if trs, ok := r["tr"].([]M); ok {
				for _, v := range trs {
					fix(v)
				}
			}
		}
	}
	sort.Strings(ids)
	rank := make([]int, len(w.traces))
	for i, id := range ids {
		rank[num[id]-1] = i + 1
	}
	w.rec(M{"k": "ids", "th": 0, "rank": rank})
	if w.p.Log {
		ls := []M{}
		for _, l := range splitLog(string(w.logbuf)) {
			id, _ := l["id"].(string)
			x := l["s"].(string)
			if m := logFin.FindStringSubmatch(x); m != nil {
				x = "done, " + m[1]
			}
			ls = append(ls, M{"t": num[id], "x": x})
		}
		w.rec(M{"k": "log", "th": 0, "l": ls})
	}
	if w.p.Clk {
		ts := []M{}
		for _, tr := range w.traces {
			ws := []int{}
			for _, ev := range tr.Events() {
				ws = append(ws, int(ev.When.Sub(w.start)))
			}
			ts = append(ts, M{"st": int(tr.Started().Sub(w.start)), "du": int(tr.Duration()), "w": ws})
		}
		w.rec(M{"k": "times", "th": 0, "ts": ts})
	}
}

func (p *Prog) ntraces() int {
	n := 0
	all := append([][]COp{p.Setup}, p.Threads...)
	for _, ops := range all {
		for _, o := range ops {
			if o.O == "new" {
				n = max(n, o.T)
			}
		}
	}
	return n
}

// number of contexts: every stream call has its own
func (p *Prog) nctx() int {
	n := 0
	for _, ops := range append([][]COp{p.Setup}, p.Threads...) {
		for _, o := range ops {
			if o.O == "sub" {
				n = max(n, o.N)
			}
		}
	}
	return n
}

type crun struct {
	hist  []M
	qm    M
	fail  string
	steps int
	fatal bool // the process can't go on
}

// exec runs the program once. Must be called in a bubble.
func (p *Prog) exec(strat zvsched.Strategy, free string) *crun {
	w := &cworld{p: p, norec: free == "race", start: time.Now(), subs: map[int]bool{}, qs: map[string]bool{}, texts: map[string]bool{}}
	trc.SetTraceStacks(false)
	trc.SetTraceMaxEvents(p.GMax)
	shared := trc.NewBroker()
	for i := range p.Size {
		cfg := trc.CollectorConfig{Source: fmt.Sprintf("s%d", i+1)}
		if p.Shared {
			cfg.Broker = shared
		}
		if p.Log {
			cfg.Decorators = []trc.DecoratorFunc{trc.LogDecorator(w)}
		}
		if p.Own {
			cfg.NewTrace = ownNewTrace
		}
		col := trc.NewCollector(cfg).SetCategorySize(p.Size[i])
		w.cols = append(w.cols, col)
		w.srvs = append(w.srvs, &trcweb.TraceServer{Collector: col})
	}
	w.none = trc.NewDefaultCollector()
	for _, c := range p.Caps {
		w.chs = append(w.chs, make(chan trc.Trace, c))
	}
	for i := 0; i < p.nctx(); i++ {
		ctx, cancel := withCancel(context.Background())
		w.ctxs, w.cancels = append(w.ctxs, ctx), append(w.cancels, cancel)
	}
	n := p.ntraces()
	w.traces, w.ptr, w.hctx = make([]trc.Trace, n), make([]map[int]trc.Trace, n), make([]context.Context, n)
	res := &crun{}
	run := func(th int, ops []COp) {
		defer func() {
			if r := recover(); r != nil {
				w.rec(M{"k": "panic", "th": th, "m": fmt.Sprint(r)})
			}
		}()
		for _, op := range ops {
			w.do(th, op)
			if th > 0 {
				zvsched.Y(-1) // end of a call
			}
		}
	}
	run(0, p.Setup)
	var r zvsched.Result
	if free != "" {
		r = w.free(run)
	} else {
		s := zvsched.New(strat, 200000)
		if p.Clk {
			s.Tick = func() { time.Sleep(1) }
		}
		for i, ops := range p.Threads {
			i, ops := i, ops
			s.Go(func() { run(i+1, ops) })
		}
		final := false
		r = s.Run(func() bool {
			synctest.Wait()
			if s.CanRun() {
				return true
			}
			if !final {
				final = true
				for j := range w.cancels {
					w.rec(M{"k": "call", "th": 0, "op": M{"o": "cancel", "n": j + 1, "t": 0, "c": 0, "cat": "", "j": 0, "x": "", "e": false, "lim": 0, "f": Filt{Src: []string{}, IDs: []int{}, Min: []int{}}}})
					w.cancels[j]()
					w.rec(M{"k": "ret", "th": 0, "r": M{"ok": true}})
				}
				synctest.Wait()
				return s.CanRun()
			}
			return false
		})
		res.steps = r.Steps
		switch {
		case r.Deadlock:
			w.rec(M{"k": "panic", "th": 0, "m": "deadlock: " + s.Describe()})
			res.fatal = true
		case r.Over:
			w.rec(M{"k": "panic", "th": 0, "m": "does not end"})
		}
	}
	bad := r.Deadlock || w.fail != ""
	if !bad {
		for _, h := range w.hist {
			if h["k"] == "panic" {
				bad = true
			}
		}
	}
	if !bad {
		var fin []COp
		for j := range w.chs {
			for k := 0; k < len(w.chs[j]); k++ {
				fin = append(fin, COp{O: "recv", J: j + 1})
			}
			fin = append(fin, COp{O: "recv", J: j + 1})
		}
		for t := 1; t <= n; t++ {
			fin = append(fin, COp{O: "evs", T: t}, COp{O: "isfin", T: t}, COp{O: "iserr", T: t})
		}
		for c := range w.cols {
			fin = append(fin, COp{O: "search", C: c + 1, Lim: 250})
		}
		run(0, fin)
	}
	for _, h := range w.holds {
		js, _ := json.Marshal(h.v)
		if string(js) != h.js {
			w.fail = fmt.Sprintf("%s changed from %.300s to %.300s", h.what, h.js, js)
		}
	}
	for _, l := range w.lz {
		if l.n > 1 {
			w.fail = fmt.Sprintf("lazy argument of %s evaluated %d times", l.base, l.n)
		}
	}
	if !bad && !w.norec {
		w.resolve()
	}
	if w.fail != "" {
		w.rec(M{"k": "panic", "th": 0, "m": w.fail})
	}
	res.fail = w.fail
	for _, h := range w.hist {
		if op, ok := h["op"].(M); ok {
			w.texts[op["x"].(string)] = true
		}
	}
	qm := M{}
	for q := range w.qs {
		re := regexp.MustCompile(q)
		ts := []string{}
		for x := range w.texts {
			if re.MatchString(x) {
				ts = append(ts, x)
			}
		}
		sort.Strings(ts)
		qm[q] = ts
	}
	res.hist, res.qm = w.hist, qm
	return res
}

// free runs the threads without control.
func (w *cworld) free(run func(int, []COp)) (r zvsched.Result) {
	left := make(chan int, len(w.p.Threads))
	for i, ops := range w.p.Threads {
		i, ops := i, ops
		go func() { run(i+1, ops); left <- i }()
	}
	synctest.Wait()
	n := len(w.p.Threads)
	for {
		select {
		case <-left:
			n--
			continue
		default:
		}
		break
	}
	if n > 0 {
		for j := range w.cancels {
			w.rec(M{"k": "call", "th": 0, "op": M{"o": "cancel", "n": j + 1, "t": 0, "c": 0, "cat": "", "j": 0, "x": "", "e": false, "lim": 0, "f": Filt{Src: []string{}, IDs: []int{}, Min: []int{}}}})
			w.cancels[j]()
			w.rec(M{"k": "ret", "th": 0, "r": M{"ok": true}})
		}
		synctest.Wait()
		for {
			select {
			case <-left:
				n--
				continue
			default:
			}
			break
		}
		if n > 0 {
			w.rec(M{"k": "panic", "th": 0, "m": "blocked"})
			r.Deadlock = true
		}
	}
	return r
}

// record of a run for the specification
func (p *Prog) record(r *crun) M {
	caps := p.Caps
	if caps == nil {
		caps = []int{}
	}
	br := []int{}
	for i := range p.Size {
		if p.Shared {
			br = append(br, 1)
		} else {
			br = append(br, i+1)
		}
	}
	return M{"nt": p.ntraces(), "nth": len(p.Threads), "size": p.Size, "br": br, "gmax": max(10, p.GMax), "caps": caps, "clk": p.Clk, "nctx": p.nctx(), "qm": r.qm, "h": r.hist}
}

func (r *crun) key() [32]byte {
	var b strings.Builder
	for _, h := range r.hist {
		now := h["now"]
		delete(h, "now")
		if h["k"] != "times" {
			js, _ := json.Marshal(h)
			b.Write(js)
		}
		h["now"] = now
	}
	return sha256.Sum256([]byte(b.String()))
}

//
// strategies
//

type randStrat struct {
	*rand.Rand
	p float64
}

func (s *randStrat) Pick(step int, cand []int, cur int, site int) int {
	if cur >= 0 && s.Float64() > s.p {
		return cur
	}
	return s.Intn(len(cand))
}

// pct: random priorities, d changes of priority
type pctStrat struct {
	prio map[int]int
	at   map[int]bool
	low  int
	rng  *rand.Rand
}

func newPCT(rng *rand.Rand, n, d, steps int) *pctStrat {
	s := &pctStrat{prio: map[int]int{}, at: map[int]bool{}, rng: rng}
	for i, x := range rng.Perm(n) {
		s.prio[i] = 1000 + x
	}
	for i := 0; i < d; i++ {
		s.at[1+rng.Intn(max(1, steps))] = true
	}
	return s
}

func (s *pctStrat) Pick(step int, cand []int, cur int, site int) int {
	if cur >= 0 && s.at[step] {
		s.low--
		s.prio[cand[cur]] = s.low
	}
	best := 0
	for i, c := range cand {
		if _, ok := s.prio[c]; !ok {
			s.prio[c] = 1000 + s.rng.Intn(50)
		}
		if s.prio[c] > s.prio[cand[best]] {
			best = i
		}
	}
	return best
}

// preStrat: no preemption except at the given steps. After the preemption at
// step a, the thread to continues until it blocks or ends.
type preStrat struct {
	first int
	at    []int
	to    []int
	syncs []int // steps at synchronization operations
}

func (s *preStrat) Pick(step int, cand []int, cur int, site int) int {
	if site <= 0 && cur >= 0 {
		s.syncs = append(s.syncs, step)
	}
	for i, a := range s.at {
		if step == a && cur >= 0 {
			for k, c := range cand {
				if c == s.to[i] {
					return k
				}
			}
		}
	}
	if cur >= 0 {
		return cur
	}
	for k, c := range cand {
		if step == 0 && c == s.first {
			return k
		}
	}
	return 0
}

// segStrat: a thread runs for a number of steps, then another one, ...
type segStrat struct {
	first int
	segs  []seg
	cnt   int
}

type seg struct {
	unit int // 0: any step, 1: synchronization operations, 2: calls
	n    int
	to   int
}

func (s *segStrat) Pick(step int, cand []int, cur int, site int) int {
	if step == 0 {
		for k, c := range cand {
			if c == s.first {
				return k
			}
		}
	}
	if cur < 0 {
		if len(s.segs) > 0 {
			sg := s.segs[0]
			s.segs, s.cnt = s.segs[1:], 0
			for k, c := range cand {
				if c == sg.to {
					return k
				}
			}
		}
		return 0
	}
	if len(s.segs) > 0 {
		sg := s.segs[0]
		if sg.unit == 0 || (sg.unit == 1 && site <= 0) || (sg.unit == 2 && site == -1) {
			s.cnt++
		}
		if s.cnt >= sg.n {
			s.segs, s.cnt = s.segs[1:], 0
			for k, c := range cand {
				if c == sg.to {
					return k
				}
			}
		}
	}
	return cur
}

func mainConc(t *testing.T) {
	o := newOut(env("VH_OUT", "/dev/stdout"))
	watchdog(o, func() (*World, M) { return nil, nil })
	zvsched.Getg = gg.G
	prof := env("VH_PROFILE", "")
	seed := int64(envInt("VH_SEED", 1))
	nprog := envInt("VH_N", 10)
	free := env("VH_FREE", "")
	nrand := envInt("VH_RAND", 30) // random schedules per program
	npre := envInt("VH_PRE", 100)  // bounded preemption schedules per program
	maxh := envInt("VH_MAXH", 1<<30)
	budget := time.Duration(envInt("VH_BUDGET_MS", 600000)) * time.Millisecond
	begin := time.Now()
	seen := map[[32]byte]bool{}
	execs, steps := 0, 0
	finish := func() {
		o.close()
		fmt.Printf("VH-EXECS %d VH-STEPS %d\nVH-RUNS %d\n", execs, steps, o.n)
	}
	for i := 0; i < nprog && time.Since(begin) < budget && o.n < maxh; i++ {
		rng := rand.New(rand.NewSource(seed*1_000_003 + int64(i)))
		p := genProg(prof, rng, i)
		n := 0
		if free != "" {
			for k := 0; k < nrand; k++ {
				if perr := inBubble(t, func() {
					r := p.exec(nil, free)
					execs++
					progress.Add(1)
					if free == "race" {
						return
					}
					if k := r.key(); !seen[k] {
						seen[k] = true
						o.put(p.record(r))
					}
					if r.fatal {
						finish()
						os.Exit(0)
					}
				}); perr != nil {
					panic(perr)
				}
			}
			continue
		}
		perr := inBubble(t, func() {
			one := func(s zvsched.Strategy) *crun {
				r := p.exec(s, "")
				execs++
				steps += r.steps
				progress.Add(1)
				if k := r.key(); !seen[k] {
					seen[k] = true
					o.put(p.record(r))
					n++
				}
				if r.fatal {
					finish()
					os.Exit(0)
				}
				return r
			}
			nt := len(p.Threads)
			base := 0
			var firsts []*preStrat
			for f := 0; f < nt; f++ {
				st := &preStrat{first: f}
				r := one(st)
				base = max(base, r.steps)
				firsts = append(firsts, st)
			}
			for k := 0; k < nrand; k++ {
				switch k % 3 {
				case 0:
					one(&randStrat{rng, []float64{0.02, 0.05, 0.1, 0.3}[rng.Intn(4)]})
				default:
					one(newPCT(rng, nt, 1+rng.Intn(3), base))
				}
			}
			ns := 1
			for _, f := range firsts {
				ns = max(ns, len(f.syncs))
			}
			// one preemption, at every synchronization operation or anywhere
			type pr struct{ f, at, to int }
			var all, syn []pr
			for f, st := range firsts {
				for x := 0; x < nt; x++ {
					for a := 1; a <= base; a++ {
						all = append(all, pr{f, a, x})
					}
					for _, a := range st.syncs {
						syn = append(syn, pr{f, a, x})
					}
				}
			}
			rng.Shuffle(len(all), func(a, b int) { all[a], all[b] = all[b], all[a] })
			rng.Shuffle(len(syn), func(a, b int) { syn[a], syn[b] = syn[b], syn[a] })
			syn = syn[:min(len(syn), npre/3)]
			all = append(syn, all[:min(len(all), npre/6)]...)
			for _, x := range all {
				one(&preStrat{first: x.f, at: []int{x.at}, to: []int{x.to}})
			}
			// a thread is stopped somewhere, another one makes some calls, ...
			for k := len(all); k < npre; k++ {
				s := &segStrat{first: rng.Intn(nt)}
				to := s.first
				for j := 0; j < 2+rng.Intn(3); j++ {
					sg := seg{}
					switch x := rng.Intn(6); {
					case x < 3 && j%2 == 0 || x == 0:
						sg.unit, sg.n = 1, 1+rng.Intn(max(1, ns*2/nt))
					case x < 5:
						sg.unit, sg.n = 2, 1+rng.Intn(2)
					default:
						sg.unit, sg.n = 0, 1+rng.Intn(max(1, base*2/nt))
					}
					to = (to + 1 + rng.Intn(max(1, nt-1))) % nt
					sg.to = to
					s.segs = append(s.segs, sg)
				}
				one(s)
			}
		})
		if perr != nil {
			panic(perr)
		}
	}
	finish()
}
