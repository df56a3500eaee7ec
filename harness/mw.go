package vh

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/http/httptrace"
	"net/textproto"
	"net/url"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/eztrc"
	"github.com/peterbourgon/trc/trcweb"
)

// MwReq is a request to a handler behind the middleware.
type MwReq struct {
	Direct  bool       `json:"direct"` // without server
	Flusher bool       `json:"fl"`     // the response writer can flush
	Method  string     `json:"m"`
	URL     string     `json:"u"`
	Heads   [][]string `json:"hd"` // name, value
	Body    int        `json:"body"`
}

// mwreq is such a request in progress. The handler does what it's told.
type mwreq struct {
	w      *World
	k      int
	cat    string
	req    MwReq
	mu     sync.Mutex
	cmd    chan func(http.ResponseWriter, *http.Request)
	ack    chan struct{}
	ctx    context.Context
	news   int
	t      int
	ends   bool
	cl     bool // has a content length
	gone   bool // lost its connection
	served chan struct{}
	cancel context.CancelFunc
	// what the client (or the response writer) got
	status int
	head   string
	infos  []string
	body   bytes.Buffer
	arr    []M
	trail  string
	err    string
	pan    string
	res    []string // what the handler's calls returned
	host   string
	lost   string // state of the context, when the connection is lost
}

func (q *mwreq) note(f string, a ...any) {
	q.mu.Lock()
	defer q.mu.Unlock()
	q.res = append(q.res, fmt.Sprintf(f, a...))
}

func headText(h http.Header) string {
	var ks []string
	for k, v := range h {
		ks = append(ks, fmt.Sprintf("%s=%q", k, v))
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

// ServeHTTP is the wrapped handler.
func (q *mwreq) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	q.mu.Lock()
	q.ctx = r.Context()
	q.mu.Unlock()
	q.note("%s %s %s %s", r.Method, r.URL, r.Host, headText(r.Header))
	q.note("context: %v %v", r.Context().Value(mwKey{}), r.Context().Err())
	q.ack <- struct{}{}
	for !q.ends {
		f := <-q.cmd
		func() {
			defer func() {
				if x := recover(); x != nil {
					defer func() { q.ack <- struct{}{} }()
					panic(x)
				}
			}()
			f(w, r)
		}()
		q.ack <- struct{}{}
	}
}

func (q *mwreq) do(f func(http.ResponseWriter, *http.Request)) {
	q.cmd <- f
	<-q.ack
	synctest.Wait()
}

// rw is a response writer without server. Writes of more than 3000 bytes are
// cut.
type rw struct {
	q      *mwreq
	h      http.Header
	status int
}

func (w *rw) Header() http.Header { return w.h }

func (w *rw) WriteHeader(code int) {
	if w.status != 0 {
		return
	}
	if code < 200 && code != 101 {
		w.q.infos = append(w.q.infos, fmt.Sprint(code, headText(w.h)))
		return
	}
	w.status = code
	w.q.status, w.q.head = code, headText(w.h)
}

func (w *rw) Write(p []byte) (int, error) {
	w.WriteHeader(200)
	if len(p) > 3000 {
		w.q.body.Write(p[:3000])
		return 3000, io.ErrShortWrite
	}
	w.q.body.Write(p)
	return len(p), nil
}

type frw struct{ *rw }

func (w frw) Flush() {
	w.WriteHeader(200)
	w.q.arr = append(w.q.arr, M{"flush": w.q.body.Len()})
}

func (w *World) mwServer() *pipeNet {
	if w.mwnet != nil {
		return w.mwnet
	}
	w.mwnet = newPipeNet()
	w.mwsrv = &http.Server{ErrorLog: log.New(&w.mwlog, "", 0), Handler: http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		for _, q := range w.mws {
			if q.host == r.Host {
				q.serve(rw, r)
				return
			}
		}
	})}
	w.mwsrv.ConnContext = func(ctx context.Context, c net.Conn) context.Context {
		return context.WithValue(ctx, mwKey{}, "of the server")
	}
	go w.mwsrv.Serve(w.mwnet)
	return w.mwnet
}

// mwKey is a key of the request's context.
type mwKey struct{}

// serve calls the handler, with or without middleware.
func (q *mwreq) serve(rw http.ResponseWriter, r *http.Request) {
	defer close(q.served)
	defer func() {
		if x := recover(); x != nil {
			q.pan = fmt.Sprint(x)
			panic(x)
		}
	}()
	var hd http.Handler = q
	if !q.w.plain {
		hd = q.w.mwWrap(q)(hd)
	}
	hd.ServeHTTP(rw, r)
}

func (w *World) mwWrap(q *mwreq) func(http.Handler) http.Handler {
	if w.ezcol(1) {
		return func(next http.Handler) http.Handler {
			return eztrc.Middleware(func(r *http.Request) string { return q.cat })(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
				if tr, ok := eztrc.MaybeGet(r.Context()); ok {
					q.mu.Lock()
					q.news++
					q.t = w.register(tr)
					q.mu.Unlock()
				}
				next.ServeHTTP(rw, r)
			}))
		}
	}
	return trcweb.Middleware(func(ctx context.Context, cat string) (context.Context, trc.Trace) {
		ctx, tr := w.cols[0].NewTrace(ctx, cat)
		q.mu.Lock()
		q.news++
		q.t = w.register(tr)
		q.mu.Unlock()
		return ctx, tr
	}, func(r *http.Request) string { return q.cat })
}

func (w *World) mwopen(op Op) {
	net0 := w.mwServer()
	ctx, cancel := context.WithCancel(context.Background())
	q := &mwreq{w: w, k: len(w.mws) + 1, cat: op.Cat, req: *op.MR, cmd: make(chan func(http.ResponseWriter, *http.Request)), ack: make(chan struct{}), served: make(chan struct{}), cancel: cancel}
	q.host = fmt.Sprintf("host%d", q.k)
	w.mws = append(w.mws, q)
	var body io.Reader
	if q.req.Body > 0 {
		body = strings.NewReader(strings.Repeat("b", q.req.Body))
	}
	r, err := http.NewRequestWithContext(ctx, q.req.Method, "http://"+q.host+q.req.URL, body)
	if err != nil {
		panic(err)
	}
	r.Header.Set("User-Agent", "")
	for _, h := range q.req.Heads {
		if h[0] == "User-Agent" {
			r.Header.Set(h[0], h[1])
		} else {
			r.Header.Add(h[0], h[1])
		}
	}
	if q.req.Direct {
		u, _ := url.ParseRequestURI(q.req.URL)
		r.URL, r.RemoteAddr = u, "10.0.0.1:1234"
		if r.Body == nil {
			r.Body = http.NoBody
		}
		var x http.ResponseWriter = &rw{q: q, h: http.Header{}}
		if q.req.Flusher {
			x = frw{x.(*rw)}
		}
		r = r.WithContext(context.WithValue(ctx, mwKey{}, q.host))
		go func() {
			defer func() { recover() }()
			q.serve(x, r)
			x.WriteHeader(200)
		}()
	} else {
		r = r.WithContext(httptrace.WithClientTrace(ctx, &httptrace.ClientTrace{Got1xxResponse: func(code int, h textproto.MIMEHeader) error {
			q.infos = append(q.infos, fmt.Sprint(code, headText(http.Header(h))))
			return nil
		}}))
		tp := &http.Transport{DialContext: net0.dial, DisableKeepAlives: true, DisableCompression: true}
		go func() {
			res, err := tp.RoundTrip(r)
			if err != nil {
				q.err = "response: " + err.Error()
				return
			}
			q.mu.Lock()
			q.status, q.head = res.StatusCode, headText(res.Header)+fmt.Sprint(res.ContentLength, res.TransferEncoding)
			q.mu.Unlock()
			b := make([]byte, 1<<16)
			for {
				n, err := res.Body.Read(b)
				q.mu.Lock()
				q.body.Write(b[:n])
				q.mu.Unlock()
				if err != nil {
					q.trail = headText(res.Trailer)
					if err != io.EOF {
						q.err = "body: " + err.Error()
					}
					break
				}
			}
			res.Body.Close()
		}()
	}
	<-q.ack
	synctest.Wait()
	t := -1
	tr, ok := trc.MaybeGet(q.ctx)
	if ok {
		t = w.num(tr.ID())
	}
	if q.news != 1 || t != q.t {
		t = -1
	}
	if !ok {
		tr = trc.Get(q.ctx)
	}
	w.hs = append(w.hs, &handle{q.ctx, tr, t, false, 0})
	w.pfx = append(w.pfx, []Piece{})
	// names in the order given; only the first value of each is recorded
	hd := []M{}
	for _, name := range []string{"User-Agent", "Accept", "Content-Type"} {
		if v := q.firstHeader(name); v != "" {
			hd = append(hd, M{"n": name, "v": v})
		}
	}
	w.add(M{"o": "mwopen", "k": q.k, "c": 1, "cat": op.Cat, "m": q.req.Method, "u": q.req.URL, "hd": hd, "t": t, "direct": q.req.Direct, "fl": q.req.Flusher || !q.req.Direct})
}

// firstHeader is the first value of the header that the client sent.
func (q *mwreq) firstHeader(name string) string {
	for _, h := range q.req.Heads {
		if h[0] == name {
			return strings.TrimSpace(h[1])
		}
	}
	return ""
}

func (w *World) mwdo(op Op) {
	q := w.mws[op.J-1]
	if q.ends {
		return
	}
	switch op.O {
	case "mwset": // the harness only uses headers that mean nothing, and Content-Length
		q.do(func(rw http.ResponseWriter, r *http.Request) { rw.Header().Add(op.Name, op.V) })
		w.add(M{"o": "mwset", "k": op.J, "cl": map[bool]int{true: op.N, false: -1}[op.Name == "Content-Length"]})
	case "mwhead":
		q.do(func(rw http.ResponseWriter, r *http.Request) { rw.WriteHeader(op.N) })
		w.add(M{"o": "mwhead", "k": op.J, "code": op.N})
	case "mww":
		var n int
		var err error
		data := strings.Repeat([]string{"a", "<p>", "{}", "\x00\x01"}[op.N%4], op.N)[:op.N]
		q.do(func(rw http.ResponseWriter, r *http.Request) {
			switch op.Style % 3 {
			case 0:
				n, err = rw.Write([]byte(data))
			case 1:
				n, err = io.WriteString(rw, data)
			case 2:
				var m int64
				m, err = io.Copy(rw, strings.NewReader(data))
				n = int(m)
			}
		})
		q.note("write %d %v", n, err)
		w.add(M{"o": "mww", "k": op.J, "n": op.N, "r": n, "cut": op.Style%3 == 2})
	case "mwf":
		q.do(func(rw http.ResponseWriter, r *http.Request) {
			if op.Style%2 == 0 {
				if f, ok := rw.(http.Flusher); ok {
					f.Flush()
				} else if q.req.Flusher || !q.req.Direct {
					q.note("cannot flush")
				}
			} else if err := http.NewResponseController(rw).Flush(); err != nil && (q.req.Flusher || !q.req.Direct) {
				q.note("flush: %v", err)
			}
		})
		w.add(M{"o": "mwf", "k": op.J, "status": q.status, "n": q.body.Len()})
	case "mwread":
		q.do(func(rw http.ResponseWriter, r *http.Request) {
			b, err := io.ReadAll(r.Body)
			q.note("read %d %v", len(b), err)
		})
	case "mwmod": // the handler changes its request, as e.g. routers do
		q.do(func(rw http.ResponseWriter, r *http.Request) {
			switch op.Style % 4 {
			case 0:
				r.URL.Path, r.URL.RawPath = "/other", ""
			case 1:
				r.URL.RawQuery = "x=1"
			case 2:
				if q.req.Direct { // the server looks at it
					r.Method = "TRACE"
				}
			case 3:
				for _, n := range []string{"User-Agent", "Accept", "Content-Type"} {
					if v := r.Header[n]; len(v) > 0 {
						v[0] = "changed"
					}
				}
			}
		})
	case "mwbreak": // the client goes away
		if q.req.Direct {
			q.cancel()
			q.do(func(rw http.ResponseWriter, r *http.Request) { q.note("context: %v", r.Context().Err()) })
			return
		}
		q.gone = true
		w.mwnet.kill(q.host)
		synctest.Wait()
		q.do(func(rw http.ResponseWriter, r *http.Request) { q.lost = fmt.Sprint(r.Context().Err()) })
		w.add(M{"o": "mwbreak", "k": op.J})
	case "mwend":
		q.ends = true
		q.do(func(rw http.ResponseWriter, r *http.Request) {
			switch op.K {
			case "value":
				panic("handler panics")
			case "abort":
				panic(http.ErrAbortHandler)
			case "error":
				panic(fmt.Errorf("handler fails"))
			case "close": // the server never finishes it otherwise
			}
		})
		<-q.served
		synctest.Wait()
		m := M{"o": "mwend", "k": op.J, "pan": op.K, "gotpan": q.pan, "status": q.status, "n": q.body.Len(), "d": -1, "code": -1}
		if q.t > 0 && q.t <= len(w.ttr) {
			for _, ev := range w.ttr[q.t-1].Events() {
				if x := mwEnd.FindStringSubmatch(ev.What); x != nil {
					if d, err := time.ParseDuration(x[3]); err == nil {
						m["d"] = int(d / us)
					}
					m["code"], _ = strconv.Atoi(x[1])
				}
			}
		}
		w.add(m)
	}
}

var mwEnd = regexp.MustCompile(`^HTTP (\d+), (\S+), (\S+)$`)

func (w *World) mwClose() {
	for _, q := range w.mws {
		if !q.ends {
			w.mwdo(Op{O: "mwend", J: q.k, K: "none"})
		}
		q.cancel()
	}
	if w.mwsrv != nil {
		w.mwsrv.Close()
		synctest.Wait()
	}
}

// mwSeen is everything that could be observed of the request, but the trace.
func (w *World) mwSeen(q *mwreq) string {
	if q.gone || (q.pan != "" && !q.req.Direct) { // what was on its way is lost, or not
		js, _ := json.Marshal(M{"pan": q.pan, "infos": q.infos, "err": q.err != "", "ctx": q.lost})
		return string(js)
	}
	body := q.body.String()
	if len(body) > 40 {
		body = fmt.Sprintf("%d:%x", len(body), sha256.Sum256([]byte(body)))
	}
	js, _ := json.Marshal(M{"status": q.status, "head": q.head, "infos": q.infos, "body": body, "arr": q.arr, "trail": q.trail, "err": q.err, "pan": q.pan, "res": q.res})
	return string(js)
}

func (w *World) mwPanics() int { return strings.Count(w.mwlog.String(), "http: panic serving") }

// mwCompare adds the comparison with a run without middleware.
func (w *World) mwCompare(p *World) {
	for i, q := range w.mws {
		a, b := w.mwSeen(q), "none"
		if i < len(p.mws) {
			b = p.mwSeen(p.mws[i])
		}
		m := M{"o": "mwsame", "k": i + 1, "same": a == b, "with": "", "without": ""}
		if a != b {
			m["with"], m["without"] = a[:min(len(a), 600)], b[:min(len(b), 600)]
		}
		w.ops = append(w.ops, m)
	}
	if w.mwPanics() != p.mwPanics() {
		w.ops = append(w.ops, M{"o": "mwsame", "k": 0, "same": false, "with": fmt.Sprint(w.mwPanics()), "without": fmt.Sprint(p.mwPanics())})
	}
}

var _ net.Listener = (*pipeNet)(nil)
