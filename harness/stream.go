package vh

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/bernerdschaefer/eventsource"
	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/eztrc"
	"github.com/peterbourgon/trc/trcweb"
)

// pipeNet is a network of one server, all in memory.
type pipeNet struct {
	conns  chan net.Conn
	done   chan struct{}
	once   sync.Once
	mu     sync.Mutex
	all    map[string][]net.Conn // server sides, by host
	refuse map[string]int        // attempts to refuse, by host
	want   map[string]string // scheme and port of a host
}

type pipeAddr string

func (a pipeAddr) Network() string { return "pipe" }
func (a pipeAddr) String() string  { return string(a) }

type pipeConn struct {
	net.Conn
	remote pipeAddr
}

func (c pipeConn) RemoteAddr() net.Addr { return c.remote }

func newPipeNet() *pipeNet {
	return &pipeNet{conns: make(chan net.Conn), done: make(chan struct{}), all: map[string][]net.Conn{}, refuse: map[string]int{}, want: map[string]string{}}
}

func (p *pipeNet) Accept() (net.Conn, error) {
	select {
	case c := <-p.conns:
		return c, nil
	case <-p.done:
		return nil, net.ErrClosed
	}
}

func (p *pipeNet) Close() error   { p.once.Do(func() { close(p.done) }); return nil }
func (p *pipeNet) Addr() net.Addr { return pipeAddr("server") }

func (p *pipeNet) dial(ctx context.Context, network, addr string) (net.Conn, error) {
	return p.connect("http", addr)
}

// dialTLS is what the transport uses for secure connections, which aren't
// here, but must be asked for.
func (p *pipeNet) dialTLS(ctx context.Context, network, addr string) (net.Conn, error) {
	return p.connect("https", addr)
}

func (p *pipeNet) connect(scheme, addr string) (net.Conn, error) {
	host, port, _ := net.SplitHostPort(addr)
	p.mu.Lock()
	want, ok := p.want[host]
	if !ok {
		want = "http:80"
	}
	if want != scheme+":"+port {
		p.mu.Unlock()
		return nil, fmt.Errorf("no server at %s port %s", scheme, port)
	}
	if p.refuse[host] > 0 {
		p.refuse[host]--
		p.mu.Unlock()
		return nil, errors.New("connection refused")
	}
	c, s := net.Pipe()
	p.all[host] = append(p.all[host], c, s)
	p.mu.Unlock()
	select {
	case p.conns <- pipeConn{s, "10.0.0.1:1234"}:
		return pipeConn{c, "server"}, nil
	case <-p.done:
		return nil, net.ErrClosed
	}
}

// locate gives one of the ways to write where the host is.
func (p *pipeNet) locate(host string, how int) string {
	p.mu.Lock()
	defer p.mu.Unlock()
	x := []struct{ want, loc string }{
		{"http:80", "http://" + host},
		{"http:80", host},
		{"https:443", "https://" + host},
		{"http:8080", host + ":8080"},
		{"https:8443", "https://" + host + ":8443"},
		{"http:81", "http://" + host + ":81"},
	}[how%6]
	p.want[host] = x.want
	return x.loc
}

func hostOf(r *http.Request) string {
	host, _, _ := strings.Cut(r.Host, ":")
	return host
}

// kill breaks all connections to the host.
func (p *pipeNet) kill(host string) {
	p.mu.Lock()
	cs := p.all[host]
	p.all[host] = nil
	p.mu.Unlock()
	for _, c := range cs {
		c.Close()
	}
}

// noisy adds what clients have to ignore to a stream, after every event.
type noisy struct {
	http.ResponseWriter
	n int
}

func (w *noisy) Flush() {
	w.n++
	io.WriteString(w.ResponseWriter, []string{": ping\n\n", "event: trace\n\n", "event: noise\ndata: {}\n\n", "data: \xff\n\n", "retry: 5\nid: 7\n\n", "\n\n", "event: stats\nid: 1\n\n", "event: noise\ndata: \xff\xfe\n\n"}[w.n%8])
	w.ResponseWriter.(http.Flusher).Flush()
}

func (w *noisy) Unwrap() http.ResponseWriter { return w.ResponseWriter }

// StreamReq says how to make a stream request.
type StreamReq struct {
	K     string `json:"k"`     // client, url, body: what makes the request
	Buf   []Tok  `json:"buf"`   // send buffer
	Stats []Tok  `json:"stats"` // interval (us)
	Retry int    `json:"retry"` // us
	Own   bool   `json:"own"`   // the request is traced in the same collector
	Loose bool   `json:"loose"` // there may be such requests
	Fails int    `json:"fails"` // attempts to connect that fail
	Code  string `json:"code"`  // what the client returns when refused for good then
	CodeN int    `json:"-"`
	Dial  bool   `json:"-"` // failing attempts do not reach the server
	Noise bool   `json:"-"` // there is more in the stream than the server sends
	Via   bool   `json:"-"` // with an HTTP client of its own
}

// hconn is a stream over HTTP.
type hconn struct {
	w      *World
	k      int
	host   string
	req    StreamReq
	xy     bool // the location has a parameter
	cancel context.CancelFunc
	mu     sync.Mutex
	gate   chan struct{} // closed: the reader reads
	open   bool
	ret    string // what the client returned
	raw    []trc.Trace
	stats  []M
	inits  []M
	own    int
	other  []string
	// server
	col    *trc.Collector
	conns  []M
	act    chan<- trc.Trace // active subscription
	nact   int
	ownIDs map[string]bool
	b      int
	proc   *cliProc
	fail   int // refuse that many connections
	code   int // then, refuse one for good
}

// Stream implements trcweb.Streamer.
func (h *hconn) Stream(ctx context.Context, f trc.Filter, ch chan<- trc.Trace) (trc.StreamStats, error) {
	h.mu.Lock()
	h.conns = append(h.conns, M{"at": h.w.rel(time.Now()), "cap": cap(ch), "f": h.w.filterM(f)})
	h.act = ch
	h.nact++
	h.mu.Unlock()
	st, err := h.col.Stream(ctx, f, ch)
	h.mu.Lock()
	h.nact--
	h.mu.Unlock()
	return st, err
}

// StreamStats implements trcweb.Streamer.
func (h *hconn) StreamStats(ctx context.Context, ch chan<- trc.Trace) (trc.StreamStats, error) {
	return h.col.StreamStats(ctx, ch)
}

type webWorld struct {
	net   *pipeNet
	srv   *http.Server
	trans *http.Transport
	old   http.RoundTripper
	hc    []*hconn
	parts *[]held
}

func (w *World) web() *webWorld {
	if w.ww != nil {
		return w.ww
	}
	ww := &webWorld{net: newPipeNet(), old: http.DefaultTransport}
	ww.srv = &http.Server{ErrorLog: log.New(&w.srvlog, "", 0), Handler: http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		var h *hconn
		for _, x := range ww.hc {
			if x.host == hostOf(r) {
				h = x
			}
		}
		if h == nil && w.cliServe(rw, r, ww.parts) {
			return
		}
		if h == nil || (h.proc != nil && r.URL.Path != "/traces") {
			rw.WriteHeader(404)
			return
		}
		if h.req.Via != (r.Header.Get("x-via") != "") {
			h.mu.Lock()
			h.other = append(h.other, "request not made by the client's HTTP client")
			h.mu.Unlock()
		}
		h.mu.Lock()
		if h.xy && r.URL.Query().Get("x") != "y" {
			h.other = append(h.other, "request made to "+r.URL.String())
		}
		fail, code := h.fail > 0, 0
		refusal := []int{599, 500, 503, 502}[h.fail%4]
		if fail {
			h.fail--
		} else {
			code, h.code = h.code, 0
		}
		h.mu.Unlock()
		if code > 0 {
			rw.WriteHeader(code) // 200: without the content type
			return
		}
		if fail {
			rw.WriteHeader(refusal)
			return
		}
		var hd http.Handler = &trcweb.TraceServer{Collector: h.col, Streamer: h}
		if w.ezcol(1) && h.col == w.cols[0] {
			hd = http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
				h.mu.Lock()
				h.nact++
				h.mu.Unlock()
				defer func() {
					h.mu.Lock()
					h.nact--
					h.mu.Unlock()
				}()
				eztrc.Handler().ServeHTTP(rw, r)
			})
		} else if h.req.Own {
			hd = trcweb.Middleware(func(ctx context.Context, cat string) (context.Context, trc.Trace) {
				ctx, tr := h.col.NewTrace(ctx, cat)
				h.mu.Lock()
				h.ownIDs[tr.ID()] = true
				h.mu.Unlock()
				return ctx, tr
			}, trcweb.Categorize)(hd)
		}
		if h.req.Noise {
			rw = &noisy{rw, h.k}
		}
		hd.ServeHTTP(rw, r)
	})}
	ww.trans = &http.Transport{DialContext: ww.net.dial, DialTLSContext: ww.net.dialTLS, DisableKeepAlives: true}
	http.DefaultTransport = ww.trans
	go ww.srv.Serve(ww.net)
	w.ww = ww
	return ww
}

func (w *World) webClose() {
	if w.ww == nil {
		return
	}
	for _, h := range w.ww.hc {
		h.cancel()
		h.setGate(true)
	}
	synctest.Wait()
	time.Sleep(200 * time.Second) // clients that wait for a retry
	synctest.Wait()
	w.ww.srv.Close()
	w.ww.trans.CloseIdleConnections()
	for _, h := range w.ww.hc {
		w.ww.net.kill(h.host)
	}
	http.DefaultTransport = w.ww.old
	synctest.Wait()
}

func (h *hconn) setGate(open bool) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if open && !h.open {
		close(h.gate)
	} else if !open && h.open {
		h.gate = make(chan struct{})
	}
	h.open = open
}

func (h *hconn) wait(ctx context.Context) {
	h.mu.Lock()
	g := h.gate
	h.mu.Unlock()
	select {
	case <-g:
	case <-ctx.Done():
	}
}

// event is called for every event received.
func (h *hconn) event(ctx context.Context, typ string, data []byte) {
	h.mu.Lock()
	defer h.mu.Unlock()
	switch typ {
	case "init":
		var x struct {
			Filter  trc.Filter `json:"filter"`
			Sendbuf int        `json:"sendbuf"`
		}
		if json.Unmarshal(data, &x) != nil {
			x.Sendbuf = -1
		}
		h.inits = append(h.inits, M{"f": h.w.filterM(x.Filter), "cap": x.Sendbuf})
	case "stats":
		var x trc.StreamStats
		if json.Unmarshal(data, &x) != nil {
			x.Sends = -1
		}
		h.stats = append(h.stats, M{"at": h.w.rel(time.Now()), "s": M{"sk": x.Skips, "se": x.Sends, "dr": x.Drops}})
	case "trace":
	case "noise", "message":
		if !h.req.Noise {
			h.other = append(h.other, typ)
		}
	default:
		h.other = append(h.other, typ)
	}
}

func (h *hconn) got(tr trc.Trace) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.raw = append(h.raw, tr)
}

// failing makes attempts to connect fail.
func (h *hconn) failing(n int, dial bool, code int) {
	h.mu.Lock()
	defer h.mu.Unlock()
	p := h.w.web().net
	p.mu.Lock()
	defer p.mu.Unlock()
	h.fail, p.refuse[h.host] = n, 0
	if dial {
		h.fail, p.refuse[h.host] = 0, n
	}
	if code >= 0 {
		h.code = code
	}
}

// viaClient is an HTTP client whose requests can be recognised.
type viaClient struct{}

func (viaClient) Do(r *http.Request) (*http.Response, error) {
	r = r.Clone(r.Context())
	r.Header.Set("x-via", "client")
	return http.DefaultClient.Do(r)
}

// hopen starts a stream.
func (w *World) hopen(op Op) {
	ww := w.web()
	k := len(ww.hc) + 1
	ctx, cancel := withCancel(context.Background())
	h := &hconn{w: w, k: k, host: fmt.Sprintf("httpd%d", k), req: *op.SR, cancel: cancel, gate: make(chan struct{}), col: w.cols[op.C-1], ret: "-", ownIDs: map[string]bool{}}
	h.setGate(true)
	h.failing(op.SR.Fails, op.SR.Dial, op.SR.CodeN)
	ww.hc = append(ww.hc, h)
	f := w.filter(op.F)
	ret := func(err error) {
		h.mu.Lock()
		defer h.mu.Unlock()
		h.ret = "ok"
		if err != nil {
			h.ret = "err"
		}
	}
	switch op.SR.K {
	case "client":
		loc := ww.net.locate(h.host, op.Style/3)
		c := trcweb.NewStreamClient(loc + "/traces")
		if op.Style%3 == 1 {
			c = &trcweb.StreamClient{URI: loc + "/traces?x=y"}
			h.xy = true
		}
		if op.SR.Via {
			c.HTTPClient = viaClient{}
		}
		c.OnRead = h.event
		c.RetryInterval = time.Duration(op.SR.Retry) * us
		c.StatsInterval, c.SendBuffer = 0, 0
		for _, t := range op.SR.Stats {
			c.StatsInterval = time.Duration(t.V) * us
		}
		for _, t := range op.SR.Buf {
			c.SendBuffer = t.V
		}
		ch := make(chan trc.Trace)
		donec := make(chan struct{})
		go func() {
			ret(c.Stream(ctx, f, ch))
			close(donec)
		}()
		go func() {
			for {
				h.wait(ctx)
				select {
				case tr := <-ch:
					h.got(tr)
				case <-donec:
					return
				}
			}
		}()
	default:
		q := w.filterValues(op.F, op.Style)
		if op.F.Min != nil && len(op.F.Min) > 0 {
			q.Set("min", (time.Duration(op.F.Min[0]) * us).String())
		}
		var body io.Reader
		if op.SR.K == "body" {
			q = map[string][]string{}
			js, _ := json.Marshal(f)
			body = bytes.NewReader(js)
		}
		for _, t := range op.SR.Stats {
			q.Set("stats", t.Raw)
		}
		for _, t := range op.SR.Buf {
			q.Set("sendbuf", t.Raw)
		}
		r, _ := http.NewRequestWithContext(ctx, []string{"GET", "POST"}[op.Style%2], "http://"+h.host+"/?"+q.Encode(), body)
		r.Header.Set("accept", []string{"text/event-stream", "text/html, text/event-stream"}[op.Style%2])
		if body != nil {
			r.Header.Set("content-type", "application/json")
		}
		go func() {
			res, err := ww.trans.RoundTrip(r)
			if err != nil {
				ret(err)
				return
			}
			defer res.Body.Close()
			if res.StatusCode != 200 {
				if res.StatusCode >= 500 || !strings.HasPrefix(res.Status, "4") {
					ret(nil)
				} else {
					ret(errors.New(res.Status))
				}
				return
			}
			dec := eventsource.NewDecoder(res.Body)
			for {
				h.wait(ctx)
				var e eventsource.Event
				if err := dec.Decode(&e); err != nil {
					ret(nil)
					return
				}
				h.event(ctx, e.Type, e.Data)
				if e.Type == "trace" {
					var st trc.StaticTrace
					if err := json.Unmarshal(e.Data, &st); err != nil {
						h.mu.Lock()
						h.other = append(h.other, "bad trace")
						h.mu.Unlock()
						continue
					}
					h.got(&st)
				}
			}
		}()
	}
}

// hobs records what all streams have done since the last time.
func (w *World) hobs() {
	if w.ww == nil || len(w.ww.hc) == 0 {
		return
	}
	synctest.Wait()
	obs := []M{}
	for _, h := range w.ww.hc {
		if h.proc != nil && h.proc.hs[0] == h {
			h.proc.parse()
		}
	}
	for _, h := range w.ww.hc {
		h.mu.Lock()
		recv := []M{}
		for _, tr := range h.raw {
			if h.ownIDs[tr.ID()] {
				h.own++
			} else if w.num(tr.ID()) != 0 || !h.req.Loose {
				recv = append(recv, w.view(tr, tr.Events()))
			}
		}
		h.raw = nil
		m := M{"nact": h.nact, "conns": orNil(h.conns), "recv": recv, "stats": orNil(h.stats), "inits": orNil(h.inits), "own": h.own, "cli": h.proc != nil,
			"other": append([]string{}, h.other...), "ret": h.ret, "s": M{"sk": 0, "se": 0, "dr": 0}}
		h.conns, h.stats, h.inits = nil, nil, nil
		if h.nact > 0 && h.act != nil {
			st, err := h.col.StreamStats(context.Background(), h.act)
			if err != nil {
				m["nact"] = -1
			}
			m["s"] = M{"sk": st.Skips, "se": st.Sends, "dr": st.Drops}
		}
		h.mu.Unlock()
		obs = append(obs, m)
	}
	log := strings.TrimSpace(w.srvlog.String())
	if log != "" {
		w.add(M{"o": "panic", "m": "server: " + log[:min(len(log), 600)]})
		w.dead = true
		return
	}
	w.add(M{"o": "hobs", "c": obs})
}

func orNil(x []M) []M {
	if x == nil {
		return []M{}
	}
	return x
}

// syncBuf is a buffer that can be used concurrently.
type syncBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (b *syncBuf) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.Write(p)
}

func (b *syncBuf) String() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.String()
}
