package vh

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"os"
	"strconv"
	"strings"
	"testing/synctest"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/trcweb"
)

// cliRun runs the command line tool (with build tag cli).
var cliRun func(ctx context.Context, args []string, stdin io.Reader, stdout, stderr io.Writer, done func(code int))

// cliOpt says how the tool is called.
type cliOpt struct {
	IncReq   bool `json:"iq"`
	IncStats bool `json:"is"`
	Events   bool `json:"ev"`
}

// cliProc is a running `trc stream`.
type cliProc struct {
	w      *World
	hs     []*hconn
	buf    []byte
	out    syncBuf // all of it
	errs   syncBuf
	pretty bool
	ctx    context.Context
	cancel context.CancelFunc
}

// Write implements io.Writer, for what the tool prints.
func (p *cliProc) Write(b []byte) (int, error) {
	p.hs[0].wait(p.ctx)
	p.hs[0].mu.Lock()
	p.buf = append(p.buf, b...)
	p.hs[0].mu.Unlock()
	return len(b), nil
}

// parse takes the complete values from what was printed.
func (p *cliProc) parse() {
	p.hs[0].mu.Lock()
	data := p.buf
	p.buf = nil
	p.hs[0].mu.Unlock()
	dec := json.NewDecoder(bytes.NewReader(data))
	n := 0
	for {
		var st trc.StaticTrace
		err := dec.Decode(&st)
		h := p.hs[0]
		if err == io.EOF {
			if lines := bytes.Count(data, []byte("\n")); p.pretty && lines < 2*n || !p.pretty && lines != n {
				h.mu.Lock()
				h.other = append(h.other, fmt.Sprintf("%d values on %d lines", n, lines))
				h.mu.Unlock()
			}
			return
		}
		n++
		if err != nil {
			h.mu.Lock()
			h.other = append(h.other, fmt.Sprintf("bad output: %v", err))
			h.mu.Unlock()
			return
		}
		for _, x := range p.hs {
			if x.b == p.w.tb[st.ID()] {
				h = x
			}
		}
		h.got(&st)
	}
}

func (w *World) cliFilter(f *Filt, style int) []string {
	var args []string
	val := func(short, long, v string) {
		switch {
		case strings.HasPrefix(v, "-") || style%3 == 0:
			args = append(args, "--"+long+"="+v)
		case style%3 == 1 || short == "":
			args = append(args, "--"+long, v)
		default:
			args = append(args, short, v)
		}
	}
	flag := func(short, long string, on bool) {
		if on && (style%2 == 0 || short == "") {
			args = append(args, "--"+long)
		} else if on {
			args = append(args, short)
		}
	}
	tf := w.filter(f)
	for _, s := range tf.Sources {
		val("", "source", s)
	}
	for _, s := range tf.IDs {
		val("-i", "id", s)
	}
	if f.Cat != "" {
		val("-c", "category", f.Cat)
	}
	if f.Q != "" {
		val("-q", "query", f.Q)
	}
	flag("-a", "active", f.Act)
	flag("-f", "finished", f.Fin)
	flag("", "success", f.Suc)
	flag("", "errored", f.Err)
	if tf.MinDuration != nil {
		val("-d", "duration", tf.MinDuration.String())
	}
	return args
}

// cliURI is a way to write the location of a host.
func (w *World) cliURI(host string, style int) (uri string, more []string) {
	how := 1
	if style/5%3 > 0 {
		how = style / 15
	}
	if style%5 == 0 || style%5 == 3 { // with scheme
		how = []int{2, 0, 4, 5}[how%4]
	}
	host = w.web().net.locate(host, how)
	switch style % 5 {
	case 0:
		return host + "/traces", nil
	case 1:
		return host + "/traces", nil
	case 2:
		return host, []string{"--uri-path", "/traces"}
	case 3:
		return host + "/other", []string{"--uri-path=/traces"}
	default:
		return " " + host + "/traces", nil
	}
}

// cliServe is the server that the tool searches.
func (w *World) cliServe(rw http.ResponseWriter, r *http.Request, parts *[]held) bool {
	k, ok := strings.CutPrefix(hostOf(r), "httpsearch")
	if !ok {
		return false
	}
	n, _ := strconv.Atoi(k)
	if n < 1 || n > len(w.clis) || r.URL.Path != "/traces" {
		rw.WriteHeader(404)
		return true
	}
	s := w.clis[n-1]
	if s.K == "err" && s.D%3 == 1 {
		rw.WriteHeader(500)
		return true
	} else if s.K == "err" && s.D%3 == 2 {
		io.WriteString(rw, "not json")
		return true
	}
	w.webServer(s, parts, n).ServeHTTP(rw, r)
	return true
}

// cliSearch makes a search with `trc search`.
func (w *World) cliSearch(op Op, parts *[]held) M {
	fail := func(format string, args ...any) M {
		return M{"panic": fmt.Sprintf(format, args...), "tr": []M{}}
	}
	ww := w.web()
	ww.parts = parts
	w.clis = op.S.S
	args := []string{}
	add := func(xs ...string) { args = append(args, xs...) }
	style := op.Style
	var env []string
	uris := []string{}
	more := map[string]bool{}
	for i := range op.S.S {
		host := fmt.Sprintf("httpsearch%d", i+1)
		uri, m := w.cliURI(host, style)
		if style%5 == 2 && i%2 == 1 && style/5%3 == 0 {
			uri = w.web().net.locate(host, 0)
		}
		if op.S.S[i].K == "err" && op.S.S[i].D%3 == 0 {
			uri = strings.Replace(uri, host, "unknown.host", 1) + fmt.Sprint(i)
		}
		uris = append(uris, uri)
		if len(m) > 0 && !more[m[0]] {
			more[m[0]] = true
			add(m...)
		}
	}
	for _, u := range uris {
		add([]string{"-u", "--uri"}[style%2], u)
	}
	if op.Req.Lim != 10 || style%2 == 0 {
		if style%7 == 3 {
			env = append(env, "TRC_LIMIT="+strconv.Itoa(op.Req.Lim))
		} else {
			add("--limit=" + strconv.Itoa(op.Req.Lim))
		}
	}
	if op.Req.Depth != 0 || style%4 == 0 {
		add("--stack-depth=" + strconv.Itoa(op.Req.Depth))
	}
	if op.CO.IncReq {
		add("--include-request")
	}
	if op.CO.IncStats {
		add("--include-stats")
	}
	pretty := false
	switch style % 4 {
	case 1:
		add("-o", "ndjson")
	case 2:
		add("--output=prettyjson")
		pretty = true
	}
	if style%6 == 5 {
		add("-l", []string{"n", "debug", "t", "info"}[style%4])
	}
	fl := w.cliFilter(op.Req.F, style)
	switch style % 3 {
	case 0: // flags before or after the command
		args = append(append([]string{"search"}, fl...), args...)
	default:
		args = append(append(fl, "search"), args...)
	}
	out, code := w.cliExec(args, env)
	if code != 0 {
		return fail("trc %q exits with %d", args, code)
	}
	var res trc.SearchResponse
	dec := json.NewDecoder(strings.NewReader(out))
	if err := dec.Decode(&res); err != nil {
		return fail("trc %q: bad output: %v: %.300s", args, err, out)
	}
	if rest, _ := io.ReadAll(io.MultiReader(dec.Buffered(), strings.NewReader(out[dec.InputOffset():]))); strings.TrimSpace(out[dec.InputOffset():]) != "" {
		return fail("trc %q: more than one value in output: %.300s", args, rest)
	}
	if pretty && strings.Count(out, "\n") < 2 {
		return fail("trc %q: output all on one line", args)
	}
	if !pretty && strings.Count(out, "\n") != 1 {
		return fail("trc %q: not one line of output", args)
	}
	req := &trc.SearchRequest{}
	if res.Request != nil {
		req = res.Request
	}
	r := w.resM(&res, req)
	r["hreq"] = w.reqM(req)
	r["iq"], r["is"] = res.Request != nil, res.Stats != nil
	return r
}

// cliExec runs the tool until it ends.
func (w *World) cliExec(args, env []string) (out string, code int) {
	w.web()
	for _, e := range env {
		k, v, _ := strings.Cut(e, "=")
		os.Setenv(k, v)
		defer os.Unsetenv(k)
	}
	var stdout, stderr syncBuf
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	done := make(chan int, 1)
	cliRun(ctx, args, strings.NewReader(""), &stdout, &stderr, func(code int) { done <- code })
	code = <-done
	synctest.Wait()
	return stdout.String(), code
}

// cliBad calls the tool with wrong arguments.
func (w *World) cliBad(op Op) M {
	bad := [][]string{
		{"search"},
		{"search", "-u", "httpsearch1", "--limit=abc"},
		{"search", "-u", "httpsearch1", "--log=loud"},
		{"search", "-u", "httpsearch1", "-d", "5"},
		{"search", "-u", "httpsearch1", "--output=xml"},
		{"search", "-u", "http://%zz"},
		{"search", "-u", "httpsearch1", "--nosuchflag"},
		{"stream"},
		{"stream", "-u", "httpsearch1", "--send-buffer=many"},
		{"stream", "-u", "httpsearch1", "--stats-interval=often"},
		{"stream", "-u", "httpsearch1", "--stats-interval=0s"},
		{"stream", "-u", "httpsearch1", "--stats-interval=-1s"},
		{"stream", "-u", "httpsearch1", "--recv-buffer=-1"},
		{"stream", "--include-stats", "-u", "httpsearch1"},
	}
	args := bad[op.N%len(bad)]
	w.clis = []*Srch{{K: "err", D: 1}}
	out, code := w.cliExec(args, nil)
	return M{"code": code, "out": out, "args": args}
}

// cliStream starts `trc stream`, one stream for each host.
func (w *World) cliStream(op Op) {
	ww := w.web()
	ctx, cancel := context.WithCancel(context.Background())
	p := &cliProc{w: w, ctx: ctx, cancel: cancel}
	args := []string{"stream"}
	sr := *op.SR
	for _, c := range op.Cs {
		k := len(ww.hc) + 1
		h := &hconn{w: w, k: k, host: fmt.Sprintf("host%d", k), req: sr, cancel: cancel, gate: make(chan struct{}), col: w.cols[c-1],
			b: op.Bs[len(p.hs)], ret: "-", ownIDs: map[string]bool{}, proc: p}
		h.setGate(true)
		h.failing(sr.Fails, sr.Dial, sr.CodeN)
		ww.hc = append(ww.hc, h)
		p.hs = append(p.hs, h)
		uri, more := w.cliURI(h.host, op.Style)
		args = append(args, "-u", uri)
		if len(p.hs) == 1 {
			args = append(args, more...)
		}
	}
	if op.CO.Events {
		args = append(args, []string{"-e", "--events"}[op.Style%2])
	}
	for _, t := range sr.Buf {
		args = append(args, "--send-buffer="+strconv.Itoa(t.V))
	}
	for _, t := range sr.Stats {
		args = append(args, "--stats-interval="+(time.Duration(t.V)*us).String())
	}
	if sr.Retry != 1000000 || op.Style%2 == 0 {
		args = append(args, "--retry-interval="+(time.Duration(sr.Retry)*us).String())
	}
	switch op.Style % 4 {
	case 1:
		args = append(args, "--recv-buffer=0")
	case 2:
		args = append(args, "-o", "prettyjson", "--recv-buffer=1")
		p.pretty = true
	case 3:
		args = append(args, "-l", "none")
	}
	args = append(args, w.cliFilter(op.F, op.Style)...)
	cliRun(ctx, args, strings.NewReader(""), p, &p.errs, func(code int) {
		for _, h := range p.hs {
			h.mu.Lock()
			h.ret = "ok"
			if code != 0 {
				h.ret = fmt.Sprintf("err: exit %d", code)
			}
			h.mu.Unlock()
		}
	})
}

var _ = trcweb.NewTraceServer
