package vh

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"html/template"
	"io"
	"mime"
	"net/http"
	"net/http/httptest"
	"net/url"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/eztrc"
	"github.com/peterbourgon/trc/trcweb"
)

// Tok is a parameter as it's written in a URL.
type Tok struct {
	Raw string `json:"raw"`
	OK  bool   `json:"ok"` // can be parsed
	V   int    `json:"v"`
}

// URLParams are the parameters of a search in a URL, in addition to those of
// the filter (at most one of N, Min, Stack).
type URLParams struct {
	N     []Tok `json:"n"`
	Min   []Tok `json:"min"`
	Stack []Tok `json:"stack"`
	B     []Tok `json:"b"`
}

func (u *URLParams) norm() {
	for _, x := range []*[]Tok{&u.N, &u.Min, &u.Stack, &u.B} {
		if *x == nil {
			*x = []Tok{}
		}
	}
}

func intTok(s string) Tok {
	n, err := strconv.Atoi(s)
	return Tok{s, err == nil, n}
}

func durTok(s string) Tok {
	d, err := time.ParseDuration(s)
	return Tok{s, err == nil, int(d / us)}
}

// wire sends the request to the handler, through its wire format.
func wire(h http.Handler, r *http.Request) (*http.Response, error) {
	var buf bytes.Buffer
	if err := r.Write(&buf); err != nil {
		return nil, err
	}
	r2, err := http.ReadRequest(bufio.NewReader(&buf))
	if err != nil {
		return nil, err
	}
	r2.RemoteAddr = "10.0.0.1:1234"
	rec := httptest.NewRecorder()
	h.ServeHTTP(rec, r2.WithContext(r.Context()))
	if err := r.Context().Err(); err != nil { // the client gave up
		return nil, err
	}
	return rec.Result(), nil
}

// mediaType says what is wrong with the type of the content of a response.
func mediaType(res *http.Response, want string) string {
	got, _, err := mime.ParseMediaType(res.Header.Get("content-type"))
	if err != nil || got != want {
		return fmt.Sprintf("%s was given as %q", want, res.Header.Get("content-type"))
	}
	return ""
}

type wireClient struct {
	h    http.Handler
	body []byte
	code int
	bad  string
	at   string // where the server is
}

func (c *wireClient) Do(r *http.Request) (*http.Response, error) {
	if r.URL.Scheme+"://"+r.URL.Host != c.at || r.URL.Path != "/traces" {
		return nil, fmt.Errorf("bad URL %s", r.URL)
	}
	res, err := wire(c.h, r)
	if err != nil {
		return nil, err
	}
	c.body, _ = io.ReadAll(res.Body)
	c.code = res.StatusCode
	c.bad = mediaType(res, "application/json")
	res.Body = io.NopCloser(bytes.NewReader(c.body))
	return res, nil
}

// filterM converts a filter as the server understood it.
func (w *World) filterM(f trc.Filter) M {
	ids := []int{}
	for _, id := range f.IDs {
		n := w.num(id)
		if n == 0 && id != w.idOf(0) {
			n = -1
		}
		ids = append(ids, n)
	}
	src := append([]string{}, f.Sources...)
	min := []int{}
	if f.MinDuration != nil {
		min = append(min, int(*f.MinDuration/us))
	}
	return M{"src": src, "ids": ids, "cat": f.Category, "act": f.IsActive, "fin": f.IsFinished, "min": min,
		"suc": f.IsSuccess, "err": f.IsErrored, "q": f.Query}
}

func (w *World) reqM(r *trc.SearchRequest) M {
	b := []int{}
	for _, d := range r.Bucketing {
		b = append(b, int(d/us))
	}
	return M{"f": w.filterM(r.Filter), "lim": r.Limit, "b": b, "depth": r.StackDepth}
}

func (w *World) filterValues(f *Filt, style int) url.Values {
	q := url.Values{}
	flag := func(k string, on bool) {
		if on {
			q.Set(k, []string{"", "true", "1", "yes"}[style%4])
		}
	}
	tf := w.filter(f)
	for _, s := range tf.Sources {
		q.Add("source", s)
	}
	for _, s := range tf.IDs {
		q.Add("id", s)
	}
	if f.Cat != "" {
		q.Set("category", f.Cat)
	}
	flag("active", f.Act)
	flag("finished", f.Fin)
	flag("success", f.Suc)
	flag("errored", f.Err)
	if f.Q != "" {
		q.Set("q", f.Q)
	}
	return q
}

// webServer is a trace server for the searcher.
func (w *World) webServer(s *Srch, parts *[]held, style int) http.Handler {
	if s.K == "col" && s.D == 0 && s.Sk == 0 && w.ezcol(s.C) {
		if s.S == nil {
			s.S = []*Srch{}
		}
		return eztrc.Handler()
	}
	if s.K == "col" && s.D == 0 && s.Sk == 0 && style%2 == 0 {
		if s.S == nil {
			s.S = []*Srch{}
		}
		return trcweb.NewTraceServer(w.cols[s.C-1])
	}
	return &trcweb.TraceServer{Searcher: w.searcher(s, parts)}
}

// webSearch makes a search over HTTP and returns the response, and the request
// as the server saw it.
func (w *World) webSearch(op Op, parts *[]held) M {
	h := w.webServer(op.S, parts, op.Style)
	fail := func(format string, args ...any) M {
		return M{"panic": fmt.Sprintf(format, args...), "tr": []M{}}
	}
	switch op.Via {
	case "json":
		if op.Style%5 == 2 {
			return w.webSearchJSON(h, op)
		}
		cl := &wireClient{h: h}
		req := &trc.SearchRequest{Filter: w.filter(op.Req.F), Limit: op.Req.Lim, Bucketing: w.durs(op.Req.B), StackDepth: op.Req.Depth}
		loc := []string{"http://server", "https://server", "server", "httpd", "httpsd:8080", "localhost:80", "http://10.0.0.1:8080", "https://[::1]:443"}[op.Style%8]
		uri := loc + "/traces"
		if cl.at = loc; !strings.Contains(loc, "://") {
			cl.at = "http://" + loc
		}
		res, err := trcweb.NewSearchClient(cl, uri).Search(context.Background(), req)
		if err != nil || res == nil {
			return fail("search client failed: %v", err)
		}
		if cl.bad != "" {
			return fail("%s", cl.bad)
		}
		var data trcweb.SearchData
		if err := json.Unmarshal(cl.body, &data); err != nil {
			return fail("bad response: %v", err)
		}
		r := w.resM(res, &data.Request)
		r["hreq"] = w.reqM(&data.Request)
		w.hold("search response", res)
		return r
	case "url", "html":
		q := w.filterValues(op.Req.F, op.Style)
		for _, t := range op.U.N {
			q.Set("n", t.Raw)
		}
		for _, t := range op.U.Min {
			q.Set("min", t.Raw)
		}
		for _, t := range op.U.Stack {
			q.Set("stack", t.Raw)
		}
		for _, t := range op.U.B {
			q.Add("b", t.Raw)
		}
		accept := []string{"", "application/json", "*/*", "text/plain, application/json;q=0.9"}[op.Style%4]
		if op.Via == "html" {
			accept = []string{"text/html", "text/html,application/xhtml+xml,application/xml;q=0.9,*/*;q=0.8"}[op.Style%2]
		} else if op.Style%5 == 4 {
			accept = "text/html"
			q.Set("json", "")
		}
		hr, _ := http.NewRequest("GET", "http://server/traces?"+q.Encode(), nil)
		if accept != "" {
			hr.Header.Set("accept", accept)
		}
		res, err := wire(h, hr)
		if err != nil {
			return fail("%v", err)
		}
		body, _ := io.ReadAll(res.Body)
		if res.StatusCode != 200 {
			return fail("server gave HTTP %d: %.300s", res.StatusCode, body)
		}
		if bad := mediaType(res, map[bool]string{true: "text/html", false: "application/json"}[op.Via == "html"]); bad != "" {
			return fail("%s", bad)
		}
		if op.Via == "html" {
			return w.page(string(body))
		}
		var data trcweb.SearchData
		if err := json.Unmarshal(body, &data); err != nil {
			return fail("bad response: %v: %.300s", err, body)
		}
		r := w.resM(&data.Response, &data.Request)
		r["hreq"] = w.reqM(&data.Request)
		return r
	}
	panic("unknown via")
}

// webSearchJSON makes a search with a request written by hand.
func (w *World) webSearchJSON(h http.Handler, op Op) M {
	fail := func(format string, args ...any) M {
		return M{"panic": fmt.Sprintf(format, args...), "tr": []M{}}
	}
	f := w.filter(op.Req.F)
	fm := M{}
	set := func(m M, k string, v any, zero bool) {
		if !zero || op.Style%2 == 0 {
			m[k] = v
		}
	}
	set(fm, "sources", f.Sources, len(f.Sources) == 0)
	set(fm, "ids", f.IDs, len(f.IDs) == 0)
	set(fm, "category", f.Category, f.Category == "")
	set(fm, "is_active", f.IsActive, !f.IsActive)
	set(fm, "is_finished", f.IsFinished, !f.IsFinished)
	if f.MinDuration != nil {
		fm["min_duration"] = f.MinDuration.Nanoseconds()
	}
	set(fm, "is_success", f.IsSuccess, !f.IsSuccess)
	set(fm, "is_errored", f.IsErrored, !f.IsErrored)
	set(fm, "query", f.Query, f.Query == "")
	m := M{}
	set(m, "filter", fm, len(fm) == 0)
	set(m, "limit", op.Req.Lim, op.Req.Lim == 0)
	set(m, "stack_depth", op.Req.Depth, op.Req.Depth == 0)
	var ns []int64
	for _, d := range w.durs(op.Req.B) {
		ns = append(ns, d.Nanoseconds())
	}
	set(m, "bucketing", ns, len(ns) == 0)
	body, _ := json.Marshal(m)
	hr, _ := http.NewRequest("POST", "http://server/traces", bytes.NewReader(body))
	hr.Header.Set("content-type", []string{"application/json", "application/json; charset=utf-8"}[op.Style/5%2])
	res, err := wire(h, hr)
	if err != nil {
		return fail("%v", err)
	}
	b, _ := io.ReadAll(res.Body)
	if bad := mediaType(res, "application/json"); bad != "" || res.StatusCode != 200 {
		return fail("server gave HTTP %d, %s: %.300s", res.StatusCode, bad, b)
	}
	var raw struct {
		Request  M
		Response struct {
			Total   *int  `json:"total_count"`
			Match   *int  `json:"match_count"`
			Traces  []M   `json:"traces"`
			Stats   M     `json:"stats"`
			Sources []any `json:"sources"`
		} `json:"response"`
	}
	var data trcweb.SearchData
	if err := errors.Join(json.Unmarshal(b, &data), json.Unmarshal(b, &raw)); err != nil {
		return fail("bad response: %v: %.300s", err, b)
	}
	if raw.Response.Total == nil || raw.Response.Match == nil || raw.Response.Stats == nil {
		return fail("incomplete response: %.300s", b)
	}
	for _, t := range raw.Response.Traces {
		for _, k := range []string{"source", "id", "category", "started", "duration"} {
			if _, ok := t[k]; !ok {
				return fail("incomplete trace, no %s: %v", k, t)
			}
		}
	}
	r := w.resM(&data.Response, &data.Request)
	r["hreq"] = w.reqM(&data.Request)
	return r
}

var (
	traceDiv = regexp.MustCompile(`^trace-(.*)$`)
	counter  = regexp.MustCompile(`^\s*(\w+)=(\d+)\s*$`)
)

// The functions that make links to source code.
var (
	links = []func(string) template.URL{
		func(string) template.URL { return "" },
		trcweb.SourceLinkVSCode,
		func(fl string) template.URL {
			return template.URL("https://code.example/?at=" + url.QueryEscape(fl) + "&b=<\"'>")
		},
	}
	linkSet bool // whether one was ever set
)

func setLink(i int) {
	if i > 0 || linkSet {
		trcweb.SetSourceLinkFunc(links[i])
		linkSet = true
	}
}

// linked reads file and line of a frame, with the link that goes with it.
func (w *World) linked(n *node) string {
	t := n.txt()
	href, ok := n.attr["href"]
	switch {
	case w.link == 0:
		if ok || n.tag == "a" {
			return "link to " + href
		}
		return t
	case !ok || n.tag != "a":
		return "no link: " + t
	}
	fl, ok := "", false
	if w.link == 1 {
		fl, ok = strings.CutPrefix(href, "vscode://file/")
		fl = "/" + strings.TrimLeft(fl, "/")
	} else if u, err := url.Parse(href); err == nil && u.Scheme == "https" && u.Host == "code.example" && u.Query().Get("b") == "<\"'>" {
		fl, ok = u.Query().Get("at"), true
	}
	if !ok || !strings.HasPrefix(fl, "/") || compactFileLine(fl) != t {
		return "link to " + href
	}
	return t
}

// page reads the page that shows a search.
func (w *World) page(body string) M {
	dom := parseHTML(body)
	r := M{"panic": "", "tr": []M{}, "total": -1, "match": -1, "shown": -1, "np": 0}
	trs := []M{}
	for _, d := range dom.find(func(n *node) bool { return n.tag == "div" && traceDiv.MatchString(n.attr["id"]) }) {
		evs := []M{}
		times := []M{} // of the start, the events and the end
		stacks := [][]Fr{}
		end := ""
		for _, e := range d.find(func(n *node) bool { return n.hasClass("event") && !n.hasClass("summary") }) {
			m := M{"w": -1, "d": -1, "c": -1, "h": -1}
			for _, x := range e.find(func(n *node) bool { return n.hasClass("timestamp") }) {
				m["w"] = w.dayTime(strings.TrimSpace(x.txt()))
			}
			for _, x := range e.find(func(n *node) bool { return n.hasClass("delta") }) {
				if y := deltaTitle.FindStringSubmatch(x.attr["title"]); y != nil {
					m["d"], m["c"] = durUs(y[1]), durUs(y[2])
				}
				m["h"] = durUs(strings.TrimPrefix(strings.TrimSpace(x.txt()), "+"))
			}
			times = append(times, m)
			for _, x := range e.find(func(n *node) bool { return n.hasClass("stack") }) {
				fr := []Fr{}
				for _, y := range x.find(func(n *node) bool { return n.hasClass("searchable") }) {
					if f, ok := y.attr["title"]; ok {
						fr = append(fr, Fr{F: f})
						if !strings.HasSuffix(f, y.txt()) || y.txt() == "" {
							fr[len(fr)-1].F = "shown as " + y.txt()
						}
					} else if len(fr) > 0 {
						fr[len(fr)-1].L = w.linked(y)
					}
				}
				stacks = append(stacks, fr)
			}
			for _, x := range e.find(func(n *node) bool { return n.hasClass("meta") }) {
				end = strings.TrimSpace(x.txt())
			}
		}
		du := M{"d": -1, "h": -1}
		for _, x := range d.find(func(n *node) bool { return n.hasClass("duration") }) {
			du = M{"d": durUs(x.attr["title"]), "h": durUs(strings.Trim(x.txt(), " \u00a0\n\t"))}
		}
		for _, what := range d.find(func(n *node) bool { return n.hasClass("what") }) {
			for _, x := range what.find(func(n *node) bool { return n.hasClass("searchable") }) {
				t := x.txt()
				if m := regionEnd.FindStringSubmatch(t); m != nil {
					if _, err := time.ParseDuration(m[2]); err == nil {
						t = m[1] + "[D]"
					}
				}
				evs = append(evs, M{"x": t, "e": what.hasClass("error")})
			}
		}
		meta := []M{}
		for _, x := range d.find(func(n *node) bool { return n.hasClass("metadata") }) {
			for _, a := range x.find(func(n *node) bool { return n.tag == "a" }) {
				for _, y := range linkParams(a.attr["href"]) {
					t := a.txt()
					if y[0] == "id" {
						y[1] = fmt.Sprint(w.num(y[1]))
						if n := w.num(t); n > 0 {
							t = fmt.Sprint(n)
						}
					}
					meta = append(meta, M{"k": y[0], "v": y[1], "t": t})
				}
			}
		}
		trs = append(trs, M{"t": w.num(traceDiv.FindStringSubmatch(d.attr["id"])[1]), "ev": evs, "meta": meta, "times": times, "stacks": stacks, "end": end, "du": du})
	}
	r["tr"] = trs
	for _, d := range dom.find(func(n *node) bool { return n.hasClass("topline-search") }) {
		for _, line := range strings.Split(d.txt(), "\n") {
			if m := counter.FindStringSubmatch(line); m != nil {
				n, _ := strconv.Atoi(m[2])
				switch m[1] {
				case "total":
					r["total"] = n
				case "matched":
					r["match"] = n
				case "shown":
					r["shown"] = n
				case "problems":
					r["np"] = n
				}
			}
		}
	}
	form := [][]string{}
	for _, d := range dom.find(func(n *node) bool { return n.attr["id"] == "search-form" }) {
		for _, x := range d.find(func(n *node) bool {
			return n.tag == "input" && n.attr["type"] != "submit" && n.attr["name"] != "source"
		}) {
			k, v := x.attr["name"], x.attr["value"]
			if k == "min" {
				v = fmt.Sprint(durUs(v))
			}
			form = append(form, []string{k, v})
		}
		for _, x := range d.find(func(n *node) bool { return n.tag == "select" }) {
			for _, o := range x.find(func(n *node) bool { return n.tag == "option" }) {
				if _, ok := o.attr["selected"]; ok {
					if x.attr["name"] == "n" {
						form = append(form, []string{"n", strings.TrimSpace(o.txt())})
					} else {
						form = append(form, []string{"source", o.attr["value"]})
					}
				}
			}
		}
	}
	r["form"], r["stk"] = form, w.stacks
	srcs, nsrc := []string{}, 0
	for _, d := range dom.find(func(n *node) bool { return n.attr["id"] == "topline-search-sources" }) {
		for _, x := range d.find(func(n *node) bool { return n.tag == "summary" }) {
			fmt.Sscanf(strings.TrimSpace(x.txt()), "sources=%d", &nsrc)
		}
		for _, x := range d.find(func(n *node) bool { return n.tag == "details" }) {
			for _, y := range x.find(func(n *node) bool { return n.tag == "div" }) {
				for _, k := range y.kids {
					if t := strings.TrimSpace(k.txt()); k.tag == "" && t != "" {
						srcs = append(srcs, t)
					}
				}
			}
		}
	}
	r["src"], r["nsrc"] = srcs, nsrc
	rows := []M{}
	for _, tr := range dom.find(func(n *node) bool { return n.tag == "tr" && n.hasClass("category") }) {
		row := M{"cat": "", "act": -1, "bk": []int{}, "er": -1, "total": -1}
		links := []M{}
		bk := []int{}
		for _, td := range tr.find(func(n *node) bool { return n.tag == "td" }) {
			n, err := strconv.Atoi(strings.TrimSpace(td.txt()))
			k := ""
			switch {
			case td.hasClass("category"):
				as := td.find(func(n *node) bool { return n.tag == "a" })
				if len(as) == 1 {
					row["cat"] = as[0].txt()
				}
				k = "cat"
			case err != nil:
				continue
			case td.hasClass("bucket"):
				bk = append(bk, n)
				k = "bk"
			case td.hasClass("errored"):
				row["er"] = n
				k = "er"
			case td.hasClass("active"):
				row["act"] = n
				k = "act"
			case td.hasClass("total"):
				row["total"] = n
				continue
			default:
				continue
			}
			for _, a := range td.find(func(n *node) bool { return n.tag == "a" }) {
				links = append(links, M{"k": k, "p": linkParams(a.attr["href"])})
			}
		}
		row["bk"] = bk
		pct := []M{}
		for _, td := range tr.find(func(n *node) bool { return n.tag == "td" && n.hasClass("progress") }) {
			m := M{"n": -1, "of": -1, "p": -1, "bar": -1}
			if x := pctTitle.FindStringSubmatch(td.attr["title"]); x != nil {
				m["n"], _ = strconv.Atoi(x[1])
				m["of"], _ = strconv.Atoi(x[2])
				m["p"], _ = strconv.Atoi(x[3])
			}
			for _, b := range td.find(func(n *node) bool { return n.hasClass("progress-bar") }) {
				if x := barStyle.FindStringSubmatch(b.attr["style"]); x != nil {
					m["bar"], _ = strconv.Atoi(x[1])
				}
			}
			pct = append(pct, m)
		}
		row["pct"] = pct
		row["old"], row["new"] = -1, -1
		for _, td := range tr.find(func(n *node) bool { return n.tag == "td" }) {
			if td.hasClass("oldest") {
				row["old"] = durUs(strings.TrimSpace(td.txt()))
			} else if td.hasClass("newest") {
				row["new"] = durUs(strings.TrimSpace(td.txt()))
			}
		}
		row["links"] = links
		rows = append(rows, row)
	}
	r["rows"] = rows
	return r
}

var (
	deltaTitle = regexp.MustCompile(`^\+(\S+) = (\S+), `)
	pctTitle   = regexp.MustCompile(`^(\d+) of (\d+), (-?\d+)%$`)
	barStyle   = regexp.MustCompile(`^height:\s*(\d+)%`)
)

// durUs is the duration in microseconds, rounded, -1 if there is none.
func durUs(s string) int {
	d, err := time.ParseDuration(s)
	if err != nil {
		return -1
	}
	return int(d.Round(us) / us)
}

// dayTime is the time of a trace that shows as s, -1 if there is none.
func (w *World) dayTime(s string) int {
	t, err := time.Parse("15:04:05.000000", s)
	if err != nil {
		return -1
	}
	b := w.start.UTC()
	t = time.Date(b.Year(), b.Month(), b.Day(), t.Hour(), t.Minute(), t.Second(), t.Nanosecond(), time.UTC)
	if t.Before(b.Add(-12 * time.Hour)) {
		t = t.Add(24 * time.Hour)
	} else if t.After(b.Add(12 * time.Hour)) {
		t = t.Add(-24 * time.Hour)
	}
	return int(t.Sub(b.Truncate(us)) / us)
}

// linkParams are the parameters of a link, with durations in microseconds.
func linkParams(href string) [][]string {
	res := [][]string{}
	u, err := url.Parse(href)
	if err != nil {
		return [][]string{{"unparsable", href}}
	}
	q, err := url.ParseQuery(u.RawQuery)
	if err != nil {
		return [][]string{{"unparsable", href}}
	}
	for k, vs := range q {
		for _, v := range vs {
			if k == "b" || k == "min" {
				if d, err := time.ParseDuration(v); err == nil {
					v = strconv.Itoa(int(d / us))
				}
			}
			res = append(res, []string{k, v})
		}
	}
	sort.Slice(res, func(i, j int) bool { return fmt.Sprint(res[i]) < fmt.Sprint(res[j]) })
	return res
}

// bodies that are not search requests
func badBody(i int, f *trc.SearchRequest) string {
	js, _ := json.Marshal(f)
	switch i % 10 {
	case 0:
		return "{"
	case 1:
		return "[]"
	case 2:
		return `{"limit":"many"}`
	case 3:
		return `{"filter":5}`
	case 4:
		return ""
	case 5:
		return `{"bucketing":["1s"]}`
	case 6:
		return `{"filter":{"sources":"x"}}`
	case 7:
		return string(js[:len(js)-1-i%(len(js)-1)])
	case 8:
		return `{"filter":{"query":"` + strings.Repeat("x", 1<<20+10) + `"}}`
	default:
		return `{"filter":{"min_duration":"1s"}}`
	}
}

// webBad sends something that's not a request.
func (w *World) webBad(op Op) M {
	var parts []held
	h := w.webServer(op.S, &parts, op.Style)
	body := badBody(op.N, &trc.SearchRequest{Filter: w.filter(op.Req.F), Limit: op.Req.Lim, Bucketing: w.durs(op.Req.B)})
	hr, _ := http.NewRequest([]string{"GET", "POST"}[op.Style%2], "http://server/", strings.NewReader(body))
	hr.Header.Set("content-type", "application/json")
	res, err := wire(h, hr)
	if err != nil {
		return M{"code": 0, "np": 0}
	}
	b, _ := io.ReadAll(res.Body)
	var data trcweb.SearchData
	np := 0
	if json.Unmarshal(b, &data) == nil {
		np = len(data.Response.Problems)
	}
	return M{"code": res.StatusCode, "np": np}
}

// webOdd is a client whose server misbehaves.
func (w *World) webOdd(op Op) bool {
	h := http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		switch op.N % 8 {
		case 6:
			rw.WriteHeader(302)
			io.WriteString(rw, `{"response":{}}`)
		case 7:
			rw.WriteHeader(203)
			io.WriteString(rw, `{"response":`)
		case 0:
			rw.WriteHeader(500)
		case 1:
			rw.WriteHeader(404)
			io.WriteString(rw, "{}")
		case 2:
			io.WriteString(rw, "not json")
		case 3:
			io.WriteString(rw, `{"response":{"total_count":`)
		case 4:
			rw.WriteHeader(204)
		case 5:
			io.WriteString(rw, `{"response":[]}`)
		}
	})
	cl := HTTPFunc(func(r *http.Request) (*http.Response, error) {
		if op.N%7 == 6 {
			return nil, errors.New("connection refused")
		}
		return wire(h, r)
	})
	_, err := trcweb.NewSearchClient(cl, "http://server").Search(context.Background(), &trc.SearchRequest{})
	return err != nil
}

// HTTPFunc is an HTTP client.
type HTTPFunc func(*http.Request) (*http.Response, error)

func (f HTTPFunc) Do(r *http.Request) (*http.Response, error) { return f(r) }
