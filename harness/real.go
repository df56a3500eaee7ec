package vh

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/trcweb"
)

// mainReal calls the command line tool as a process of its own, with servers
// on the loopback network, in real time.
func mainReal(t *testing.T) {
	o := newOut(os.Getenv("VH_OUT"))
	bin := os.Getenv("VH_TRC")
	for _, kind := range []string{"search", "search-env", "search-down", "search-two", "stream", "stream-two", "events", "events-env", "stream-down", "stream-later", "stream-stop",
		"none", "no-uri", "no-command", "bad-flag", "bad-value", "bad-level", "help"} {
		var ops []M
		for try := 1; try <= 3; try++ {
			ops = realRun(bin, kind, try)
			if ops[0]["code"] != -1 { // the signal may come too early
				break
			}
		}
		o.put(M{"cells": []string{}, "qm": M{}, "ops": ops})
	}
	o.close()
	fmt.Println("VH-RUNS", o.n)
}

type realTrace struct {
	ID       string          `json:"id"`
	Finished bool            `json:"finished"`
	Events   json.RawMessage `json:"events"`
}

// realRun is a call: what happened on the server is recorded in hist, and
// what was printed in out, as numbers of traces (negative while active).
func realRun(bin, kind string, try int) []M {
	var (
		hist = []int{}
		cols = []*trc.Collector{trc.NewCollector(trc.CollectorConfig{Source: "one"}), trc.NewCollector(trc.CollectorConfig{Source: "two"})}
		srvs []*httptest.Server
		ids  = map[string]int{}
		trs  = []trc.Trace{nil}
		args []string
		env  []string
	)
	for _, c := range cols {
		s := httptest.NewServer(trcweb.NewTraceServer(c))
		defer s.Close()
		srvs = append(srvs, s)
	}
	add := func(c int, cat string) trc.Trace {
		_, tr := cols[c].NewTrace(context.Background(), cat)
		time.Sleep(time.Millisecond)
		ids[tr.ID()] = len(trs)
		trs = append(trs, tr)
		hist = append(hist, -ids[tr.ID()])
		return tr
	}
	uri := func(i int) string { return srvs[i].URL }
	bare := func(i int) string { return strings.TrimPrefix(srvs[i].URL, "http://") }
	down := httptest.NewServer(nil)
	down.Close()

	verb, _, _ := strings.Cut(kind, "-")
	switch kind {
	case "search":
		args = []string{"search", "-u", uri(0)}
	case "search-env":
		args, env = []string{"search"}, []string{"TRC_URI=" + uri(0), "TRC_LIMIT=2"}
	case "search-down":
		args = []string{"search", "-u", bare(0), "-u", down.URL}
	case "search-two":
		args = []string{"-f", "search", "-u", bare(0), "--uri=" + uri(1), "--uri-path=/x"}
	case "stream":
		args = []string{"stream", "-u", bare(0)}
	case "stream-two":
		args = []string{"stream", "-u", uri(0), "-u", bare(1), "-l", "debug"}
	case "stream-stop":
		args = []string{"stream", "-u", uri(0), "-u", down.URL, "-o", "prettyjson"}
	case "events":
		args = []string{"stream", "--events", "-u", uri(0), "-a"}
	case "events-env":
		args, env = []string{"stream"}, []string{"TRC_EVENTS=true", "TRC_URI=" + bare(0), "TRC_FINISHED=true"}
	case "stream-down", "stream-later":
		args = []string{"stream", "-u", down.URL}
	case "none":
	case "no-uri":
		args = []string{"search"}
	case "no-command":
		args = []string{"-u", uri(0)}
	case "bad-flag":
		args = []string{"search", "-u", uri(0), "--nope"}
	case "bad-value":
		args = []string{"search", "-u", uri(0), "-d", "long"}
	case "bad-level":
		args = []string{"stream", "-u", uri(0), "--log", "loud"}
	case "help":
		args = []string{"search", "--help"}
	}
	if verb == "search" {
		add(0, "a").Finish()
		hist = append(hist, 1)
		add(1, "a")
		add(0, "b")
		add(1, "b").Finish()
		hist = append(hist, 4)
		add(0, "b").Finish()
		hist = append(hist, 5)
	}

	ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Env = append([]string{"HOME=" + os.TempDir(), "PATH=/usr/bin:/bin"}, env...)
	var out, errs syncBuf
	cmd.Stdout, cmd.Stderr = &out, &errs
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	wait := func(cond func() bool) bool {
		for i := 0; i < 3000; i++ {
			if cond() {
				return true
			}
			time.Sleep(10 * time.Millisecond)
		}
		return false
	}
	if verb == "stream" || verb == "events" {
		wait(func() bool { return strings.Contains(errs.String(), "streaming:") })
		up := kind != "stream-down"
		if kind == "stream-later" { // the server comes up only now
			time.Sleep(200 * time.Millisecond)
			ln, err := net.Listen("tcp", strings.TrimPrefix(down.URL, "http://"))
			if up = err == nil; up {
				srv := &http.Server{Handler: trcweb.NewTraceServer(cols[0])}
				go srv.Serve(ln)
				defer srv.Close()
			}
		}
		if up {
			// subscribed, as soon as something arrives
			subs := []int{0}
			if kind == "stream-two" {
				subs = []int{0, 1}
			}
			for _, c := range subs {
				wait(func() bool {
					if cmd.ProcessState != nil || ctx.Err() != nil {
						return true
					}
					_, tr := cols[c].NewTrace(context.Background(), "probe")
					tr.Finish()
					time.Sleep(50 * time.Millisecond)
					return strings.Contains(out.String(), tr.ID())
				})
			}
			for i, c := range []int{0, 0, 1, 0} {
				if c == 1 && kind != "stream-two" {
					continue
				}
				tr := add(c, fmt.Sprint("cat", i))
				tr.Tracef("event")
				hist = append(hist, -ids[tr.ID()])
				if i != 1 {
					tr.Finish()
					hist = append(hist, ids[tr.ID()])
				}
				n := map[bool]int{true: 0, false: 1}[i == 1] // lines
				if verb == "events" {
					n += 2
				}
				wait(func() bool { return strings.Count(out.String(), tr.ID()) >= n || ctx.Err() != nil })
			}
		}
		time.Sleep(time.Duration(try) * 500 * time.Millisecond)
		cmd.Process.Signal(syscall.SIGINT)
	}
	cmd.Wait()
	code := cmd.ProcessState.ExitCode()

	// what was printed
	printed, rest, vals := []int{}, out.String(), 0
	problems := 0
	dec := json.NewDecoder(strings.NewReader(rest))
	see := func(x realTrace) {
		i, ok := ids[x.ID]
		if !ok && (verb == "stream" || verb == "events") {
			return // a probe
		}
		if !x.Finished {
			i = -i
		}
		printed = append(printed, i)
	}
	ok := true
	for {
		var x struct {
			realTrace
			Traces   []realTrace `json:"traces"`
			Problems []string    `json:"problems"`
		}
		err := dec.Decode(&x)
		if err == io.EOF {
			break
		}
		if err != nil {
			ok = false
			break
		}
		vals++
		if verb == "search" {
			for _, y := range x.Traces {
				see(y)
			}
			problems += len(x.Problems)
		} else {
			see(x.realTrace)
		}
	}
	cols1 := []int{0}
	for _, tr := range trs[1:] {
		cols1 = append(cols1, map[string]int{"one": 1, "two": 2}[tr.Source()])
	}
	return []M{{"o": "cproc", "kind": kind, "verb": verb, "code": code, "hist": hist, "src": cols1[1:], "out": printed, "vals": vals, "prob": problems, "json": ok,
		"said": len(bytes.TrimSpace([]byte(errs.String()))) > 0, "err": lastLine(errs.String())}}
}

func lastLine(s string) string {
	s = strings.TrimSpace(s)
	if i := strings.LastIndexByte(s, '\n'); i >= 0 {
		s = s[i+1:]
	}
	return s[:min(len(s), 200)]
}
