package vh

import (
	"context"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/eztrc"
)

// Fr is one frame of a call stack: function, and dir/file:line.
type Fr struct {
	F string `json:"f"`
	L string `json:"l"`
}

func compact(file string, line int) string {
	return filepath.Base(filepath.Dir(file)) + "/" + filepath.Base(file) + ":" + strconv.Itoa(line)
}

func compactFileLine(fl string) string {
	i := strings.LastIndex(fl, ":")
	if i < 0 {
		return fl
	}
	n, _ := strconv.Atoi(fl[i+1:])
	return compact(fl[:i], n)
}

// chain returns the caller's call stack, innermost first.
func chain() []Fr {
	var pc [12]uintptr
	n := runtime.Callers(2, pc[:])
	frames := runtime.CallersFrames(pc[:n])
	var res []Fr
	for {
		f, more := frames.Next()
		if f.Function != "" && f.Function != "runtime.goexit" {
			res = append(res, Fr{f.Function, compact(f.File, f.Line)})
		}
		if !more || len(res) >= 10 {
			return res
		}
	}
}

// The calls below record the call stack on the very line that makes the call.

//go:noinline
func callDirect(tr trc.Trace, k, f string, a []any) (fr []Fr) {
	switch k {
	case "T":
		fr = chain(); tr.Tracef(f, a...)
	case "LT":
		fr = chain(); tr.LazyTracef(f, a...)
	case "E":
		fr = chain(); tr.Errorf(f, a...)
	case "LE":
		fr = chain(); tr.LazyErrorf(f, a...)
	}
	return
}

//go:noinline
func callGet(ctx context.Context, k, f string, a []any) (fr []Fr) {
	switch k {
	case "T":
		fr = chain(); trc.Get(ctx).Tracef(f, a...)
	case "LT":
		fr = chain(); trc.Get(ctx).LazyTracef(f, a...)
	case "E":
		fr = chain(); trc.Get(ctx).Errorf(f, a...)
	case "LE":
		fr = chain(); trc.Get(ctx).LazyErrorf(f, a...)
	}
	return
}

//go:noinline
func callEz(ctx context.Context, k, f string, a []any) (fr []Fr) {
	switch k {
	case "T":
		fr = chain(); eztrc.Tracef(ctx, f, a...)
	case "LT":
		fr = chain(); eztrc.LazyTracef(ctx, f, a...)
	case "E":
		fr = chain(); eztrc.Errorf(ctx, f, a...)
	case "LE":
		fr = chain(); eztrc.LazyErrorf(ctx, f, a...)
	}
	return
}

//go:noinline
func callEzGet(ctx context.Context, k, f string, a []any) (fr []Fr) {
	switch k {
	case "T":
		fr = chain(); eztrc.Get(ctx).Tracef(f, a...)
	case "LT":
		fr = chain(); eztrc.Get(ctx).LazyTracef(f, a...)
	case "E":
		fr = chain(); eztrc.Get(ctx).Errorf(f, a...)
	case "LE":
		fr = chain(); eztrc.Get(ctx).LazyErrorf(f, a...)
	}
	return
}

//go:noinline
func nestA(n int, f func() []Fr) []Fr {
	if n <= 0 {
		return f()
	}
	return nestB(n-1, f)
}

//go:noinline
func nestB(n int, f func() []Fr) []Fr {
	if n <= 0 {
		return f()
	}
	if n%3 == 2 { // directly recursive
		return nestB(n-1, f)
	}
	return nestA(n-1, f)
}

//go:noinline
func callRegion(ctx context.Context, name string, ez bool) (_ context.Context, _ trc.Trace, _ func(), fr []Fr) {
	if ez {
		fr = chain(); ctx, tr, fin := eztrc.Region(ctx, name)
		return ctx, tr, fin, fr
	}
	fr = chain(); ctx, tr, fin := trc.Region(ctx, name)
	return ctx, tr, fin, fr
}

//go:noinline
func callRegionEnd(fin func()) (fr []Fr) {
	fr = chain(); fin()
	return fr
}

//go:noinline
func callFuncOne(tr trc.Trace, k, f string, a []any) []Fr { return callDirect(tr, k, f, a) }

//go:noinline
func callFuncTwo(tr trc.Trace, k, f string, a []any) []Fr { return callDirect(tr, k, f, a) }
