// Package zvcli is the command line tool as a package.
package zvcli

import (
	"context"
	"io"
	"runtime"
)

var (
	ZvArgs   []string
	ZvStdin  io.Reader
	ZvStdout io.Writer
	ZvStderr io.Writer
	ZvCtx    context.Context
	zvCode   int
)

func ZvBackground() context.Context { return ZvCtx }

func ZvExit(code int) {
	zvCode = code
	runtime.Goexit()
}

// ZvRun runs the tool; done is called with its exit code.
func ZvRun(ctx context.Context, args []string, stdin io.Reader, stdout, stderr io.Writer, done func(code int)) {
	ZvCtx, ZvArgs, ZvStdin, ZvStdout, ZvStderr, zvCode = ctx, append([]string{"trc"}, args...), stdin, stdout, stderr, 0
	go func() {
		defer func() { done(zvCode) }()
		ZvMain()
	}()
}
