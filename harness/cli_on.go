//go:build cli

package vh

import (
	"os"
	"os/signal"
	"syscall"

	"github.com/peterbourgon/trc/cmd/trc/zvcli"
)

func init() {
	cliRun = zvcli.ZvRun
	signal.Notify(make(chan os.Signal, 1), syscall.SIGUSR2) // starts package signal's goroutine, outside of any bubble
}
