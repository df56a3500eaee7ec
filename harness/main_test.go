package vh

import (
	"os"
	"testing"
)

func TestVH(t *testing.T) {
	if os.Getenv("VH_MODE") == "" {
		t.Skip("driver")
	}
	Main(t)
}
