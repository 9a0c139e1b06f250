package code

import (
	"io"
	"log"
	"os"
	"testing"
)

func TestMain(m *testing.M) {
	if os.Getenv("VERIF_DEBUG") == "" {
		log.SetOutput(io.Discard)
	}
	os.Exit(m.Run())
}
