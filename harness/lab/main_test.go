package lab

import (
	"os"
	"testing"
)

func TestMain(m *testing.M) {
	rc := m.Run()
	cleanup()
	os.Exit(rc)
}
