package harness

import "testing"

func TestCheck(t *testing.T) { RunChild(t) }
