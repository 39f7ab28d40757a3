package hctl

import (
	"testing"

	"verif/harness/hx"
)

func TestRun(t *testing.T) {
	switch hx.Prop {
	case "C15":
		hx.Main(t, codecScenarios(), false)
	case "C16":
		hx.Main(t, streamScenarios(false), true)
	case "C17":
		hx.Main(t, streamScenarios(true), true)
	}
}
