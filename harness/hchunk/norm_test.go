package hchunk

import "verif/harness/hx"

func normScenarios() []hx.Scenario { return nil }
