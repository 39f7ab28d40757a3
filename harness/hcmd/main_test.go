// Package hcmd drives the endpoints of cmd: net connections, net streams and
// data streams.
package hcmd

import (
	"testing"

	"verif/harness/hdx"
	"verif/harness/hx"
)

func TestRun(t *testing.T) {
	switch hx.Prop {
	case "C19":
		var ss []hx.Scenario
		switch hx.Part {
		case "conn":
			ss = hdx.Scenarios(netConn(), true)
		case "streams":
			ss = append(hdx.Scenarios(netStream(), true), hdx.Scenarios(dataStream(), true)...)
		}
		hx.Main(t, ss, true)
	case "C22":
		hx.Main(t, packScenarios(hx.Part == "race"), false)
	}
}
