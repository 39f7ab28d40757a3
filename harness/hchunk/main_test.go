package hchunk

import (
	"testing"

	"verif/harness/hx"
)

func TestRun(t *testing.T) {
	switch hx.Prop {
	case "C01", "C02", "C03", "C04", "C23":
		hx.Main(t, readerScenarios(), true)
	case "C01big":
		hx.Main(t, bigReaderScenarios(), true)
	case "C23big":
		hx.Main(t, mixedScenarios(), true)
	case "C06big":
		hx.Main(t, bigWriterScenarios(), true)
	case "C05":
		hx.Main(t, hostileScenarios(), true)
	case "C08":
		hx.Main(t, codecScenarios(), true)
	case "C09", "C10", "C12":
		hx.Main(t, demuxScenarios(), true)
	case "C10conc":
		hx.Main(t, registryScenarios(), false)
	case "C11":
		hx.Main(t, fanInScenarios(), true)
	case "C06":
		hx.Main(t, writerScenarios(), true)
	case "C07":
		hx.Main(t, concurrentScenarios(), false) // writers may hold locks while they write
	case "C07big":
		hx.Main(t, bigConcurrentScenarios(), false)
	case "C07race":
		hx.Main(t, raceScenarios(), false)
	}
}
