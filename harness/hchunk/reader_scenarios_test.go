package hchunk

import (
	"fmt"
	"math/rand"

	"verif/harness/hx"
)

func baseProfile(r *rand.Rand) profile {
	pr := profile{
		csids: pickCsids(r, 2+r.Intn(5)), steps: 6 + r.Intn(30),
		size:  hx.Pick(r, 128, 128, 1, 2, 3, 4, 7, 16, 127, 129, 4096),
		sizes: []int{1, 2, 3, 4, 5, 8, 60, 127, 128, 129, 200, 4096, 65535, 65536, 0xffffff, 0x7fffffff},
		types: typePool, pComp: .5, pExt: .1, pCtl: .04, pBad: .01, pAbort: .03, pCont: .55,
		lens: []int{0, 1, 2, 3, 4, 5, -1, -1, -1, 127, 128, 129, 255, 256, 257}, maxLen: 600, maxOpen: 8, maxWire: 2500,
	}
	if r.Intn(4) == 0 {
		pr.csids = congruent(r)
	}
	if r.Intn(5) == 0 {
		pr.pCont = .9 // long runs of one message
	}
	if pr.size < 8 {
		pr.maxLen, pr.maxWire = 60, 1200
	}
	return pr
}

func (x *readerRun) fragment(r *rand.Rand, p *peer) {
	n := len(x.wire)
	switch r.Intn(5) {
	case 0:
		x.feeds = whole(n)
	case 1:
		x.feeds = randomCuts(r, n, 40)
	case 2:
		if n < 400 {
			x.feeds = bytewise(n)
		} else {
			x.feeds = randomCuts(r, n, 200)
		}
	default:
		x.feeds = atCuts(n, p.cuts)
	}
}

// finish ends the input of a history somehow.
func (x *readerRun) ending(r *rand.Rand) {
	switch r.Intn(4) {
	case 0:
		x.feeds = append(x.feeds, feed{end: "eof"})
	case 1:
		x.feeds[len(x.feeds)-1].end = "eof"
		x.feeds[len(x.feeds)-1].with = true
	case 2:
		x.feeds = append(x.feeds, feed{end: "fail"})
	}
}

func toBytes(a []int) []byte {
	b := make([]byte, len(a))
	for i, x := range a {
		b[i] = byte(x)
	}
	return b
}

type genInput struct {
	W    []int `json:"W"`
	Size int   `json:"size"`
}

func readerScenarios() []hx.Scenario {
	var ss []hx.Scenario
	add := func(id string, f func(r *rand.Rand) readerRun) {
		ss = append(ss, hx.Scenario{ID: id, Run: func(rec *hx.Rec) { f(rec.Rng).play(rec) }})
	}
	random := func(name string, n int, tweak func(r *rand.Rand, pr *profile), after func(r *rand.Rand, x *readerRun)) {
		for i := 0; i < n; i++ {
			add(fmt.Sprintf("%s-%d", name, i), func(r *rand.Rand) readerRun {
				pr := baseProfile(r)
				tweak(r, &pr)
				p := newPeer(r, pr.size)
				p.run(pr)
				x := readerRun{size: pr.size, wire: p.wire, byteSrc: r.Intn(3) == 0}
				x.fragment(r, p)
				x.ending(r)
				if after != nil {
					after(r, &x)
				}
				return x
			})
		}
	}
	// Behaviours of the specification, replayed.
	for i, g := range hx.Inputs[genInput]() {
		add(fmt.Sprintf("spec-%d", i), func(r *rand.Rand) readerRun {
			x := readerRun{size: g.Size, wire: toBytes(g.W), sizes: true}
			switch i % 3 {
			case 0:
				x.feeds = whole(len(x.wire))
			case 1:
				x.feeds = bytewise(len(x.wire))
			default:
				x.feeds = randomCuts(r, len(x.wire), 4)
			}
			if hx.Prop == "C23" {
				x.scribble = 1 + i%2
			}
			return x
		})
	}
	none := func(*rand.Rand, *profile) {}
	// Several connections at once: what one of them receives has nothing to do
	// with the others.
	for i := 0; i < hx.N(25, 250); i++ {
		ss = append(ss, hx.Scenario{ID: fmt.Sprintf("twins-%d", i), Run: func(rec *hx.Rec) {
			r := rec.Rng
			var xs []readerRun
			same := pickCsids(r, 3)
			for k := 2 + r.Intn(3); k > 0; k-- {
				pr := baseProfile(r)
				pr.steps, pr.maxLen, pr.maxWire = 12, 200, 800
				if r.Intn(2) == 0 {
					pr.csids = same
				}
				if hx.Prop == "C02" {
					pr.pComp, pr.pExt = .8, .3
				}
				p := newPeer(r, pr.size)
				p.run(pr)
				x := readerRun{size: pr.size, wire: p.wire, byteSrc: r.Intn(3) == 0, sizes: hx.Prop == "C03"}
				x.fragment(r, p)
				if r.Intn(2) == 0 {
					x.feeds = randomCuts(r, len(x.wire), hx.Pick(r, 3, 12, 60))
				}
				x.ending(r)
				if hx.Prop == "C23" {
					x.scribble = r.Intn(3)
				}
				xs = append(xs, x)
			}
			playTwins(rec, xs)
		}})
	}
	switch hx.Prop {
	case "C01":
		random("mix", hx.N(150, 1500), none, nil)
		random("deep", hx.N(20, 200), func(r *rand.Rand, pr *profile) { // many messages under way
			pr.csids = pickCsids(r, 12+r.Intn(20))
			pr.maxOpen, pr.pCont, pr.steps, pr.maxWire = 40, .3, 160, 6000
		}, nil)
		random("long", hx.N(4, 20), func(r *rand.Rand, pr *profile) { // long histories
			pr.csids = pickCsids(r, 3+r.Intn(6))
			pr.size, pr.maxLen, pr.steps, pr.maxWire = 16, 60, 1500, 40000
		}, nil)
		random("marathon", 1, func(r *rand.Rand, pr *profile) { // thousands of messages
			pr.csids = pickCsids(r, 3+r.Intn(6))
			pr.size, pr.maxLen, pr.steps, pr.maxWire = 16, 8, hx.N(9000, 100000), 5000000
			pr.lens, pr.pCtl, pr.pBad, pr.pCont = []int{0, 1, 4, 17}, .01, .002, .3
		}, func(r *rand.Rand, x *readerRun) { x.feeds = randomCuts(r, len(x.wire), 400) })
		random("wide", hx.N(2, 6), func(r *rand.Rand, pr *profile) { // hundreds of chunk streams
			pr.csids = pickCsids(r, 400)
			pr.maxOpen, pr.pCont, pr.steps, pr.maxWire = 400, .2, 1200, 60000
			pr.size, pr.maxLen = 20, 60
		}, nil)
		for i := 0; i < hx.N(1, 4); i++ { // more than a thousand messages under way at once
			ss = append(ss, hx.Scenario{ID: fmt.Sprintf("crowd-%d", i), Run: func(rec *hx.Rec) {
				r := rec.Rng
				p := newPeer(r, 12)
				cs := pickCsids(r, hx.N(1200, 4500))
				for _, c := range cs {
					p.start(c, hdr{ts: uint32(r.Intn(ffffff)), typ: 8, msid: r.Uint32()}, p.payload(13+r.Intn(12)))
				}
				r.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
				for _, c := range cs {
					p.cont(c)
				}
				x := readerRun{size: 12, wire: p.wire, feeds: randomCuts(r, len(p.wire), 100)}
				x.play(rec)
			}})
		}
		random("big", hx.N(3, 20), func(r *rand.Rand, pr *profile) { // messages beyond 64 KiB
			pr.csids = pickCsids(r, 2)
			pr.size = hx.Pick(r, 4096, 65536, 70000, 10000)
			pr.maxLen, pr.steps, pr.maxWire = 70000, 8, 140000
			pr.lens = []int{65535, 65536, 65537, 69999, -1}
		}, nil)
	case "C02":
		random("comp", hx.N(220, 2500), func(r *rand.Rand, pr *profile) {
			pr.pComp, pr.pExt, pr.pCont = .85, hx.Pick(r, .05, .3, .6), .4
			pr.pCtl, pr.pBad, pr.pAbort = .02, .005, .03
			pr.lens = []int{0, 1, 2, 3, 5, -1}
			pr.maxLen = 200
		}, nil)
		random("long", hx.N(4, 20), func(r *rand.Rand, pr *profile) {
			pr.pComp, pr.pExt = .9, .3
			pr.size, pr.maxLen, pr.steps, pr.maxWire = 16, 40, 1200, 30000
		}, nil)
		random("wide", hx.N(1, 6), func(r *rand.Rand, pr *profile) {
			pr.csids = pickCsids(r, 300)
			pr.pComp, pr.pExt = .8, .2
			pr.maxOpen, pr.pCont, pr.steps, pr.maxWire = 300, .2, 1200, 60000
			pr.size, pr.maxLen = 20, 40
		}, nil)
		ss = append(ss, normScenarios()...)
	case "C03":
		random("ctl", hx.N(220, 2500), func(r *rand.Rand, pr *profile) {
			pr.pCtl, pr.pBad, pr.pAbort, pr.pCont = .2, .06, .2, .5
			pr.maxLen = 300
		}, func(r *rand.Rand, x *readerRun) { x.sizes = true })
		random("abort", hx.N(60, 600), func(r *rand.Rand, pr *profile) {
			pr.csids = pickCsids(r, 6)
			pr.pCtl, pr.pBad, pr.pAbort, pr.pCont = .05, .02, .4, .25
			pr.size = hx.Pick(r, 1, 2, 3, 16)
			pr.maxLen, pr.maxOpen = 60, 6
		}, func(r *rand.Rand, x *readerRun) { x.sizes = true })
	case "C04":
		random("frag", hx.N(90, 900), none, func(r *rand.Rand, x *readerRun) { x.zero = r.Intn(4) == 0 })
		ss = append(ss, cutScenarios(hx.N(3, 12))...)
	case "C23":
		random("own", hx.N(160, 1600), func(r *rand.Rand, pr *profile) {
			pr.pComp, pr.pExt = .75, .2
		}, func(r *rand.Rand, x *readerRun) { x.scribble = hx.Pick(r, 1, 2, 3) })
		random("keep", hx.N(60, 600), func(r *rand.Rand, pr *profile) {
			pr.pComp, pr.pExt, pr.steps, pr.maxWire = .75, .2, 120, 5000
		}, nil)
	}
	return ss
}

// smallWire is a short history that has a bit of everything.
func smallWire(r *rand.Rand) (*peer, int) {
	for {
		pr := baseProfile(r)
		pr.size = hx.Pick(r, 2, 3, 4, 8)
		pr.csids = []uint32{2 + uint32(r.Intn(20)), 64 + uint32(r.Intn(256)), 320 + uint32(r.Intn(60000))}
		pr.steps, pr.maxLen, pr.pExt, pr.maxWire = 10, 12, .3, 150
		pr.lens = []int{0, 1, 3, 5, -1}
		p := newPeer(r, pr.size)
		p.run(pr)
		if len(p.open) == 0 && len(p.wire) > 80 && len(p.wire) < 220 {
			return p, pr.size
		}
	}
}

// cutScenarios cut and truncate short histories at every position.
func cutScenarios(n int) []hx.Scenario {
	var ss []hx.Scenario
	for i := 0; i < n; i++ {
		p, size := smallWire(rand.New(rand.NewSource(hx.Seed*1000 + int64(i))))
		N := len(p.wire)
		play := func(id string, x readerRun) {
			x.size, x.wire = size, p.wire
			ss = append(ss, hx.Scenario{ID: id, Run: func(r *hx.Rec) { x.play(r) }})
		}
		for c := 1; c < N; c++ {
			play(fmt.Sprintf("cut-%d-%d", i, c), readerRun{feeds: []feed{{n: c}, {n: N - c}}, byteSrc: c%2 == 0, zero: c%3 == 0})
		}
		for c := 0; c <= N; c++ {
			how := []string{"eof", "fail"}[c%2]
			play(fmt.Sprintf("trunc-%d-%d", i, c), readerRun{feeds: []feed{{n: c, end: how}}, byteSrc: c%3 == 0})
			play(fmt.Sprintf("truncwith-%d-%d", i, c), readerRun{feeds: []feed{{n: c, end: "eof", with: c > 0}}, byteSrc: c%3 == 1})
		}
		// A transport that fails once between two messages, where no message
		// is under way.
		for k, c := range p.quietCuts() {
			play(fmt.Sprintf("once-%d-%d", i, k), readerRun{feeds: []feed{{n: c}, {end: "once"}, {n: N - c}}})
		}
		play(fmt.Sprintf("bytes-%d", i), readerRun{feeds: bytewise(N)})
		play(fmt.Sprintf("bytesz-%d", i), readerRun{feeds: bytewise(N), zero: true})
	}
	return ss
}
