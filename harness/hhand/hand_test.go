// Package hhand is the conformance harness of the handshake package.
package hhand

import (
	"fmt"
	"io"
	"math/rand"
	"sync"
	"testing"

	"github.com/WatchBeam/rtmp/handshake"
	"verif/harness/hx"
)

const (
	pay    = 1528
	packet = 8 + pay
	total  = 1 + 2*packet
)

func TestRun(t *testing.T) { hx.Main(t, scenarios(), true) }

// conn is the server's end of a connection; it records what happens in order.
type conn struct {
	r     *hx.Rec
	src   *hx.Src
	ended error
	with  bool
	mu    sync.Mutex
	out   []byte
	wfail int  // a write fails once this many bytes were written, if not negative
	wonce bool // the next one does not
	run   int  // bytes read in the run of reads that is not recorded yet
	rot   bool // each Read returns at most a few bytes
}

func (c *conn) flush() {
	if c.run > 0 {
		c.r.Ev("read", "n", c.run)
		c.run = 0
	}
}

func (c *conn) Read(p []byte) (int, error) {
	if c.rot && len(p) > 1 {
		p = p[:1+c.r.Rng.Intn(min(len(p), 700))]
	}
	n, err := c.src.Read(p)
	c.mu.Lock()
	defer c.mu.Unlock()
	switch {
	case err != nil && n > 0:
		c.flush()
		c.r.Ev("readwith", "n", n)
	case err != nil:
		c.flush()
		c.r.Ev("readfail")
	default:
		c.run += n
	}
	return n, err
}

func (c *conn) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.flush()
	n := len(p)
	var err error
	if c.wfail >= 0 && len(c.out)+n > c.wfail {
		n, err = max(0, c.wfail-len(c.out)), hx.FailN(c.wfail)
		if c.wonce {
			err, c.wfail = hx.OnceN(c.wfail), -1
		}
	}
	c.out = append(c.out, p[:n]...)
	if n > 0 {
		c.r.Ev("write", "n", n)
	}
	if err != nil {
		c.r.Ev("writefail")
	}
	return n, err
}

// script is what a client does.
type script struct {
	ver    byte
	cuts   []int  // fragments; what is missing is not sent
	ended  string // "", "eof", "fail", "once" (the transport recovers): after the fragments
	with   bool   // together with the last one
	wfail  int    // see conn
	wonce  bool   // see conn
	rot    bool   // see conn
	zero   bool   // empty reads in between
	answer func(s1, c1 []byte, prev [][]byte) []byte
	extra  int // bytes after the handshake
	settle float64
}

var (
	// seen are the challenges sent so far, in this process.
	seen = map[string]int{}
	prev [][]byte
)

// client is one connection under way.
type client struct {
	r      *hx.Rec
	s      script
	c      *conn
	h      *handshake.Handshaker
	bytes  []byte // what the client sends; C2's challenge as soon as it is determined
	known  bool
	pos    int
	step   int
	done   bool
	result error
	usual  bool // what most handshakes come to
	over   bool
}

func newClient(r *hx.Rec, s script) *client {
	c := &client{r: r, s: s, c: &conn{r: r, src: hx.NewSrc(), wfail: s.wfail, wonce: s.wonce, rot: s.rot}}
	c.bytes = make([]byte, total+s.extra)
	r.Rng.Read(c.bytes)
	c.bytes[0] = s.ver
	r.Set("ver", int(s.ver))
	r.Set("time", hx.Ints(c.bytes[1:5]))
	c.h = handshake.With(&handshake.Param{Conn: c.c})
	return c
}

func (c *client) start() {
	go func() {
		err := c.h.Handshake()
		c.c.mu.Lock()
		defer c.c.mu.Unlock()
		c.c.flush()
		if err == nil {
			c.r.Ev("ok")
		} else {
			c.r.Ev("err")
		}
		c.done, c.result = true, err
	}()
}

func (c *client) s1() []byte {
	c.c.mu.Lock()
	defer c.c.mu.Unlock()
	if len(c.c.out) < 1+packet {
		return nil
	}
	return append([]byte{}, c.c.out[9:1+packet]...)
}

// next sends the next fragment; it says whether there was one.
func (c *client) next() bool {
	if c.over {
		return false
	}
	if c.step < len(c.s.cuts) {
		n := min(c.s.cuts[c.step], len(c.bytes)-c.pos)
		c.step++
		if s1 := c.s1(); !c.known && s1 != nil && c.pos+n > 1+packet+8 {
			a := s1
			if c.s.answer != nil {
				a = c.s.answer(s1, c.bytes[9:1+packet], prev)
			}
			from := max(0, c.pos-(1+packet+8)) // the rest has been sent already
			if from < pay {
				copy(c.bytes[1+packet+8+from:total], a[from:])
			}
			c.known = true
		}
		b := c.bytes[c.pos : c.pos+n]
		c.pos += n
		last := c.step == len(c.s.cuts)
		if n > 0 {
			c.r.Ev("send", "n", n)
		}
		if c.s.zero {
			c.c.src.Feed(nil)
		}
		if last && c.s.ended != "" && c.s.ended != "once" && c.s.with && n > 0 {
			c.end(b)
		} else if n > 0 {
			c.c.src.Feed(b)
		}
		return true
	}
	if c.s.ended != "" {
		c.end(nil)
		return true
	}
	return false
}

func (c *client) end(b []byte) {
	c.over = true
	c.r.Ev("end")
	err, once := io.EOF, false
	switch c.s.ended {
	case "fail":
		err = hx.FailN(c.pos)
	case "once":
		err, once = hx.OnceN(c.pos), true
	}
	c.c.src.FeedEnd(b, err, once, c.s.with && !once)
}

func (c *client) quiet() {
	c.c.mu.Lock()
	c.c.flush()
	c.c.mu.Unlock()
	c.r.Ev("quiet")
}

// finish records the outcome.
func (c *client) finish() {
	c.c.mu.Lock()
	c.c.flush()
	out := append([]byte{}, c.c.out...)
	c.c.mu.Unlock()
	c.r.Ev("quiet")
	var ver int
	time, diff, again := []int{}, []int{}, 0
	if len(out) >= 1 {
		ver = int(out[0])
	}
	if len(out) >= 1+packet {
		again = seen[string(out[9:1+packet])]
		seen[string(out[9:1+packet])]++
		if prev = append(prev, append([]byte{}, out[9:1+packet]...)); len(prev) > 8 {
			prev = prev[1:]
		}
	}
	if len(out) >= 1+packet+4 {
		time = hx.Ints(out[1+packet : 1+packet+4])
	}
	for i := 1 + packet + 8; i < len(out) && i < total && len(diff) < 5; i++ {
		if out[i] != c.bytes[i-packet] {
			diff = append(diff, i-packet-8)
		}
	}
	c.usual = c.done && c.result == nil && again == 0 && ver == 3 && len(diff) == 0 && len(out) == total && c.c.src.Taken() == total
	c.r.Ev("sent", "ver", ver, "time", time, "diff", diff, "again", again,
		"rd", c.c.src.Taken(), "wr", len(out))
	c.r.Ev("done")
	d := []int{}
	if s1 := c.s1(); s1 != nil {
		for i := range s1 {
			if s1[i] != c.bytes[1+packet+8+i] {
				d = append(d, i+1)
			}
		}
		if len(d) > 6 {
			d = append(d[:5:5], d[len(d)-1])
		}
	} else if len(out) > 0 { // it was never known
		d = []int{1}
	}
	c.r.Set("diff", d)
}

func (c *client) cleanup() {
	c.c.src.FeedEnd(nil, io.EOF, false, false)
	hx.Wait()
}

func play(r *hx.Rec, s script) *client {
	c := newClient(r, s)
	c.start()
	for c.next() {
		if r.Rng.Float64() < s.settle || c.pos <= 1+packet && c.pos+at(s.cuts, c.step) > 1+packet {
			hx.Wait()
			if r.Rng.Float64() < .5 || len(s.cuts) < 20 {
				c.quiet()
			}
		}
	}
	hx.Wait()
	c.finish()
	// More than the handshake's bytes: nobody may take them.
	if !c.over && c.done {
		n := c.c.src.Reads()
		c.c.src.Feed([]byte{1, 2, 3})
		hx.Wait()
		if c.c.src.Reads() != n {
			r.Ev("read", "n", 3)
			c.usual = false
		}
	}
	c.c.mu.Lock()
	c.c.r = &hx.Rec{} // not part of the scenario any more
	c.c.mu.Unlock()
	c.r = c.c.r
	c.cleanup()
	return c
}

func at(c []int, i int) int {
	if i < len(c) {
		return c[i]
	}
	return 0
}

// playSeveral runs connections side by side.
func playSeveral(r *hx.Rec, ss []script, early bool) {
	var cs []*client
	for i, s := range ss {
		c := newClient(r.Sub(fmt.Sprint(i)), s)
		cs = append(cs, c)
		if !early {
			c.start()
		}
	}
	if early {
		for _, c := range cs {
			c.start()
		}
	}
	live := append([]*client{}, cs...)
	for len(live) > 0 {
		i := r.Rng.Intn(len(live))
		c := live[i]
		for k := r.Rng.Intn(4); k >= 0; k-- {
			if !c.next() {
				live = append(live[:i], live[i+1:]...)
				break
			}
			if c.pos <= 1+packet || r.Rng.Intn(2) == 0 {
				hx.Wait()
				c.quiet()
			}
		}
	}
	hx.Wait()
	for _, c := range cs {
		c.finish()
	}
	for _, c := range cs {
		c.r, c.c.r = &hx.Rec{}, &hx.Rec{}
		c.cleanup()
	}
}

// playCrowd runs many connections, all of which get as far as the server's
// challenge before the first of them answers. Some answer with what another
// one was asked.
func playCrowd(r *hx.Rec, n int) {
	var cs []*client
	ask := func(from int) []byte {
		if s1 := cs[from].s1(); s1 != nil {
			return s1
		}
		return make([]byte, pay)
	}
	for i := 0; i < n; i++ {
		s := script{ver: 3, wfail: -1, cuts: natural(), settle: 1}
		if r.Rng.Intn(4) == 0 {
			other := r.Rng.Intn(n)
			s.answer = func(_, _ []byte, _ [][]byte) []byte { return ask(other) }
		}
		c := newClient(r.Sub(fmt.Sprint(i)), s)
		cs = append(cs, c)
		c.start()
		if r.Rng.Intn(2) == 0 {
			hx.Wait()
		}
	}
	for _, i := range r.Rng.Perm(n) {
		cs[i].next()
		cs[i].next()
		hx.Wait()
		cs[i].quiet()
	}
	for _, i := range r.Rng.Perm(n) {
		cs[i].next()
		hx.Wait()
		cs[i].quiet()
	}
	for _, c := range cs {
		c.finish()
	}
	for _, c := range cs {
		c.c.mu.Lock()
		c.r, c.c.r = &hx.Rec{}, &hx.Rec{}
		c.c.mu.Unlock()
		c.cleanup()
	}
}

func randomCuts(r *rand.Rand, n, most int) []int {
	var cs []int
	for n > 0 {
		k := 1 + r.Intn(most)
		if r.Intn(4) == 0 {
			k = 1 + r.Intn(4)
		}
		k = min(k, n)
		cs = append(cs, k)
		n -= k
	}
	return cs
}

// natural is how a client that waits sends its bytes.
func natural() []int { return []int{1, packet, packet} }

// upTo cuts a script off after n bytes.
func upTo(cuts []int, n int) []int {
	var cs []int
	for _, c := range cuts {
		if n <= 0 {
			break
		}
		cs = append(cs, min(c, n))
		n -= c
	}
	return cs
}

// generated is a script at reduced lengths.
type generated struct {
	Ver   int   `json:"ver"`
	Cuts  []int `json:"cuts"`
	Diff  []int `json:"diff"`
	Wfail int   `json:"wfail"`
	Ended bool  `json:"ended"`
}

// real maps an offset at reduced lengths (times of two, challenges of three).
func real(n int) int {
	if n <= 0 {
		return n
	}
	p, k := (n-1)/5, (n-1)%5
	return 1 + p*packet + []int{0, 1, 8, 9, packet - 1}[k]
}

func (g generated) script(r *rand.Rand) script {
	s := script{ver: byte(g.Ver), wfail: real(g.Wfail), settle: 1, rot: r.Intn(3) == 0}
	if g.Ver != 3 {
		for s.ver == 3 || r.Intn(2) == 0 {
			s.ver = byte(r.Intn(256))
		}
	}
	pos := 0
	for _, n := range g.Cuts {
		s.cuts = append(s.cuts, real(pos+n)-real(pos))
		pos += n
	}
	if g.Ended {
		s.ended, s.with = hx.Pick(r, "eof", "fail", "once"), r.Intn(3) == 0
	}
	s.answer = func(s1, _ []byte, _ [][]byte) []byte {
		for _, d := range g.Diff {
			i := []int{0, 1 + r.Intn(pay-2), pay - 1}[d-1]
			s1[i] ^= byte(1 + r.Intn(255))
		}
		return s1
	}
	return s
}

func flip(i int, x byte) func(s1, _ []byte, _ [][]byte) []byte {
	return func(s1, _ []byte, _ [][]byte) []byte { s1[i] ^= x; return s1 }
}

// wrong answers that have something to do with the right one
func related(r *rand.Rand) func(s1, c1 []byte, prev [][]byte) []byte {
	k := r.Intn(14)
	return func(s1, c1 []byte, prev [][]byte) []byte {
		i, j := r.Intn(pay), r.Intn(pay)
		switch k {
		case 0:
			s1[i], s1[j] = s1[j], s1[i]
		case 1:
			return append(s1[1:len(s1):len(s1)], s1[0])
		case 2:
			for a, b := 0, pay-1; a < b; a, b = a+1, b-1 {
				s1[a], s1[b] = s1[b], s1[a]
			}
		case 3:
			for a := range s1 {
				s1[a] = ^s1[a]
			}
		case 4:
			return make([]byte, pay)
		case 5:
			return append([]byte{}, c1...)
		case 6:
			if len(prev) > 0 {
				return append([]byte{}, prev[r.Intn(len(prev))]...)
			}
			s1[0]++
		case 7:
			s1[i]++
			s1[j]--
		case 8:
			clear(s1[i:])
		case 9:
			clear(s1[:i])
		case 10:
			s1[i] ^= 1
			s1[j] ^= 1
		case 11:
			copy(s1, s1[8:])
		case 12:
			copy(s1[8:], append([]byte{}, s1...))
		case 13:
			s1[pay-1] ^= 128
		}
		return s1
	}
}

func randomScript(r *rand.Rand) script {
	s := script{ver: 3, wfail: -1, settle: hx.Pick(r, 0, .1, 1), rot: r.Intn(3) == 0, zero: r.Intn(6) == 0}
	s.cuts = natural()
	if r.Intn(2) == 0 {
		s.cuts = randomCuts(r, total, hx.Pick(r, 40, 400, 3000))
	}
	if r.Intn(8) == 0 {
		s.extra = 1 + r.Intn(50)
		s.cuts[len(s.cuts)-1] += s.extra
	}
	if r.Intn(3) == 0 {
		s.cuts = upTo(s.cuts, hx.Pick(r, 0, 1, 2, 5, 9, packet-1, packet, packet+1, packet+2, packet+9, total-1, r.Intn(total)))
		s.ended, s.with = hx.Pick(r, "eof", "eof", "fail", "once"), r.Intn(3) == 0
	}
	switch r.Intn(4) {
	case 0:
		s.answer = flip(r.Intn(pay), 1<<r.Intn(8))
	case 1:
		s.answer = related(r)
	}
	if r.Intn(6) == 0 {
		s.wfail = hx.Pick(r, 0, 1, 2, 5, 9, packet, packet+1, packet+5, packet+9, total-1, r.Intn(total))
		s.wonce = r.Intn(3) == 0
	}
	if r.Intn(12) == 0 {
		s.ver = byte(r.Intn(256))
	}
	return s
}

func scenarios() []hx.Scenario {
	var ss []hx.Scenario
	add := func(id string, f func(r *hx.Rec)) { ss = append(ss, hx.Scenario{ID: id, Run: f}) }
	for i, g := range hx.Inputs[generated]() {
		add(fmt.Sprintf("spec-%d", i), func(r *hx.Rec) { play(r, g.script(r.Rng)) })
	}
	base := func() script { return script{ver: 3, wfail: -1, cuts: natural(), settle: 1} }
	for v := 0; v < 256; v++ {
		add(fmt.Sprintf("version-%d", v), func(r *hx.Rec) {
			s := base()
			s.ver = byte(v)
			play(r, s)
		})
	}
	if hx.Prop == "C13" {
		for i := 0; i < pay; i++ {
			add(fmt.Sprintf("byte-%d", i), func(r *hx.Rec) {
				s := base()
				s.answer = flip(i, hx.Pick(r.Rng, byte(1)<<r.Rng.Intn(8), byte(1+r.Rng.Intn(255))))
				play(r, s)
			})
		}
		for i := 0; i < hx.N(60, 600); i++ {
			add(fmt.Sprintf("related-%d", i), func(r *hx.Rec) {
				s := base()
				s.answer = related(r.Rng)
				play(r, s)
			})
		}
	}
	// The end of the input at every offset, or a sample of them.
	for n := 0; n < total; n++ {
		m := n % packet
		if !hx.Thorough() && n > 20 && m > 3 && m < packet-3 && n%61 != int(hx.Seed%61) {
			continue
		}
		for _, how := range []string{"eof", "fail", "once"} {
			add(fmt.Sprintf("cut-%s-%d", how, n), func(r *hx.Rec) {
				s := base()
				s.cuts, s.ended, s.with = upTo(s.cuts, n), how, r.Rng.Intn(3) == 0
				play(r, s)
			})
		}
	}
	for n := 0; n <= total; n++ {
		m := n % packet
		if !hx.Thorough() && n > 20 && m > 3 && m < packet-3 && n%61 != int(hx.Seed%61) {
			continue
		}
		add(fmt.Sprintf("wfail-%d", n), func(r *hx.Rec) {
			s := base()
			s.wfail, s.wonce = n, r.Rng.Intn(2) == 0
			play(r, s)
		})
	}
	for i := 0; i < hx.N(3, 30); i++ {
		add(fmt.Sprintf("bytes-%d", i), func(r *hx.Rec) {
			s := base()
			s.settle = .02
			s.cuts = randomCuts(r.Rng, total, 1)
			for j := range s.cuts {
				s.cuts[j] = 1
			}
			for n := 0; n < total; n++ {
				if n >= len(s.cuts) {
					s.cuts = append(s.cuts, 1)
				}
			}
			play(r, s)
		})
	}
	for i := 0; i < hx.N(600, 8000); i++ {
		add(fmt.Sprintf("random-%d", i), func(r *hx.Rec) { play(r, randomScript(r.Rng)) })
	}
	for i := 0; i < hx.N(120, 1500); i++ {
		add(fmt.Sprintf("several-%d", i), func(r *hx.Rec) {
			var xs []script
			for k := 2 + r.Rng.Intn(3); k > 0; k-- {
				s := randomScript(r.Rng)
				s.settle = 1
				xs = append(xs, s)
			}
			playSeveral(r, xs, r.Rng.Intn(2) == 0)
		})
	}
	// A long history of the process. Of the handshakes that went the same way
	// only a sample is recorded.
	add("marathon", func(r *hx.Rec) {
		for i := 0; i < hx.N(6000, 70000); i++ {
			sub := r.Sub(fmt.Sprint(i))
			c := play(sub, base())
			if i%400 != 0 && c.usual {
				r.Drop(sub)
			}
		}
	})
	for _, n := range []int{5, 9, 17, 40, hx.N(200, 700)} {
		add(fmt.Sprintf("crowd-%d", n), func(r *hx.Rec) { playCrowd(r, n) })
	}
	return ss
}
