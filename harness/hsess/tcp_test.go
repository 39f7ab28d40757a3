package hsess

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"sync"
	"syscall"
	"time"

	"github.com/WatchBeam/rtmp"
	"github.com/WatchBeam/rtmp/client"
	"github.com/WatchBeam/rtmp/server"
	"verif/harness/hx"
)

// patience is long, until what was waited for has not come about a few times.
var (
	patience = 20 * time.Second
	failures = 0
)

// settled waits until a condition holds, but not for ever.
func settled(f func() bool) bool {
	for end := time.Now().Add(patience); !f(); time.Sleep(100 * time.Microsecond) {
		if time.Now().After(end) {
			if failures++; failures == 3 {
				patience = time.Second
			}
			return false
		}
	}
	return true
}

// dialer is one end of a connection, the other end of which is a client's.
type dialer struct {
	c    *net.TCPConn
	mu   sync.Mutex
	buf  []byte
	skip int
	sent int
	read func() bool // whether what was sent is being read, as far as one can tell
}

func (d *dialer) collect() {
	b := make([]byte, 4096)
	for {
		n, err := d.c.Read(b)
		d.mu.Lock()
		d.buf = append(d.buf, b[:n]...)
		d.mu.Unlock()
		if err != nil {
			return
		}
	}
}

func (d *dialer) all() []byte { d.mu.Lock(); defer d.mu.Unlock(); return d.buf }

// token is the number of the client that has introduced itself over this
// connection for the i-th time.
func (d *dialer) token(i int) (int, bool) {
	b := d.all()
	if len(b) < 4*i+4 {
		return 0, false
	}
	return int(binary.BigEndian.Uint32(b[4*i:])), true
}

func (d *dialer) send(b []byte) { d.sent += len(b); d.c.Write(b) }
func (d *dialer) end(err error) {
	if err == io.EOF {
		d.c.CloseWrite()
	} else {
		d.c.SetLinger(0)
		d.c.Close()
	}
}
func (d *dialer) got() []byte { return d.all()[d.skip:] }

// taken cannot be known; everything is as good a guess as any.
func (d *dialer) taken() int {
	if d.read() {
		return d.sent
	}
	return 0
}

// acceptor runs a server and keeps the books.
type acceptor struct {
	r       *hx.Rec
	s       *server.Server
	addr    string
	d       []*dialer
	clients chan *client.Client
	errs    chan error
	c       []*client.Client
	bound   []int // client -> dialer
	nerr    int
	want    int
	ears    int
	faulty  bool
	short   *shortage
	spare   bool // one can be dialed all the same
	closed  bool
	late    bool // something did not happen in time
}

func newAcceptor(r *hx.Rec) *acceptor {
	a := &acceptor{r: r, clients: make(chan *client.Client, 100), errs: make(chan error, 1000)}
	for i := 0; ; i++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		a.addr = l.Addr().String()
		l.Close()
		if i%2 == 0 {
			a.s, err = rtmp.NewServer(a.addr)
		} else {
			a.s, err = server.New(a.addr)
		}
		if err == nil {
			break
		}
		if i > 20 {
			panic(err)
		}
	}
	go a.s.Accept()
	return a
}

func (a *acceptor) dial() {
	c, err := net.DialTimeout("tcp", a.addr, patience)
	for i := 0; i < 9 && errors.Is(err, syscall.EMFILE) && a.short != nil; i++ {
		a.short.free(1)
		c, err = net.DialTimeout("tcp", a.addr, patience)
	}
	if err != nil {
		a.r.Ev("refused")
		return
	}
	a.r.Ev("dial")
	d := &dialer{c: c.(*net.TCPConn)}
	go d.collect()
	a.d = append(a.d, d)
}

func (a *acceptor) take(n int) {
	a.r.Ev("take", "n", n)
	a.want += n
	for ; n > 0; n-- {
		go func() {
			if c, ok := <-a.s.Clients(); ok {
				a.clients <- c
			}
		}()
	}
}

func (a *acceptor) listen(n int) {
	a.r.Ev("listen", "n", n)
	a.ears += n
	for ; n > 0; n-- {
		go func() {
			if err, ok := <-a.s.Errs(); ok {
				a.errs <- err
			}
		}()
	}
}

func (a *acceptor) close() {
	if a.closed {
		return
	}
	a.closed, a.faulty = true, true
	a.r.Ev("close")
	a.s.Close()
}

// shortage is a lack of file descriptors, so that accepting a connection fails.
type shortage struct {
	was syscall.Rlimit
	fs  []*os.File
}

func starve() *shortage {
	h := &shortage{}
	if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &h.was); err != nil {
		panic(err)
	}
	less := h.was
	less.Cur = 64
	if ds, err := os.ReadDir("/proc/self/fd"); err == nil {
		for _, d := range ds {
			if n, err := strconv.ParseUint(d.Name(), 10, 64); err == nil && n >= less.Cur {
				less.Cur = n + 16
			}
		}
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &less); err != nil {
		panic(err)
	}
	for {
		f, err := os.Open("/dev/null")
		if err != nil {
			return h
		}
		h.fs = append(h.fs, f)
	}
}

func (h *shortage) free(n int) {
	for ; n > 0 && len(h.fs) > 0; n-- {
		h.fs[0].Close()
		h.fs = h.fs[1:]
	}
}

func (h *shortage) end() {
	h.free(len(h.fs))
	if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &h.was); err != nil {
		panic(err)
	}
}

// toggle makes accepting connections fail, except that one can still be dialed,
// or possible again.
func (a *acceptor) toggle() {
	if a.short == nil {
		a.faulty = true
		a.short, a.spare = starve(), true
		a.short.free(1)
		a.r.Ev("short", "on", true)
	} else {
		a.short.end()
		a.short = nil
		a.r.Ev("short", "on", false)
	}
}

// rest waits until nothing more is to be expected, and records what happened.
func (a *acceptor) rest() {
	nerr := 0
	settled(func() bool {
		for {
			select {
			case c := <-a.clients:
				a.c = append(a.c, c)
				a.want--
				a.met(len(a.c))
			case <-a.errs:
				a.r.Ev("error")
				a.ears--
				nerr++
			default:
				if a.closed || a.want == 0 || len(a.c) >= len(a.d) {
					return true
				}
				if a.short != nil {
					return nerr > 0 || a.ears == 0
				}
				return a.faulty && a.ears == 0
			}
		}
	})
	a.r.Ev("rest")
}

// met finds out which connection the k-th client is bound to.
func (a *acceptor) met(k int) {
	var b [4]byte
	binary.BigEndian.PutUint32(b[:], uint32(k))
	a.c[k-1].Conn.Write(b[:])
	at := 0
	settled(func() bool {
		for i, d := range a.d {
			for j := 0; ; j++ {
				t, ok := d.token(j)
				if !ok {
					break
				}
				if t == k {
					at = i + 1
					d.skip = 4 * (j + 1)
					return true
				}
			}
		}
		return false
	})
	a.bound = append(a.bound, at)
	a.r.Ev("client", "c", at)
}

func (a *acceptor) done() {
	if a.short != nil {
		a.toggle()
	}
	a.r.Ev("done")
	a.s.Close()
	for _, d := range a.d {
		d.c.Close()
	}
	for _, c := range a.c {
		if c, ok := c.Conn.(io.Closer); ok {
			c.Close()
		}
	}
}

func (a *acceptor) op(o string) {
	switch o {
	case "dial":
		if a.short == nil || a.spare {
			a.spare = false
			a.dial()
		}
	case "take":
		a.take(1)
	case "listen":
		a.listen(1)
	case "short":
		a.rest()
		a.toggle()
	case "close":
		a.close()
	}
}

/* Sessions over it. */

func (x *session) due() int {
	switch {
	case !x.calls || x.pos == 0 || x.hand[0] != 3:
		return 0
	case x.pos < 1+packet:
		return 1
	}
	return total
}

// awaits says whether everything that is to be expected of a session has come
// about; everything that comes out of it is being taken.
func (x *session) awaits(marks []int, submits int) bool {
	x.writes(true)
	hs, wr := x.state(), min(len(x.p.got()), total)
	switch {
	case !x.calls:
		return true
	case x.hand[0] != 3 && x.pos > 0, x.diff > 0 && x.pos >= total, x.pos < total && x.ended:
		return hs == "err" && wr == x.due()
	case x.pos < total:
		return wr == x.due()
	case hs != "ok" || wr != total:
		return false
	}
	n := submits
	for _, m := range marks {
		if m <= x.pos-total {
			n++
		}
	}
	return x.count() >= n
}

type live struct {
	*session
	marks   []int
	submits int
}

// sessions begins one with every client that was handed out, with about n
// messages if n is positive.
func (a *acceptor) sessions(n int) []*live {
	var ls []*live
	for k, c := range a.c {
		if a.bound[k] == 0 {
			continue
		}
		r := a.r.Sub(fmt.Sprint(k))
		w := newWire(r.Rng)
		p := plain(r.Rng)
		p.tame = true
		if n > 0 {
			p.n = n
		}
		w.fill(p)
		d := a.d[a.bound[k]-1]
		x := newSession(r, c, d, version(r.Rng), w.b)
		d.read = func() bool { return x.calls }
		if r.Rng.Intn(8) == 0 {
			x.differ(hx.Pick(r.Rng, 1, pay, 1+r.Rng.Intn(pay)))
		}
		if r.Rng.Intn(2) == 0 {
			x.call()
		}
		x.start("ctl")
		x.start("cmd")
		for _, e := range outlets {
			x.take(e, "in", 300)
			x.take(e, "errs", 300)
		}
		ls = append(ls, &live{x, w.marks, 0})
	}
	return ls
}

func (a *acceptor) step(ls []*live) {
	for _, x := range ls {
		if !a.late {
			a.late = !settled(func() bool { return x.awaits(x.marks, x.submits) })
		}
	}
	for _, x := range ls {
		x.note()
	}
}

func (x *live) move() {
	r := x.r.Rng
	switch k := r.Intn(10); {
	case k < 1:
		x.call()
	case k < 2:
		if x.state() == "ok" {
			x.submit(hx.Pick(r, outlets...))
			x.submits++
		}
	case k < 3 && r.Intn(10) == 0:
		x.end(false)
	default:
		if left := total + len(x.wire) - x.pos; left > 0 && x.pos < total {
			x.send(hx.Pick(r, 1, 1+r.Intn(700), 1536, max(1, total-x.pos-1), total-x.pos, left))
		} else if left > 0 {
			x.send(hx.Pick(r, 1, 1+r.Intn(60), left))
		}
	}
}

// talk has the clients that were handed out go through their sessions, all at once.
func (a *acceptor) talk() {
	ls := a.sessions(0)
	if len(ls) == 0 {
		return
	}
	r := a.r.Rng
	every := 1 + r.Intn(8)
	for j, n := 0, 8+r.Intn(60); j < n && !a.late; j++ {
		ls[r.Intn(len(ls))].move()
		if r.Intn(every) == 0 {
			a.step(ls)
		}
	}
	idle := ls[:0:0] // some never go on
	for _, x := range ls {
		if r.Intn(5) > 0 {
			idle = append(idle, x)
		}
	}
	a.finish(ls, idle)
}

// finish has some sessions go all the way, and ends the record of all of them.
func (a *acceptor) finish(ls, finish []*live) {
	for i := 0; i < 3 && !a.late; i++ {
		for _, x := range finish {
			x.call()
			x.send(1 << 30)
		}
		a.step(finish)
	}
	for _, x := range finish {
		if x.state() == "ok" {
			for _, e := range outlets {
				x.submit(e)
				x.submits++
			}
		}
	}
	a.step(finish)
	for _, x := range finish {
		x.end(false)
	}
	a.step(finish)
	for _, x := range ls {
		x.r.Ev("done")
	}
}

// slow is about time: clients that are not taken for long, handshakes that are
// long under way, and sessions that are quiet for long.
func slow() []hx.Scenario {
	return []hx.Scenario{{ID: "tcp-slow-0", Run: func(r *hx.Rec) {
		a, idle := newAcceptor(r), newAcceptor(r.Sub("idle"))
		defer a.done()
		defer idle.done()
		for i := 0; i < 8; i++ {
			a.dial()
			idle.dial()
		}
		a.take(8)
		a.rest()
		ls := a.sessions(0)
		for i, x := range ls {
			if i%3 > 0 {
				x.call()
			}
			x.send([]int{0, 1, 700, 1 + packet, 2000, total, total + 5, 1 << 30}[i%8])
		}
		a.step(ls)
		time.Sleep(time.Duration(hx.N(32, 130)) * time.Second)
		a.step(ls)
		a.finish(ls, ls)
		idle.take(8)
		idle.rest()
	}}}
}

func servers() []hx.Scenario {
	var ss []hx.Scenario
	add := func(id string, f func(r *hx.Rec)) { ss = append(ss, hx.Scenario{ID: "tcp-" + id, Run: f}) }
	type gen struct {
		Ops []string `json:"ops"`
	}
	for i, g := range hx.Inputs[gen]() {
		add(fmt.Sprintf("spec-%d", i), func(r *hx.Rec) {
			a := newAcceptor(r)
			defer a.done()
			every := 1 + r.Rng.Intn(3)
			for j, op := range g.Ops {
				a.op(op)
				if j%every == 0 {
					a.rest()
				}
			}
			a.rest()
		})
	}
	// Many clients, whose handshakes are all under way at once, and then their
	// sessions.
	for i := 0; i < hx.N(1, 3); i++ {
		add(fmt.Sprintf("crowd-%d", i), func(r *hx.Rec) {
			a := newAcceptor(r)
			defer a.done()
			n := hx.N(90, 300)
			for j := 0; j < n; j++ {
				a.dial()
			}
			a.listen(5)
			a.take(n)
			a.rest()
			ls := a.sessions(2)
			for _, x := range ls {
				x.call()
				x.send(1)
			}
			a.step(ls)
			for _, x := range ls {
				x.send(packet)
			}
			a.step(ls)
			a.finish(ls, ls[len(ls)/3:])
		})
	}
	for i := 0; i < hx.N(60, 600); i++ {
		add(fmt.Sprintf("random-%d", i), func(r *hx.Rec) {
			a := newAcceptor(r)
			defer a.done()
			every := 1 + r.Rng.Intn(6)
			for j, n := 0, 3+r.Rng.Intn(20); j < n; j++ {
				a.op(hx.Pick(r.Rng, "dial", "dial", "dial", "take", "take", "take", "listen"))
				if r.Rng.Intn(25) == 0 {
					a.op(hx.Pick(r.Rng, "short", "close"))
				}
				if r.Rng.Intn(every) == 0 {
					a.rest()
				}
			}
			if a.short != nil {
				a.op("short")
			}
			a.listen(20)
			if n := len(a.d) - len(a.c) - a.want; n > 0 && r.Rng.Intn(4) > 0 {
				a.take(n)
			}
			a.rest()
			a.talk()
		})
	}
	return ss
}
