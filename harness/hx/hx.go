// Package hx is the common part of the conformance harnesses: it runs
// scenarios against the real code inside one testing/synctest bubble, so that
// "nothing more can happen" is an observable fact, and records what happened
// as one JSON object per scenario for validation against a TLA+ specification.
package hx

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"net"
	"os"
	"regexp"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"
)

// M is one JSON object.
type M = map[string]any

// Scenario is one history to run against the code.
type Scenario struct {
	ID  string
	Run func(*Rec)
}

// Rec records one scenario.
type Rec struct {
	ID   string
	Rng  *rand.Rand
	mu   sync.Mutex
	head M
	ev   []any
	subs []*Rec
}

// Sub returns a record of its own, for scenarios that have several sides.
func (r *Rec) Sub(name string) *Rec {
	s := &Rec{ID: r.ID + "/" + name, Rng: r.Rng, head: M{}}
	r.mu.Lock()
	r.subs = append(r.subs, s)
	r.mu.Unlock()
	return s
}

// Drop forgets a record that Sub returned.
func (r *Rec) Drop(s *Rec) {
	r.mu.Lock()
	r.subs = slices.DeleteFunc(r.subs, func(x *Rec) bool { return x == s })
	r.mu.Unlock()
}

// line is what the trace file gets of a record, or nil if it is empty.
func (r *Rec) line() []byte {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.ev) == 0 {
		return nil
	}
	r.head["id"] = r.ID
	r.head["ev"] = r.ev
	b, err := json.Marshal(r.head)
	must(err)
	return append(b, '\n')
}

// Set sets a field of the scenario other than its events.
func (r *Rec) Set(k string, v any) { r.mu.Lock(); r.head[k] = v; r.mu.Unlock() }

// Ev appends an event.
func (r *Rec) Ev(k string, kv ...any) {
	m := M{"k": k}
	for i := 0; i < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1]
	}
	r.mu.Lock()
	r.ev = append(r.ev, m)
	r.mu.Unlock()
}

// Len is the number of events so far.
func (r *Rec) Len() int { r.mu.Lock(); defer r.mu.Unlock(); return len(r.ev) }

var (
	Prop  = os.Getenv("HX_PROP")
	Part  = os.Getenv("HX_PART")
	Tier  = os.Getenv("HX_TIER")
	Seed  = envInt("HX_SEED", 1)
	Extra = os.Getenv("HX_INPUT") // behaviours generated from a specification
)

// Thorough says whether this is a thorough run.
func Thorough() bool { return Tier == "thorough" }

// N scales a number of scenarios with the tier.
func N(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

func envInt(k string, d int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(k), 10, 64); err == nil {
		return v
	}
	return d
}

func seedOf(id string) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s", Seed, id)
	return int64(h.Sum64() >> 1)
}

var (
	beat    atomic.Int64 // number of the scenario under way
	current atomic.Value // its ID
)

// Wait waits until no goroutine of the bubble can go on, and would not if it
// were given time either: the bubble's clock is moved on.
func Wait() {
	synctest.Wait()
	time.Sleep(patience)
	synctest.Wait()
}

const patience = time.Minute

// Main runs the scenarios of this process: all of them, those from the
// HX_START-th on, or only the one named HX_ONLY. It never returns.
//
// The progress file gets a line when a scenario begins and one when it ends,
// so that a crash or a hang can be laid at its door.
func Main(t *testing.T, scns []Scenario, bubble bool) {
	out, err := os.OpenFile(os.Getenv("HX_OUT"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	must(err)
	prog, err := os.OpenFile(os.Getenv("HX_PROG"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	must(err)
	start, only := int(envInt("HX_START", 0)), os.Getenv("HX_ONLY")
	limit := time.Duration(envInt("HX_HANG_S", 20)) * time.Second

	// The watchdog lives outside the bubble, in real time.
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(200 * time.Millisecond)
			if b := beat.Load(); b != last {
				last, since = b, time.Now()
			} else if time.Since(since) > limit {
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "HANG %v\n%s\n", current.Load(), buf)
				os.Exit(97)
			}
		}
	}()

	seen := map[string]bool{}
	body := func() {
		w := bufio.NewWriterSize(out, 1<<20)
		for i, s := range scns {
			if seen[s.ID] {
				panic("hx: two scenarios named " + s.ID)
			}
			seen[s.ID] = true
			if i < start || only != "" && s.ID != only {
				continue
			}
			current.Store(s.ID)
			beat.Add(1)
			fmt.Fprintf(prog, "B %d %s\n", i, s.ID)
			r := &Rec{ID: s.ID, Rng: rand.New(rand.NewSource(seedOf(s.ID))), head: M{}}
			s.Run(r)
			w.Write(r.line())
			for _, sub := range r.subs {
				w.Write(sub.line())
			}
			must(w.Flush())
			fmt.Fprintf(prog, "E %d %s\n", i, s.ID)
		}
		fmt.Fprintf(prog, "DONE %d\n", len(scns))
		os.Exit(0) // leaves goroutines behind that a scenario could not end
	}
	if bubble {
		synctest.Test(t, func(*testing.T) { body() })
	} else {
		body()
	}
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "hx:", err)
		os.Exit(98)
	}
}

// Ints turns bytes into a JSON array of numbers.
func Ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

// Q4 is a 32-bit number as four bytes, most significant first.
func Q4(n uint32) []int {
	return []int{int(n >> 24), int(n >> 16 & 255), int(n >> 8 & 255), int(n & 255)}
}

// Inputs reads the behaviours generated from a specification, one JSON value
// per line.
func Inputs[T any]() []T {
	if Extra == "" {
		return nil
	}
	f, err := os.Open(Extra)
	must(err)
	defer f.Close()
	var rs []T
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<26)
	for sc.Scan() {
		if strings.TrimSpace(sc.Text()) == "" {
			continue
		}
		var v T
		must(json.Unmarshal(sc.Bytes(), &v))
		rs = append(rs, v)
	}
	must(sc.Err())
	return rs
}

// Transport errors the harnesses inject.
var (
	ErrOnce = errors.New("harness: transient transport failure")
	ErrFail = errors.New("harness: transport failure")
)

// fault is a failure that has the looks of others: a timeout, say, or one a
// closed connection gives.
type fault struct {
	base, also         error
	timeout, temporary bool
}

func (f *fault) Error() string   { return fmt.Sprint(f.base, ": ", f.also) }
func (f *fault) Is(e error) bool { return e == f.base || e == f.also }
func (f *fault) Timeout() bool   { return f.timeout }
func (f *fault) Temporary() bool { return f.temporary }

// Transports fail in many ways, and none of them is what the code under test
// may take for something else than a failure.
var (
	fails = []error{ErrFail, io.ErrClosedPipe, net.ErrClosed, os.ErrDeadlineExceeded,
		&net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET},
		&fault{ErrFail, os.ErrDeadlineExceeded, true, true}, &fault{ErrFail, syscall.EAGAIN, false, true},
		&fault{ErrFail, net.ErrClosed, false, false}, io.ErrNoProgress, context.Canceled}
	onces = []error{ErrOnce, &fault{ErrOnce, os.ErrDeadlineExceeded, true, true}, &fault{ErrOnce, syscall.EINTR, false, true},
		&fault{ErrOnce, io.ErrShortBuffer, false, false}}
)

// Fail is one of the failures of a transport, and Once one it recovers from.
func Fail(r *rand.Rand) error { return fails[r.Intn(len(fails))] }
func Once(r *rand.Rand) error { return onces[r.Intn(len(onces))] }

// FailN and OnceN are the n-th of them, over and over.
func FailN(n int) error { return fails[n%len(fails)] }
func OnceN(n int) error { return onces[n%len(onces)] }

// Like is an error with the looks of others.
func Like(e error, r *rand.Rand) error {
	return &fault{e, Pick[error](r, os.ErrDeadlineExceeded, syscall.EINTR, io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, net.ErrClosed, io.ErrNoProgress),
		r.Intn(2) == 0, r.Intn(2) == 0}
}

// ErrClass is what the traces say of an error.
func ErrClass(err error) string {
	switch {
	case errors.Is(err, ErrOnce):
		return "once"
	case slices.ContainsFunc(fails, func(f error) bool { return errors.Is(err, f) }):
		return "fail"
	case errors.Is(err, io.EOF), errors.Is(err, io.ErrUnexpectedEOF):
		return "eof"
	}
	return "other"
}

// Src is a transport's reading side, fed by the scenario fragment by fragment.
// One Read returns bytes of one fragment only.
type Src struct {
	mu    sync.Mutex
	frags [][]byte
	end   error // after the fragments
	once  bool  // end is reported once only
	with  bool  // end comes together with the last bytes
	more  chan struct{}
	taken int
	reads int
}

// NewSrc returns a Src nothing has been fed to.
func NewSrc() *Src { return &Src{more: make(chan struct{}, 1)} }

func (s *Src) wake() {
	select {
	case s.more <- struct{}{}:
	default:
	}
}

// Feed makes a fragment available. An empty one makes a Read return (0, nil).
func (s *Src) Feed(b []byte) {
	s.mu.Lock()
	s.frags = append(s.frags, append([]byte{}, b...))
	s.mu.Unlock()
	s.wake()
}

// FeedEnd makes a fragment available, with the end right after it, or together
// with its last byte.
func (s *Src) FeedEnd(b []byte, err error, once, with bool) {
	s.mu.Lock()
	if len(b) > 0 {
		s.frags = append(s.frags, append([]byte{}, b...))
	}
	s.end, s.once, s.with = err, once, with
	s.mu.Unlock()
	s.wake()
}

// Taken is the number of bytes read so far.
func (s *Src) Taken() int { s.mu.Lock(); defer s.mu.Unlock(); return s.taken }

// Reads is the number of Read calls that returned.
func (s *Src) Reads() int { s.mu.Lock(); defer s.mu.Unlock(); return s.reads }

func (s *Src) Read(p []byte) (int, error) {
	for {
		s.mu.Lock()
		if len(p) == 0 {
			s.mu.Unlock()
			return 0, nil
		}
		if len(s.frags) > 0 {
			n := copy(p, s.frags[0])
			s.frags[0] = s.frags[0][n:]
			if len(s.frags[0]) == 0 {
				s.frags = s.frags[1:]
			}
			s.taken += n
			s.reads++
			var err error
			if len(s.frags) == 0 && s.end != nil && s.with {
				err = s.end
				if s.once {
					s.end = nil
				}
			}
			s.mu.Unlock()
			return n, err
		}
		if s.end != nil {
			err := s.end
			if s.once {
				s.end = nil
			}
			s.reads++
			s.mu.Unlock()
			return 0, err
		}
		s.mu.Unlock()
		<-s.more
	}
}

// ByteSrc is a Src that also offers ReadByte, as buffered readers do.
type ByteSrc struct{ *Src }

func (s ByteSrc) ReadByte() (byte, error) {
	var b [1]byte
	for {
		n, err := s.Src.Read(b[:])
		if n == 1 {
			if err != nil { // an io.ByteReader cannot return both
				s.Src.mu.Lock()
				if s.Src.once {
					s.Src.end = err
				}
				s.Src.with = false
				s.Src.mu.Unlock()
			}
			return b[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
}

// Pick returns one of its arguments.
func Pick[T any](r *rand.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

var bubble = regexp.MustCompile(`synctest bubble \d+`)

// Mates is the number of goroutines in the bubble of the one that asks. (The
// runtime's own count takes in goroutines that come and go outside of it.)
func Mates() int {
	for b := make([]byte, 1<<18); ; b = make([]byte, 2*len(b)) {
		n := runtime.Stack(b, true)
		if n == len(b) {
			continue
		}
		mine, k := "", 0
		for _, g := range strings.Split(string(b[:n]), "\n\n") {
			first, _, _ := strings.Cut(g, "\n")
			x := bubble.FindString(first)
			if k == 0 {
				mine = x // the one that asks comes first
			}
			if x == mine {
				k++
			}
		}
		return k
	}
}
