package hchunk

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"sync"

	"github.com/WatchBeam/rtmp/chunk"
	"verif/harness/hx"
)

// The chunk parser, its streams and its registry.

type item struct {
	E bool `json:"e"`
	C int  `json:"c"`
}

// dOp is an operation on a parser; the fields used depend on O.
type dOp struct {
	O     string `json:"o"`
	Items []item `json:"items"`
	H     int    `json:"h"`
	N     int    `json:"n"`
	Ids   []int  `json:"ids"`
}

// fakeReader hands over what the scenario gives it.
type fakeReader struct {
	mu      sync.Mutex
	q       []any // *chunk.Chunk or error
	endless bool
	more    chan struct{}
	chunks  chan *chunk.Chunk
	errs    chan error
	closer  chan struct{}
	once    sync.Once
}

func newFakeReader() *fakeReader {
	return &fakeReader{more: make(chan struct{}, 1), chunks: make(chan *chunk.Chunk),
		errs: make(chan error), closer: make(chan struct{})}
}

func (f *fakeReader) push(x ...any) {
	f.mu.Lock()
	f.q = append(f.q, x...)
	f.mu.Unlock()
	select {
	case f.more <- struct{}{}:
	default:
	}
}

func (f *fakeReader) end() { f.mu.Lock(); f.endless = true; f.mu.Unlock(); f.push() }

func (f *fakeReader) Recv() {
	for {
		f.mu.Lock()
		var x any
		if len(f.q) > 0 {
			x, f.q = f.q[0], f.q[1:]
		} else if f.endless {
			x = io.EOF
		}
		f.mu.Unlock()
		switch x := x.(type) {
		case *chunk.Chunk:
			select {
			case f.chunks <- x:
			case <-f.closer:
				return
			}
		case error:
			select {
			case f.errs <- x:
			case <-f.closer:
				return
			}
		default:
			select {
			case <-f.more:
			case <-f.closer:
				return
			}
		}
	}
}

func (f *fakeReader) ReadSize() int               { return 128 }
func (f *fakeReader) SetReadSize(int)             {}
func (f *fakeReader) Chunks() <-chan *chunk.Chunk { return f.chunks }
func (f *fakeReader) Errs() <-chan error          { return f.errs }
func (f *fakeReader) Close()                      { f.once.Do(func() { close(f.closer) }) }

var _ chunk.Reader = new(fakeReader)

// known is what the scenario knows of an item it fed.
type known struct {
	item
	chunk *chunk.Chunk // with a fake reader
	err   error
	data  []byte
	typ   byte
	msid  uint32
	end   int // offset of its last byte on the wire
}

// taker takes from one stream as often as it is told to.
type taker struct {
	h    int
	ch   <-chan *chunk.Chunk
	errs <-chan error
	need chan int
	dead bool
}

type demuxRun struct {
	r      *hx.Rec
	real   bool
	fake   *fakeReader
	src    *hx.Src
	p      *chunk.Parser
	mu     sync.Mutex
	res    map[int][]int
	items  []*known
	raws   map[error]bool
	nerr   int
	wire   int
	over   bool
	takers map[int]*taker
	ids    map[<-chan *chunk.Chunk]int
	of     map[int]chunk.Stream
	closed chan struct{}
	asked  bool // close was called
}

func newDemuxRun(r *hx.Rec, real bool) *demuxRun {
	d := &demuxRun{r: r, real: real, raws: map[error]bool{}, res: map[int][]int{}, takers: map[int]*taker{},
		ids: map[<-chan *chunk.Chunk]int{}, of: map[int]chunk.Stream{}, closed: make(chan struct{})}
	if real {
		d.src = hx.NewSrc()
		var rd io.Reader = d.src
		if r.Rng.Intn(2) == 0 {
			rd = hx.ByteSrc{Src: d.src}
		}
		d.p = chunk.NewParser(chunk.NewReader(rd, 128, chunk.NewNormalizer()))
	} else {
		d.fake = newFakeReader()
		d.p = chunk.NewParser(d.fake)
	}
	return d
}

// answer notes what a taker got.
func (d *demuxRun) answer(h, n int) {
	d.mu.Lock()
	d.res[h] = append(d.res[h], n)
	d.mu.Unlock()
}

// which finds out which item a chunk is, or -2.
func (d *demuxRun) which(c *chunk.Chunk) int {
	if c == nil || c.Header == nil {
		return -2
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	for i, k := range d.items {
		if k.E || int(c.StreamId()) != k.C || !bytes.Equal(c.Data, k.data) {
			continue
		}
		if k.chunk != nil && k.chunk != c || c.TypeId() != k.typ || c.Header.MessageHeader.StreamId != k.msid ||
			int(c.Header.MessageHeader.Length) != len(k.data) {
			return -3
		}
		return i + 1
	}
	return -2
}

// whichErr finds out which error it is, or -1 if it is the end of the input.
func (d *demuxRun) whichErr(err error) int {
	d.mu.Lock()
	defer d.mu.Unlock()
	for i, k := range d.items {
		if k.E && k.err == err {
			return i + 1
		}
	}
	if errors.Is(err, io.EOF) {
		return -1
	}
	if d.real && errors.Is(err, chunk.ErrInvalidChunkSize) { // which one is not to be told
		n := 0
		for i, k := range d.items {
			if k.E {
				if n == d.nerr {
					d.nerr++
					return i + 1
				}
				n++
			}
		}
	}
	return -2
}

func (d *demuxRun) take(t *taker) {
	for n := range t.need {
		for ; n > 0; n-- {
			if t.errs != nil {
				err, ok := <-t.errs
				if !ok {
					d.answer(t.h, 0)
					return
				}
				d.answer(t.h, d.whichErr(err))
				continue
			}
			c, ok := <-t.ch
			if !ok {
				d.answer(t.h, 0)
				return
			}
			d.answer(t.h, d.which(c))
		}
	}
}

// handle is the number of a stream.
func (d *demuxRun) handle(s chunk.Stream) int {
	ch := s.In()
	if d.ids[ch] == 0 {
		d.ids[ch] = len(d.ids) + 1
		d.of[d.ids[ch]] = s
	}
	return d.ids[ch]
}

// do starts an operation, unless it makes no sense (any more).
func (d *demuxRun) do(op dOp) hx.M {
	switch op.O {
	case "feed":
		if d.over {
			return nil
		}
		var b []byte
		for _, it := range op.Items {
			b = append(b, d.feed(it)...)
		}
		if d.real {
			for len(b) > 0 {
				n := 1 + d.r.Rng.Intn(len(b))
				d.src.Feed(b[:n])
				b = b[n:]
			}
		}
		its := op.Items
		for i := range its {
			if its[i].E {
				its[i].C = 0
			}
		}
		return hx.M{"o": "feed", "items": its}
	case "end":
		if d.over {
			return nil
		}
		d.over = true
		if d.real {
			d.src.FeedEnd(nil, io.EOF, false, false)
		} else {
			d.fake.end()
		}
		return hx.M{"o": "end"}
	case "req":
		if d.asked {
			return nil
		}
		var ids []uint32
		for _, c := range op.Ids {
			ids = append(ids, uint32(c))
		}
		s, err := d.p.Stream(ids...)
		h := -1
		if err == nil {
			h = d.handle(s)
		} else if s != nil {
			h = -2
		}
		return hx.M{"o": "req", "ids": append([]int{}, op.Ids...), "h": h}
	case "take":
		if op.H != 0 && d.of[op.H] == nil {
			return nil
		}
		t := d.takers[op.H]
		if t == nil {
			t = &taker{h: op.H, need: make(chan int, 100)}
			if op.H == 0 {
				t.errs = d.p.Errs()
			} else {
				t.ch = d.of[op.H].In()
			}
			d.takers[op.H] = t
			go d.take(t)
		}
		if t.dead {
			return nil
		}
		t.need <- op.N
		return hx.M{"o": "take", "h": op.H, "n": op.N}
	case "close":
		if d.asked {
			return nil
		}
		d.asked = true
		go func() {
			d.p.Close()
			close(d.closed)
		}()
		return hx.M{"o": "close"}
	}
	panic(op.O)
}

// feed makes up the item; for a real reader it returns its bytes.
func (d *demuxRun) feed(it item) []byte {
	k := &known{item: it}
	d.mu.Lock()
	d.items = append(d.items, k)
	n := len(d.items)
	d.mu.Unlock()
	r := d.r.Rng
	if it.E && !d.real {
		k.err = fmt.Errorf("harness: error %d", n)
		if r.Intn(3) == 0 {
			k.err = hx.Like(k.err, r)
		} else if raw := hx.Pick(r, io.ErrClosedPipe, io.ErrNoProgress, io.ErrUnexpectedEOF, net.ErrClosed, os.ErrDeadlineExceeded); r.Intn(3) == 0 && !d.raws[raw] {
			k.err, d.raws[raw] = raw, true
		}
		d.fake.push(k.err)
		return nil
	}
	if it.E {
		p := newPeer(r, 128)
		p.header(hdr{typ: 1, ln: 3}, 2)
		d.wire += len(p.wire) + 3
		k.end = d.wire
		return append(p.wire, 0, 0, 1)
	}
	k.typ, k.msid = hx.Pick(r, byte(8), 9, 20, 3), uint32(r.Intn(3))
	k.data = make([]byte, 4+hx.Pick(r, 0, 1, 124, 125, 300, r.Intn(20)))
	r.Read(k.data)
	k.data[0], k.data[1] = byte(n), byte(n>>8)
	if !d.real {
		k.chunk = &chunk.Chunk{
			Header: &chunk.Header{
				BasicHeader:   chunk.BasicHeader{StreamId: uint32(it.C)},
				MessageHeader: chunk.MessageHeader{Length: uint32(len(k.data)), TypeId: k.typ, StreamId: k.msid},
			},
			Data: append([]byte{}, k.data...),
		}
		d.fake.push(k.chunk)
		return nil
	}
	p := newPeer(r, 128)
	p.header(hdr{typ: k.typ, ln: uint32(len(k.data)), msid: k.msid}, uint32(it.C))
	b := p.wire
	for i := 0; i < len(k.data); i += 128 {
		if i > 0 {
			q := newPeer(r, 128)
			q.header(hdr{fmt: 3}, uint32(it.C))
			b = append(b, q.wire...)
		}
		b = append(b, k.data[i:min(i+128, len(k.data))]...)
	}
	d.wire += len(b)
	k.end = d.wire
	return b
}

// step runs operations without waiting in between, then waits.
func (d *demuxRun) step(ops []dOp) {
	log := []hx.M{}
	for _, op := range ops {
		if m := d.do(op); m != nil {
			log = append(log, m)
		}
	}
	hx.Wait()
	closed := false
	select {
	case <-d.closed:
		closed = true
	default:
	}
	res := []hx.M{}
	d.mu.Lock()
	for h, g := range d.res {
		res = append(res, hx.M{"h": h, "got": g})
		if g[len(g)-1] == 0 {
			d.takers[h].dead = true
		}
	}
	d.res = map[int][]int{}
	d.mu.Unlock()
	if len(log) == 0 && len(res) == 0 {
		return
	}
	d.r.Ev("step", "ops", log, "res", res, "closed", closed)
}

func (d *demuxRun) play(steps [][]dOp) {
	hx.Wait()
	base := hx.Mates()
	go d.p.Recv()
	for _, s := range steps {
		d.step(s)
	}
	d.step([]dOp{{O: "close"}})
	var all []dOp
	for h := 0; h <= len(d.of); h++ {
		all = append(all, dOp{O: "take", H: h, N: 100000})
	}
	d.step(all)
	// More input, in case the reader waits for some.
	taken, bound, reads := 0, 0, 0
	if d.real {
		from, before := d.src.Taken(), d.src.Reads()
		if !d.over {
			var b []byte
			for i := 0; i < 3; i++ {
				b = append(b, d.feed(item{C: 5})...)
			}
			d.src.Feed(b)
		}
		for _, k := range d.items {
			if k.end > from {
				bound = k.end
				break
			}
		}
		hx.Wait()
		taken, bound, reads = d.src.Taken()-from, max(0, bound-from), d.src.Reads()-before
	}
	for _, t := range d.takers {
		close(t.need)
	}
	hx.Wait()
	d.r.Ev("stopped", "left", hx.Mates()-base, "taken", taken, "bound", bound, "reads", reads)
	if d.real {
		d.src.FeedEnd(nil, io.EOF, false, false)
		hx.Wait()
	}
	d.r.Ev("done")
}

// grouped puts operations into steps at random.
func grouped(r *rand.Rand, ops []dOp, p float64) [][]dOp {
	var ss [][]dOp
	for i, op := range ops {
		if i == 0 || r.Float64() >= p {
			ss = append(ss, nil)
		}
		ss[len(ss)-1] = append(ss[len(ss)-1], op)
	}
	return ss
}

// randomDemux makes up a history.
func randomDemux(r *rand.Rand, req, closing, errs float64) []dOp {
	ids := [][]int{{2, 3}, {3, 4, 5}, {3, 64, 65599}, {4, 5, 6, 8}}[r.Intn(4)]
	var ops []dOp
	n := 4 + r.Intn(16)
	handles := 0
	for i := 0; i < n; i++ {
		switch x := r.Float64(); {
		case x < req:
			var q []int
			for k := hx.Pick(r, 0, 1, 1, 1, 1, 2, 2, 3); k > 0; k-- {
				q = append(q, ids[r.Intn(len(ids))])
			}
			ops = append(ops, dOp{O: "req", Ids: q})
			handles++
		case x < req+.3:
			var its []item
			for k := hx.Pick(r, 1, 1, 1, 2, 4); k > 0; k-- {
				its = append(its, item{E: r.Float64() < errs, C: ids[r.Intn(len(ids))]})
			}
			ops = append(ops, dOp{O: "feed", Items: its})
		case x < req+.3+closing && i > 1:
			ops = append(ops, dOp{O: "close"})
		case x < req+.3+closing+.02:
			ops = append(ops, dOp{O: "end"})
		default:
			ops = append(ops, dOp{O: "take", H: r.Intn(handles + 1), N: hx.Pick(r, 1, 1, 1, 2, 5)})
		}
	}
	if r.Intn(2) == 0 { // let everything out
		for _, c := range ids {
			ops = append(ops, dOp{O: "req", Ids: []int{c}})
			handles++
		}
		for h := 0; h <= handles; h++ {
			ops = append(ops, dOp{O: "take", H: h, N: hx.Pick(r, 1, 20)})
		}
	}
	return ops
}

// wideDemux has hundreds of chunk streams, and requests for many at a time.
func wideDemux(r *rand.Rand) []dOp {
	var ids []int
	for _, c := range pickCsids(r, hx.Pick(r, 80, 140, 200)) {
		if c != 5 {
			ids = append(ids, int(c))
		}
	}
	r.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
	fresh := ids[len(ids)-hx.Pick(r, 4, 20, len(ids)/2):]
	ids = ids[:len(ids)-len(fresh)]
	var ops []dOp
	handles := 0
	req := func(q []int) {
		ops = append(ops, dOp{O: "req", Ids: q})
		handles++
	}
	// A few combined streams of many, and the rest alone.
	at := 0
	for k := r.Intn(4); k > 0; k-- {
		n := hx.Pick(r, 2, 10, 40)
		if at+n < len(ids) {
			req(ids[at : at+n])
			at += n
		}
	}
	for i := at; i < len(ids); i++ {
		if r.Intn(20) > 0 {
			req(ids[i : i+1])
		}
	}
	if r.Intn(2) == 0 { // all or nothing
		req(append([]int{ids[0]}, ids[len(ids)/2:]...))
	}
	for n := 0; n < 300; n++ {
		switch r.Intn(5) {
		case 0, 1, 2:
			var its []item
			for k := 1 + r.Intn(2); k > 0; k-- {
				its = append(its, item{E: r.Intn(20) == 0, C: ids[r.Intn(len(ids))]})
			}
			ops = append(ops, dOp{O: "feed", Items: its})
		case 3:
			ops = append(ops, dOp{O: "take", H: r.Intn(handles + 1), N: hx.Pick(r, 1, 3)})
		case 4:
			ops = append(ops, dOp{O: "req", Ids: []int{ids[r.Intn(len(ids))]}})
		}
		if r.Intn(40) == 0 {
			for h := 0; h <= handles; h++ {
				ops = append(ops, dOp{O: "take", H: h, N: 2})
			}
		}
	}
	// Many that do not exist and one that does: none comes to exist.
	for k := 0; k < 3; k++ {
		q := append([]int{}, fresh...)
		at := hx.Pick(r, 0, len(q)-1, r.Intn(len(q)))
		q[at] = ids[r.Intn(len(ids))]
		req(q)
	}
	req(fresh)
	return ops
}

// askDemux is about requests for very many streams, some of which exist.
func askDemux(r *rand.Rand) []dOp {
	fresh := []int{}
	for _, c := range pickCsids(r, 900) {
		fresh = append(fresh, int(c))
	}
	r.Shuffle(len(fresh), func(i, j int) { fresh[i], fresh[j] = fresh[j], fresh[i] })
	ops := []dOp{{O: "req", Ids: fresh[:1]}}
	exist := fresh[:1]
	fresh = fresh[1:]
	for len(fresh) > 10 {
		n := min(len(fresh), hx.Pick(r, 2, 9, 33, 70, 140, 300))
		q := append([]int{}, fresh[:n]...)
		for k := r.Intn(3); k > 0; k-- {
			at := hx.Pick(r, 0, n-1, r.Intn(n))
			q[at] = exist[r.Intn(len(exist))]
			ops = append(ops, dOp{O: "req", Ids: append([]int{}, q...)})
			q[at] = fresh[at]
		}
		ops = append(ops, dOp{O: "req", Ids: q})
		exist, fresh = append(exist[:len(exist):len(exist)], q...), fresh[n:]
	}
	h := 1
	for i := range ops {
		if r.Intn(4) == 0 {
			ops = append(ops, dOp{O: "feed", Items: []item{{C: exist[r.Intn(len(exist))]}}})
		}
		if i%2 == 0 {
			ops = append(ops, dOp{O: "take", H: h, N: 5})
			h++
		}
	}
	return ops
}

// backlogDemux has consumers stay away while very many messages arrive.
func backlogDemux(r *rand.Rand, n, one int) []dOp {
	ids := []int{3, 6, 64 + r.Intn(1000), 65599}
	ops := []dOp{{O: "req", Ids: ids[:2]}, {O: "req", Ids: ids[2:3]}, {O: "req", Ids: ids[3:]}}
	errs := hx.Pick(r, 0, 1)
	for n > 0 {
		var its []item
		for k := min(n, 1+r.Intn(100)); k > 0; k-- {
			it := item{C: ids[r.Intn(len(ids))]}
			if one >= 0 {
				it.C = ids[one]
			}
			it.E = errs == 1 && r.Intn(10) == 0
			its = append(its, it)
			n--
		}
		ops = append(ops, dOp{O: "feed", Items: its})
	}
	for h := range 4 {
		ops = append(ops, dOp{O: "take", H: (h + errs) % 4, N: 1000000})
	}
	return ops
}

// longDemux has few chunk streams and thousands of messages.
func longDemux(r *rand.Rand, n int) []dOp {
	ids := []int{3, 4, 64 + r.Intn(1000), 65599}
	ops := []dOp{{O: "req", Ids: ids[:2]}, {O: "req", Ids: ids[2:3]}, {O: "req", Ids: ids[3:]}}
	for h := 0; h < 4; h++ {
		ops = append(ops, dOp{O: "take", H: h, N: 1000000})
	}
	for n > 0 {
		var its []item
		for k := 1 + r.Intn(8); k > 0; k-- {
			its = append(its, item{E: r.Intn(20) == 0, C: ids[r.Intn(len(ids))]})
			n--
		}
		ops = append(ops, dOp{O: "feed", Items: its})
	}
	return ops
}

func demuxScenarios() []hx.Scenario {
	req, closing, errs := .2, .01, .15
	switch hx.Prop {
	case "C10":
		req = .4
	case "C12":
		closing, errs = .12, .25
	}
	var ss []hx.Scenario
	for i, g := range hx.Inputs[[]dOp]() {
		ss = append(ss, hx.Scenario{ID: fmt.Sprintf("spec-%d", i), Run: func(r *hx.Rec) {
			newDemuxRun(r, i%2 == 0).play(grouped(r.Rng, g, hx.Pick(r.Rng, 0, 0, .5, 1)))
		}})
	}
	for i := 0; i < hx.N(500, 8000); i++ {
		for _, real := range []bool{false, true} {
			ss = append(ss, hx.Scenario{ID: fmt.Sprintf("random-%v-%d", real, i), Run: func(r *hx.Rec) {
				newDemuxRun(r, real).play(grouped(r.Rng, randomDemux(r.Rng, req, closing, errs),
					hx.Pick(r.Rng, 0, .3, .6, .9)))
			}})
		}
	}
	for i := 0; i < hx.N(2, 20); i++ {
		ss = append(ss, hx.Scenario{ID: fmt.Sprintf("wide-%d", i), Run: func(r *hx.Rec) {
			newDemuxRun(r, i%2 == 0).play(grouped(r.Rng, wideDemux(r.Rng), 0))
		}})
	}
	for i := 0; i < hx.N(6, 40); i++ {
		ss = append(ss, hx.Scenario{ID: fmt.Sprintf("ask-%d", i), Run: func(r *hx.Rec) {
			newDemuxRun(r, i%2 == 0).play(grouped(r.Rng, askDemux(r.Rng), 0))
		}})
	}
	for i, n := range []int{10, 20, 40, 80, 160, 320, 700, 1500, hx.N(3000, 20000)} {
		for _, real := range []bool{false, true} {
			ss = append(ss, hx.Scenario{ID: fmt.Sprintf("backlog-%v-%d", real, i), Run: func(r *hx.Rec) {
				one := hx.Pick(r.Rng, 0, 2)
				if real == (i%2 == 0) {
					one = -1
				}
				newDemuxRun(r, real).play(grouped(r.Rng, backlogDemux(r.Rng, n, one), 0))
			}})
		}
	}
	for i := 0; i < 2; i++ {
		ss = append(ss, hx.Scenario{ID: fmt.Sprintf("long-%d", i), Run: func(r *hx.Rec) {
			newDemuxRun(r, i%2 == 0).play(grouped(r.Rng, longDemux(r.Rng, hx.N(1500, 10000)), 0))
		}})
	}
	return ss
}
