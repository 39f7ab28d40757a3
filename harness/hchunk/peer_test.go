package hchunk

import (
	"math/rand"

	"verif/harness/hx"
)

// peer produces conforming chunk streams. It only generates input: whether a
// wire is conforming, and what it stands for, is decided by the specification.
type peer struct {
	rng  *rand.Rand
	wire []byte
	cuts []int // where chunks end
	idle []int // where chunks end and no message is under way
	size int
	prev map[uint32]hdr
	part map[uint32]*pmsg
	open []uint32 // chunk streams with a partial message, in order of start
	sent []*pmsg  // complete messages
}

type hdr struct {
	fmt          byte
	ts, ln, msid uint32
	typ          byte
	ext          uint32
}

type pmsg struct {
	h      hdr
	rest   []byte
	pieces [][2]int // where its bytes are on the wire
}

const ffffff = 0xffffff

func newPeer(rng *rand.Rand, size int) *peer {
	return &peer{rng: rng, size: size, prev: map[uint32]hdr{}, part: map[uint32]*pmsg{}}
}

func (p *peer) basic(f byte, csid uint32) {
	switch {
	case csid < 64:
		p.wire = append(p.wire, f<<6|byte(csid))
	case csid < 320:
		p.wire = append(p.wire, f<<6, byte(csid-64))
	default:
		p.wire = append(p.wire, f<<6|63, byte((csid-64)>>8), byte(csid-64))
	}
}

// long writes csid in a longer form than needed, which receivers understand too.
func (p *peer) long(f byte, csid uint32) {
	switch {
	case csid < 64:
		p.basic(f, csid)
	default:
		p.wire = append(p.wire, f<<6|63, byte((csid-64)>>8), byte(csid-64))
	}
}

func be24(n uint32) []byte { return []byte{byte(n >> 16), byte(n >> 8), byte(n)} }
func be32(n uint32) []byte { return []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)} }
func le32(n uint32) []byte { return []byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)} }

func (p *peer) header(h hdr, csid uint32) {
	if p.rng.Intn(12) == 0 {
		p.long(h.fmt, csid)
	} else {
		p.basic(h.fmt, csid)
	}
	if h.fmt <= 2 {
		p.wire = append(p.wire, be24(h.ts)...)
	}
	if h.fmt <= 1 {
		p.wire = append(p.wire, be24(h.ln)...)
		p.wire = append(p.wire, h.typ)
	}
	if h.fmt == 0 {
		p.wire = append(p.wire, le32(h.msid)...)
	}
	if h.ts == ffffff {
		p.wire = append(p.wire, be32(h.ext)...)
	}
}

func (p *peer) payload(n int) []byte {
	b := make([]byte, n)
	p.rng.Read(b)
	return b
}

// start sends the first chunk of a message on csid, which must have none open.
// The fields h.fmt omits must equal those of the previous header on csid.
func (p *peer) start(csid uint32, h hdr, data []byte) {
	h.ln = uint32(len(data))
	p.header(h, csid)
	p.prev[csid] = h
	p.part[csid] = &pmsg{h: h, rest: data}
	p.open = append(p.open, csid)
	p.chunk(csid)
}

// cont sends the next chunk of the message under way on csid.
func (p *peer) cont(csid uint32) {
	m := p.part[csid]
	h := m.h
	h.fmt = 3
	if m.h.ts == ffffff && p.rng.Intn(4) == 0 {
		h.ext = p.rng.Uint32() // allowed to differ as far as this reader goes
	}
	p.header(h, csid)
	p.chunk(csid)
}

func (p *peer) forget(csid uint32) {
	delete(p.part, csid)
	for i, c := range p.open {
		if c == csid {
			p.open = append(append([]uint32{}, p.open[:i]...), p.open[i+1:]...)
			return
		}
	}
}

func (p *peer) chunk(csid uint32) {
	m := p.part[csid]
	n := min(len(m.rest), p.size)
	if n > 0 {
		m.pieces = append(m.pieces, [2]int{len(p.wire), n})
	}
	p.wire = append(p.wire, m.rest[:n]...)
	m.rest = m.rest[n:]
	p.cuts = append(p.cuts, len(p.wire))
	if len(m.rest) > 0 {
		return
	}
	p.sent = append(p.sent, m)
	p.forget(csid)
	if len(p.open) == 0 {
		p.idle = append(p.idle, len(p.wire))
	}
}

func (p *peer) quietCuts() []int { return p.idle }

// profile says what kind of history to generate.
type profile struct {
	csids   []uint32
	steps   int
	size    int
	sizes   []int // sizes to change to
	types   []byte
	pComp   float64 // probability of a compressed header where possible
	pExt    float64
	pCtl    float64 // set chunk size
	pBad    float64 // invalid set chunk size
	pAbort  float64
	pCont   float64 // go on with an open message rather than start one
	lens    []int   // lengths to prefer; -1 stands for multiples of the size
	maxLen  int
	maxOpen int
	maxWire int
}

var csidPool = []uint32{2, 3, 4, 5, 6, 7, 8, 9, 61, 62, 64, 65, 66, 127, 128, 129, 191, 192, 255, 256, 318, 319, 320, 321, 383, 384, 575, 576, 1000, 4095, 65534, 65535, 65536, 65597, 65598, 65599}

func pickCsids(r *rand.Rand, n int) []uint32 {
	m := map[uint32]bool{}
	var cs []uint32
	for len(cs) < n {
		c := csidPool[r.Intn(len(csidPool))]
		switch r.Intn(8) {
		case 0:
			c = 2 + uint32(r.Intn(61))
		case 1:
			c = 64 + uint32(r.Intn(256))
		case 2:
			c = 320 + uint32(r.Intn(65280))
		}
		if n > 40 {
			c = 64 + uint32(r.Intn(2000))
		}
		if c != 63 && !m[c] {
			m[c] = true
			cs = append(cs, c)
		}
	}
	return cs
}

// congruent picks chunk stream IDs that agree in their low 6 or 8 bits.
func congruent(r *rand.Rand) []uint32 {
	base := 2 + uint32(r.Intn(60))
	return []uint32{base, base + 64, base + 128, base + 256, base + 320, base + 512, base + 1024, base + 65536 - 64}
}

var typePool = []byte{0, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 18, 19, 20, 22, 64, 128, 129, 130, 255}

func (p *peer) ts(pr *profile) (uint32, uint32) {
	if p.rng.Float64() < pr.pExt {
		return ffffff, hx.Pick(p.rng, p.rng.Uint32(), 0, 1, ffffff, ffffff+1, 0x7fffffff, 0x80000000, 0xffffffff)
	}
	return hx.Pick(p.rng, uint32(p.rng.Intn(ffffff)), 0, 1, 255, 256, 65535, 65536, 0xfffffe, 0x7fffff, 0x800000), 0
}

func (p *peer) msgLen(pr *profile) int {
	switch p.rng.Intn(4) {
	case 0:
		return p.rng.Intn(pr.maxLen + 1)
	case 1:
		return p.rng.Intn(5)
	}
	n := pr.lens[p.rng.Intn(len(pr.lens))]
	if n < 0 {
		n = p.size*(1+p.rng.Intn(4)) + p.rng.Intn(3) - 1
	}
	return min(n, pr.maxLen)
}

// run generates a history.
func (p *peer) run(pr profile) {
	for i := 0; i < pr.steps && len(p.wire) < pr.maxWire; i++ {
		if len(p.open) > 0 && (len(p.open) >= pr.maxOpen || p.rng.Float64() < pr.pCont) {
			p.cont(p.open[p.rng.Intn(len(p.open))])
			continue
		}
		var free []uint32
		for _, c := range pr.csids {
			if p.part[c] == nil {
				free = append(free, c)
			}
		}
		if len(free) == 0 {
			continue
		}
		c := free[p.rng.Intn(len(free))]
		switch x := p.rng.Float64(); {
		case x < pr.pCtl:
			p.setSize(c, pr.sizes[p.rng.Intn(len(pr.sizes))])
		case x < pr.pCtl+pr.pBad:
			p.badSize(c)
		case x < pr.pCtl+pr.pBad+pr.pAbort:
			p.abort(c, pr.csids)
		default:
			p.message(c, &pr)
		}
	}
	// End most histories with everything complete.
	if p.rng.Intn(4) > 0 {
		for len(p.open) > 0 && len(p.wire) < 3*pr.maxWire {
			p.cont(p.open[p.rng.Intn(len(p.open))])
		}
	}
}

func (p *peer) message(c uint32, pr *profile) {
	ts, ext := p.ts(pr)
	h := hdr{fmt: 0, ts: ts, ext: ext, typ: pr.types[p.rng.Intn(len(pr.types))],
		msid: hx.Pick(p.rng, 0, 1, 2, 255, 256, 0x01020304, 0xffffffff, p.rng.Uint32())}
	if p.rng.Intn(3) == 0 && len(pr.types) == len(typePool) {
		if h.typ = byte(p.rng.Intn(256)); h.typ == 1 || h.typ == 2 {
			h.typ = 0
		}
	}
	n := p.msgLen(pr)
	if prev, ok := p.prev[c]; ok && p.rng.Float64() < pr.pComp {
		h.fmt = byte(1 + p.rng.Intn(3))
		h.msid = prev.msid
		if h.fmt >= 2 {
			if prev.typ <= 2 { // an inherited control message
				h.fmt = 1
			} else {
				n, h.typ = int(prev.ln), prev.typ
			}
		}
		if h.fmt == 3 {
			h.ts = prev.ts
			h.ext = ext
			if h.ts != ffffff {
				h.ext = 0
			}
		}
	}
	p.start(c, h, p.payload(n))
}

// control sends a whole message on c, and so does not interleave its chunks.
func (p *peer) control(c uint32, typ byte, data []byte) {
	h := hdr{typ: typ}
	if p.rng.Intn(3) == 0 {
		h.msid = p.rng.Uint32()
	}
	if prev, ok := p.prev[c]; ok && p.rng.Intn(2) == 0 {
		h.fmt, h.msid = 1, prev.msid
		if prev.ln == uint32(len(data)) && prev.typ == typ {
			h.fmt = 2
		}
	}
	p.start(c, h, data)
}

// finish completes the message open on c, if any. The chunk size in force
// after a Set Chunk Size message takes effect once it is complete.
func (p *peer) finish(c uint32, mix bool) {
	for p.part[c] != nil {
		if mix && p.rng.Intn(3) == 0 {
			p.cont(p.open[p.rng.Intn(len(p.open))])
		} else {
			p.cont(c)
		}
	}
}

func (p *peer) setSize(c uint32, n int) {
	d := be32(uint32(n))
	if p.rng.Intn(6) == 0 {
		d = append(d, p.payload(p.rng.Intn(4))...)
	}
	p.control(c, 1, d)
	p.finish(c, true)
	p.size = n
}

func (p *peer) badSize(c uint32) {
	d := p.payload(p.rng.Intn(4))
	if p.rng.Intn(2) == 0 {
		d = make([]byte, 4+p.rng.Intn(3))
		if len(d) > 4 {
			d[4] = 1
		}
	}
	p.control(c, 1, d)
	p.finish(c, true)
}

func (p *peer) abort(c uint32, csids []uint32) {
	victim := csids[p.rng.Intn(len(csids))]
	if len(p.open) > 0 && p.rng.Intn(3) > 0 {
		victim = p.open[p.rng.Intn(len(p.open))]
	}
	d := be32(victim)
	switch p.rng.Intn(10) {
	case 0:
		d = be32(p.rng.Uint32())
	case 1:
		d = d[:p.rng.Intn(4)]
	case 2:
		d = append(d, p.payload(2)...)
	}
	p.control(c, 2, d)
	p.finish(c, true)
	if len(d) >= 4 {
		p.forget(uint32(d[0])<<24 | uint32(d[1])<<16 | uint32(d[2])<<8 | uint32(d[3]))
	}
}
