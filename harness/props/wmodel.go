package props

import (
	"bufio"
	"bytes"
	"fmt"
	"io"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/adc/types"
	"github.com/direct-connect/go-dc/lineproto"
	"github.com/direct-connect/go-dc/nmdc"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
)

// wKind is a kind of an operation on a writer.
type wKind byte

const (
	wLine   = wKind('L') // WriteLine
	wRaw    = wKind('R') // Write
	wKeep   = wKind('K') // WriteKeepAlive
	wMsg    = wKind('M') // WriteMsg / WritePacket
	wFlush  = wKind('F')
	wOn     = wKind('+') // EnableZlibLevel
	wZOn    = wKind('Z') // nmdc ZOnLevel
	wOff    = wKind('-')
	wBadLvl = wKind('x') // EnableZlibLevel with an invalid level
	wBadOn  = wKind('o') // EnableZlib while it's on
	wBadOff = wKind('d') // DisableZlib while it's off
	wCheck  = wKind('c') // CheckZlibLevel
	wBadMsg = wKind('m') // batch with a message that cannot be encoded
	wClose  = wKind('C')
)

// wOp is an operation of a script.
type wOp struct {
	kind wKind
	data []byte // bytes that should be delivered
	lvl  int
	nmsg []nmdc.Message
	apkt []adc.Packet
}

// wSeg is an expected section of the stream.
type wSeg struct {
	zlib bool
	data []byte
}

// wStream tracks the expected stream.
type wStream struct {
	segs    []wSeg
	partial bool // the last compressed section may be closed before everything is in it
}

func (s *wStream) cur() *wSeg {
	if len(s.segs) == 0 {
		s.segs = append(s.segs, wSeg{})
	}
	return &s.segs[len(s.segs)-1]
}

func (s *wStream) apply(op *wOp) {
	c := s.cur()
	switch op.kind {
	case wLine, wRaw, wKeep, wMsg:
		c.data = append(c.data, op.data...)
	case wOn:
		s.segs = append(s.segs, wSeg{zlib: true})
	case wZOn:
		c.data = append(c.data, "$ZOn|"...)
		s.segs = append(s.segs, wSeg{zlib: true})
	case wOff:
		s.segs = append(s.segs, wSeg{})
	}
}

func (s *wStream) size() int {
	n := 0
	for _, g := range s.segs {
		n += len(g.data)
	}
	return n
}

func isPrefix(p, of []byte) bool { return len(p) <= len(of) && bytes.Equal(p, of[:len(p)]) }

// decode checks that the wire is decoded to a prefix of the expected stream, and returns the number of decoded bytes.
// It also reports if all compressed sections are complete.
func (s *wStream) decode(wire []byte) (n int, complete bool, err error) {
	for i, g := range s.segs {
		if !g.zlib {
			k := len(g.data)
			if k > len(wire) {
				k = len(wire)
			}
			if !bytes.Equal(wire[:k], g.data[:k]) {
				return n, false, fmt.Errorf("plain section %d: %s", i, diff(wire[:k], g.data[:k]))
			}
			n += k
			wire = wire[k:]
			if k < len(g.data) {
				return n, false, nil
			}
			continue
		}
		if len(wire) == 0 {
			return n, false, nil
		}
		res, err := ref.Zlib(wire)
		if err == ref.ErrCorrupt {
			return n, false, fmt.Errorf("section %d is not a valid zlib stream: %s", i, q(wire))
		}
		if !isPrefix(res.Out, g.data) {
			return n, false, fmt.Errorf("compressed section %d: %s", i, diff(res.Out, g.data))
		}
		n += len(res.Out)
		if err == ref.ErrTruncated {
			return n, false, nil
		}
		if len(res.Out) != len(g.data) {
			if s.partial && res.Consumed == len(wire) {
				return n, false, nil
			}
			return n, false, fmt.Errorf("compressed section %d ended too early: %s", i, diff(res.Out, g.data))
		}
		wire = wire[res.Consumed:]
	}
	if len(wire) != 0 {
		return n, true, fmt.Errorf("%d extra bytes after everything that was written: %s", len(wire), q(wire))
	}
	return n, true, nil
}

type lineWr interface {
	WriteLine([]byte) error
	Write([]byte) (int, error)
	Flush() error
	EnableZlib() error
	EnableZlibLevel(int) error
	CheckZlibLevel(int) error
	DisableZlib() error
	Close() error
	Err() error
	OnLine(func([]byte) (bool, error))
}

// wTarget is a writer under test.
type wTarget struct {
	lineWr
	base  *lineproto.Writer
	nw    *nmdc.Writer
	aw    *adc.Writer
	desc  string
	delim byte
}

var bufSizes = []int{0, 0, 1, 16, 17, 64, 300, 4096, 10000}

// wConfig is a configuration of a target that may be created multiple times.
type wConfig struct {
	kind int // 0 lineproto, 1 nmdc, 2 adc
	size int
	bufd int // size of an underlying bufio.Writer; 0 is none
	def  bool
}

func randWConfig(r *mon.Rand) wConfig {
	c := wConfig{kind: r.Intn(3), size: mon.Pick(r, bufSizes...)}
	if r.P(1, 6) {
		c.bufd = mon.Pick(r, 16, 64, 4096, 20000)
	}
	c.def = c.size == 0 && r.Bool()
	return c
}

func (c wConfig) open(w io.Writer) *wTarget {
	if c.bufd != 0 {
		w = bufio.NewWriterSize(w, c.bufd)
	}
	t := &wTarget{delim: '|'}
	switch c.kind {
	case 0:
		t.delim = '\n'
		if c.def {
			t.base = lineproto.NewWriter(w)
		} else {
			t.base = lineproto.NewWriterSize(w, c.size)
		}
		t.lineWr = t.base
	case 1:
		if c.def {
			t.nw = nmdc.NewWriter(w)
		} else {
			t.nw = nmdc.NewWriterSize(w, c.size)
		}
		t.lineWr, t.base = t.nw, t.nw.Writer
	case 2:
		t.delim = '\n'
		if c.def {
			t.aw = adc.NewWriter(w)
		} else {
			t.aw = adc.NewWriterSize(w, c.size)
		}
		t.lineWr, t.base = t.aw, t.aw.Writer
	}
	return t
}

func (c wConfig) String() string {
	return fmt.Sprintf("%s writer (buffer %d, underlying bufio %d)", [...]string{"lineproto", "nmdc", "adc"}[c.kind], c.size, c.bufd)
}

func (c wConfig) delim() byte {
	if c.kind == 1 {
		return '|'
	}
	return '\n'
}

// do runs an operation; caller's buffers are checked and overwritten.
func (w *wTarget) do(t *mon.T, op *wOp) error {
	switch op.kind {
	case wLine, wRaw:
		p := append([]byte{}, op.data...)
		var err error
		n := len(p)
		if op.kind == wLine {
			err = w.WriteLine(p)
		} else {
			n, err = w.Write(p)
		}
		if err == nil && n != len(p) {
			t.Failf("short-write", "Write of %d bytes returned %d without an error", len(p), n)
		}
		if n < 0 || n > len(p) {
			t.Failf("write-count", "Write of %d bytes returned %d", len(p), n)
		}
		if !bytes.Equal(p, op.data) {
			t.Failf("caller-data", "a write modified the data of the caller: %s", diff(p, op.data))
		}
		for i := range p {
			p[i] = "#|\n$"[i%4]
		}
		return err
	case wKeep:
		if w.nw != nil {
			return w.nw.WriteKeepAlive()
		}
		return w.aw.WriteKeepAlive()
	case wMsg, wBadMsg:
		if w.nw != nil {
			return w.nw.WriteMsg(op.nmsg...)
		}
		for _, p := range op.apkt {
			if err := w.aw.WritePacket(p); err != nil {
				return err
			}
		}
		return nil
	case wFlush:
		return w.Flush()
	case wOn, wBadLvl, wBadOn:
		if op.lvl == -1 && op.kind != wBadLvl {
			return w.EnableZlib()
		}
		return w.EnableZlibLevel(op.lvl)
	case wZOn:
		if op.lvl == -1 {
			return w.nw.ZOn()
		}
		return w.nw.ZOnLevel(op.lvl)
	case wOff, wBadOff:
		return w.DisableZlib()
	case wCheck:
		return w.CheckZlibLevel(op.lvl)
	case wClose:
		return w.Close()
	}
	panic("unknown op")
}

func (op *wOp) String() string {
	switch op.kind {
	case wLine, wRaw, wMsg, wBadMsg:
		return fmt.Sprintf("%c%d", op.kind, len(op.data))
	case wOn, wZOn, wBadLvl, wBadOn, wCheck:
		return fmt.Sprintf("%c%d", op.kind, op.lvl)
	}
	return string(rune(op.kind))
}

func opsString(ops []*wOp) string {
	var sb bytes.Buffer
	for _, o := range ops {
		sb.WriteString(o.String())
		sb.WriteByte(' ')
	}
	return sb.String()
}

type wOpts struct {
	max     int  // number of operations
	size    int  // max item
	zlib    bool // switch compression
	sep     bool // always put plain data between compressed sections
	msgs    bool
	bad     bool // refused operations
	closeAt bool // close at the end
}

// textMsg is a simple message for the writer.
func simpleMsg(r *mon.Rand) nmdc.Message {
	switch r.Intn(5) {
	case 0:
		return &nmdc.ChatMessage{Name: "user", Text: gen.Text(r, 3000, "")}
	case 1:
		return &nmdc.Quit{Name: nmdc.Name(gen.Name(r, false))}
	case 2:
		return &nmdc.GetPass{}
	case 3:
		return &nmdc.RawMessage{Typ: "Foo", Data: []byte("some data")}
	}
	return &nmdc.PrivateMessage{To: "a", From: "b", Name: "b", Text: gen.Text(r, 100, "")}
}

func simplePacket(r *mon.Rand) adc.Packet {
	sid := types.SIDFromInt(1 + uint32(r.Intn(1<<20-1)))
	m := adc.Message(&adc.ChatMessage{Text: gen.Text(r, 3000, "")})
	if r.Bool() {
		m = &adc.RawMessage{Type: adc.MsgType{'X', 'Y', 'Z'}, Data: []byte("abc def")}
	}
	switch r.Intn(4) {
	case 0:
		return &adc.InfoPacket{Msg: m}
	case 1:
		return &adc.BroadcastPacket{ID: sid, Msg: m}
	case 2:
		return &adc.DirectPacket{ID: sid, To: sid, Msg: m}
	}
	return &adc.HubPacket{Msg: m}
}

var zlevels = []int{-2, -1, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
var zbadLevels = []int{-3, 10, 100, -100, 1 << 30, -1 << 30, 11}

// genOps makes a random script.
func genOps(t *mon.T, c wConfig, o wOpts) []*wOp {
	r := t.R
	delim := c.delim()
	count := (*mon.Rand).Intn
	if o.max > 20 {
		count = gen.Count
	}
	var ops []*wOp
	on, plainSince := false, true
	item := func(line bool) []byte {
		n := gen.Size(r, o.size)
		if o.size > 1000 {
			n = gen.Big(r, o.size)
		}
		p := make([]byte, n)
		switch r.Intn(3) {
		case 0:
			r.Fill(p)
			for i := range p {
				if line && p[i] == delim {
					p[i] = 'x'
				}
			}
		case 1:
			fillNo(r, p, delim)
		default:
			w := []byte("Hello world, this compresses well ")
			for i := range p {
				p[i] = w[i%len(w)]
			}
		}
		if line {
			p = append(p, delim)
		}
		return p
	}
	for i, n := 0, 1+count(r, o.max); i < n; i++ {
		op := &wOp{}
		switch k := r.Intn(16); {
		case k < 6:
			op.kind, op.data = wLine, item(true)
		case k < 8:
			op.kind, op.data = wRaw, item(false)
		case k < 9 && c.kind != 0:
			op.kind, op.data = wKeep, []byte{delim}
		case k < 10 && c.kind != 0 && o.msgs:
			op.kind = wMsg
			var err error
			if c.kind == 1 {
				for j, m := 0, r.Intn(4); j < m; j++ {
					var p []byte
					m := simpleMsg(r)
					if p, err = nmdc.Marshal(nil, m); err != nil {
						panic(err)
					}
					op.nmsg = append(op.nmsg, m)
					op.data = append(op.data, p...)
				}
			} else {
				var buf bytes.Buffer
				for j, m := 0, r.Intn(4); j < m; j++ {
					p := simplePacket(r)
					if err = p.MarshalPacketADC(&buf); err != nil {
						panic(err)
					}
					op.apkt = append(op.apkt, p)
				}
				op.data = buf.Bytes()
			}
		case k < 11 && c.kind == 1 && o.msgs && o.bad:
			op.kind = wBadMsg
			a := simpleMsg(r)
			p, _ := nmdc.Marshal(nil, a)
			op.nmsg = []nmdc.Message{a, &nmdc.Quit{Name: "bad$name"}, simpleMsg(r)}
			op.data = p
		case k < 13:
			op.kind = wFlush
		case k < 15 && o.zlib:
			if !on {
				if o.sep && !plainSince {
					continue
				}
				op.kind, op.lvl = wOn, mon.Pick(r, zlevels...)
				if c.kind == 1 && r.Bool() {
					op.kind = wZOn
				}
				on = true
			} else {
				op.kind = wOff
				on, plainSince = false, false
			}
		case o.bad && o.zlib:
			switch r.Intn(4) {
			case 0:
				op.kind, op.lvl = wBadLvl, mon.Pick(r, zbadLevels...)
				if on {
					op.kind = wBadOn
				}
			case 1:
				if on {
					op.kind, op.lvl = wBadOn, mon.Pick(r, zlevels...)
				} else {
					op.kind = wBadOff
				}
			default:
				op.kind, op.lvl = wCheck, r.Range(-4, 12)
			}
		default:
			continue
		}
		if !on && len(op.data) != 0 {
			plainSince = true
		}
		ops = append(ops, op)
	}
	if o.closeAt {
		ops = append(ops, &wOp{kind: wClose})
	}
	return ops
}

func newReaderKind(kind string, rd io.Reader) lineRd {
	switch kind {
	case "nmdc":
		return nmdc.NewReader(rd)
	case "adc":
		return adc.NewReader(rd)
	}
	panic(kind)
}

func newDelimReader(rd io.Reader, delim byte) (lineRd, byte, string) {
	return lineproto.NewReader(rd, delim), delim, "lineproto"
}
