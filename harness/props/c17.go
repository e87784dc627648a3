package props

import (
	"bytes"
	"crypto/sha256"
	"crypto/tls"
	"encoding/hex"
	"encoding/pem"
	"fmt"
	"io"
	"net/url"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"

	"golang.org/x/text/encoding/charmap"

	dc "github.com/direct-connect/go-dc"
	"github.com/direct-connect/go-dc/adc"
	adctypes "github.com/direct-connect/go-dc/adc/types"
	"github.com/direct-connect/go-dc/keyprint"
	"github.com/direct-connect/go-dc/lineproto"
	"github.com/direct-connect/go-dc/nmdc"
	"github.com/direct-connect/go-dc/tiger"

	"verif/harness/gen"
	"verif/harness/mon"
)

func c17() mon.Property {
	return mon.Property{
		ID:   "C17",
		Race: true,
		Rule: "The whole process runs under the Go race detector; a report with a frame of the library in one of the two accesses is a violation. A case runs several connections at once (reader and writer goroutines of both directions, transports with random chunks and yields, messages of a shared pool, so a broadcast encodes the same value in many goroutines) and compares the transcript of each with a sequential run of its script; or runs a shuffled list of codec, registry, address, hash, set and keyprint calls over shared inputs in several goroutines and compares all results with a sequential run afterwards; " +
			"or changes encoders and decoders from another goroutine and checks that each call used an encoding that was current at some point of it (a register linearizability check). Non-trivial: a case with two or more goroutines; distinct by the transcripts, the order of calls, or the observed interleaving of calls and changes.",
		Assume: []string{"a text encoder or decoder object is used by one connection", "messages being written are not modified by the program"},
		Monitors: []mon.Monitor{
			{Name: "connections", Quick: 80, Thorough: 6000, Run: c17Conns},
			{Name: "calls", Quick: 120, Thorough: 10000, Run: c17Calls},
			{Name: "reader-encoding", Quick: 150, Thorough: 10000, Run: c17Reader},
			{Name: "writer-encoding", Quick: 150, Thorough: 10000, Run: c17Writer},
		},
	}
}

// c17Step is a step of a writer script.
type c17Step struct {
	op   byte // m - messages, f - flush, z - compression on, Z - off, k - keep-alive, l - line
	n    []nmdc.Message
	p    adc.Packet
	line []byte
	lvl  int
}

// c17Script is one direction of a connection.
type c17Script struct {
	proto string
	buf   int
	steps []c17Step
	seed  uint64
}

func (s *c17Script) write(out io.Writer, yield *mon.Rand) error {
	step := func(fnc func(st *c17Step) error) error {
		for i := range s.steps {
			if yield != nil && yield.P(1, 3) {
				runtime.Gosched()
			}
			if err := fnc(&s.steps[i]); err != nil {
				return fmt.Errorf("step %d (%c): %v", i, s.steps[i].op, err)
			}
		}
		return nil
	}
	switch s.proto {
	case "nmdc":
		w := nmdc.NewWriterSize(out, s.buf)
		err := step(func(st *c17Step) error {
			switch st.op {
			case 'm':
				return w.WriteMsg(st.n...)
			case 'f':
				return w.Flush()
			case 'z':
				return w.ZOnLevel(st.lvl)
			case 'Z':
				return w.DisableZlib()
			}
			return w.WriteKeepAlive()
		})
		if err != nil {
			return err
		}
		return w.Close()
	case "adc":
		w := adc.NewWriterSize(out, s.buf)
		err := step(func(st *c17Step) error {
			switch st.op {
			case 'm':
				return w.WritePacket(st.p)
			case 'f':
				return w.Flush()
			case 'z':
				if err := w.WriteInfo(adc.ZOn{}); err != nil {
					return err
				}
				return w.EnableZlibLevel(st.lvl)
			case 'Z':
				return w.DisableZlib()
			}
			return w.WriteKeepAlive()
		})
		if err != nil {
			return err
		}
		return w.Close()
	}
	w := lineproto.NewWriterSize(out, s.buf)
	err := step(func(st *c17Step) error {
		switch st.op {
		case 'm':
			return w.WriteLine(st.line)
		case 'f':
			return w.Flush()
		case 'z':
			if err := w.WriteLine([]byte("ZON\n")); err != nil {
				return err
			}
			return w.EnableZlibLevel(st.lvl)
		case 'Z':
			return w.DisableZlib()
		}
		return w.WriteLine([]byte("\n"))
	})
	if err != nil {
		return err
	}
	return w.Close()
}

// read returns a transcript of the stream.
func (s *c17Script) read(in io.Reader, yield *mon.Rand) []string {
	var out []string
	add := func(v interface{}, err error) bool {
		if yield != nil && yield.P(1, 3) {
			runtime.Gosched()
		}
		if err == io.EOF || err == io.ErrUnexpectedEOF {
			out = append(out, "EOF")
			return false
		} else if err != nil {
			// e.g. a raw message that cannot be decoded; messages after it must be readable
			out = append(out, "error: "+err.Error())
			return len(out) < 10000
		}
		out = append(out, dump(v))
		return true
	}
	switch s.proto {
	case "nmdc":
		r := nmdc.NewReader(in)
		defer r.Close()
		r.OnMessage(func(m nmdc.Message) (bool, error) { out = append(out, "hook "+m.Type()); return true, nil })
		for {
			m, err := r.ReadMsg()
			if !add(m, err) {
				return out
			}
			if _, ok := m.(*nmdc.ZOn); ok {
				if err := r.EnableZlib(); err != nil {
					return append(out, "zlib: "+err.Error())
				}
			}
		}
	case "adc":
		r := adc.NewReader(in)
		defer r.Close()
		for {
			p, err := r.ReadPacket()
			if !add(p, err) {
				return out
			}
			if err != nil {
				continue
			}
			if _, ok := p.Message().(adc.ZOn); ok {
				if err := r.EnableZlib(); err != nil {
					return append(out, "zlib: "+err.Error())
				}
			}
		}
	}
	r := lineproto.NewReader(in, '\n')
	defer r.Close()
	for {
		line, err := r.ReadLine()
		if !add(string(line), err) {
			return out
		}
		if string(line) == "ZON\n" {
			if err := r.EnableZlib(); err != nil {
				return append(out, "zlib: "+err.Error())
			}
		}
	}
}

func c17Conns(t *mon.T) {
	r := t.R
	ng, ag := newNGen(r), newAGen(r)
	ng.max = 200
	// messages shared by all connections, as in a broadcast
	var (
		msgs  []nmdc.Message
		packs []adc.Packet
	)
	for len(msgs) < 30 {
		if p := ng.any(); p.in.Type() != "ZOn" {
			msgs = append(msgs, p.in)
		}
	}
	for len(packs) < 30 {
		if p := c16Packet(r, ag); p.Message().Cmd().String() != "ZON" {
			packs = append(packs, p)
		}
	}
	type conn struct {
		s     *c17Script
		p     *gen.Pipe
		got   []string
		werr  error
		wr, r *mon.Rand
	}
	var conns []*conn
	for i, n := 0, 2*(2+r.Intn(4)); i < n; i++ {
		s := &c17Script{proto: mon.Pick(r, "nmdc", "nmdc", "adc", "adc", "line"), buf: mon.Pick(r, 0, 0, 16, 200)}
		z := false
		for j, m := 0, 10+r.Intn(50); j < m; j++ {
			switch {
			case r.P(1, 12):
				st := c17Step{op: 'z', lvl: r.Range(-2, 9)}
				if z {
					st.op = 'Z'
				}
				z = !z
				s.steps = append(s.steps, st)
			case r.P(1, 6):
				s.steps = append(s.steps, c17Step{op: 'f'})
			case r.P(1, 10):
				s.steps = append(s.steps, c17Step{op: 'k'})
			default:
				st := c17Step{op: 'm', p: packs[r.Intn(len(packs))], line: []byte(strings.Replace(gen.Text(r, 3000, ""), "\n", " ", -1) + "\n")}
				for k, n := 0, 1+r.Intn(3); k < n; k++ {
					st.n = append(st.n, msgs[r.Intn(len(msgs))])
				}
				if string(st.line) == "ZON\n" {
					continue
				}
				s.steps = append(s.steps, st)
			}
		}
		conns = append(conns, &conn{s: s, p: gen.NewPipe(r), wr: r.Fork(), r: r.Fork()})
	}
	var fns []func()
	start := make(chan struct{})
	for _, c := range conns {
		c := c
		fns = append(fns, func() {
			<-start
			defer c.p.Close()
			c.werr = c.s.write(c.p, c.wr)
		}, func() {
			<-start
			defer c.p.Discard()
			c.got = c.s.read(c.p, c.r)
		})
	}
	fns = append(fns, func() { close(start) })
	t.Par(fns...)
	var seen strings.Builder
	for i, c := range conns {
		fmt.Fprintln(&seen, mon.HashStr(strings.Join(c.got, "\n")))
		if c.werr != nil {
			t.Failf("write", "connection %d (%s): %v", i, c.s.proto, c.werr)
		}
		var buf bytes.Buffer
		if err := c.s.write(&buf, nil); err != nil {
			t.Failf("write", "sequential run of connection %d (%s): %v", i, c.s.proto, err)
		}
		want := c.s.read(&buf, nil)
		t.Eval(len(want))
		t.Ev("messages compared", len(want))
		if len(want) == 0 || want[len(want)-1] != "EOF" {
			t.Failf("sequential", "connection %d (%s): %q", i, c.s.proto, want)
		}
		for j := 0; j < len(want) || j < len(c.got); j++ {
			if j >= len(want) || j >= len(c.got) || want[j] != c.got[j] {
				g, w := "nothing", "nothing"
				if j < len(c.got) {
					g = c.got[j]
				}
				if j < len(want) {
					w = want[j]
				}
				t.Failf("transcript", "connection %d (%s) of %d, item %d:\n   concurrent %s\n   sequential %s", i, c.s.proto, len(conns), j, g, w)
			}
		}
	}
	t.Ev("connections", len(conns))
	t.Ev("goroutines", 2*len(conns))
	t.Seen(seen.String())
	t.Sample(func() string {
		var kinds []string
		for _, c := range conns {
			kinds = append(kinds, fmt.Sprintf("%s: %d steps, %d items read", c.s.proto, len(c.s.steps), len(c.got)))
		}
		return strings.Join(kinds, "; ")
	})
}

// c17Call is a function without side effects over shared inputs.
type c17Call struct {
	name string
	fnc  func() string
}

func c17Calls(t *mon.T) {
	r := t.R
	ng, ag := newNGen(r), newAGen(r)
	ng.max = 200
	var calls []c17Call
	add := func(name string, fnc func() string) { calls = append(calls, c17Call{name, fnc}) }
	res := func(v interface{}, err error) string {
		if err != nil {
			return "error: " + err.Error()
		}
		return dump(v)
	}
	for i := 0; i < 12; i++ {
		p := ng.any()
		m := p.in
		wire, err := nmdc.Marshal(nil, m)
		if err != nil {
			t.Failf("marshal", "%v", err)
		}
		payload := bytes.TrimSuffix(wire, []byte("|"))
		if m.Type() != "" {
			payload = nil
			if j := bytes.IndexByte(wire, ' '); j >= 0 {
				payload = bytes.TrimSuffix(wire[j+1:], []byte("|"))
			}
		}
		typ := m.Type()
		add("nmdc.Marshal", func() string { b, err := nmdc.Marshal(nil, m); return sortedBytes(b) + res(nil, err) })
		add("nmdc.MarshalNMDC", func() string {
			var buf bytes.Buffer
			err := m.MarshalNMDC(charmap.Windows1251.NewEncoder(), &buf)
			return sortedBytes(buf.Bytes()) + res(nil, err)
		})
		add("nmdc.Unmarshal", func() string { return res(nmdc.Unmarshal(nil, wire)) })
		add("nmdc.UnmarshalNMDC", func() string {
			m := nmdc.NewMessage(typ)
			if err := m.UnmarshalNMDC(charmap.Windows1251.NewDecoder(), payload); err != nil {
				return "error: " + err.Error()
			}
			return dump(m)
		})
		add("nmdc registry", func() string {
			arr := append([]string{}, nmdc.RegisteredTypes()...)
			sort.Strings(arr)
			return fmt.Sprint(nmdc.IsRegistered(typ), nmdc.IsRegisteredBytes([]byte(typ)), nmdc.IsRegistered("Zzz"), arr, nmdc.NewMessage(typ).Type())
		})
	}
	text := []byte(gen.Text(r, 300, ""))
	add("nmdc.UnescapeBytes", func() string { return string(nmdc.UnescapeBytes(text)) })
	lock := &nmdc.Lock{Lock: "EXTENDEDPROTOCOL" + gen.Text(r, 40, " "), PK: "x", Ref: "h"}
	magic := byte(r.Intn(256))
	add("Lock.Key", func() string { return dump(lock.Key(), lock.CustomKey(magic, true), lock.LockString(true)) })
	e1, e2 := nmdc.Extensions{}, nmdc.Extensions{}
	s1, s2 := &nmdc.Supports{Ext: extSub(r)}, &nmdc.Supports{Ext: extSub(r)}
	for _, k := range extSub(r) {
		e1.Set(k)
	}
	for _, k := range extSub(r) {
		e2.Set(k)
	}
	add("nmdc sets", func() string {
		l, x := append([]string{}, e1.List()...), s1.Intersect(s2).Ext
		sort.Strings(l)
		sort.Strings(x)
		return dump(l, e1.Has("TLS"), e1.Clone(), e1.Intersect(e2), e2.IntersectList(s1.Ext), x)
	})
	for i := 0; i < 12; i++ {
		am := ag.any()
		var buf bytes.Buffer
		if err := adc.Marshal(&buf, am.m); err != nil {
			t.Failf("marshal", "%v", err)
		}
		data := buf.Bytes()
		p := adcPacket(ag, adcKinds[r.Intn(len(adcKinds))], am.m)
		var line bytes.Buffer
		if err := p.MarshalPacketADC(&line); err != nil {
			t.Failf("marshal", "%v", err)
		}
		add("adc.Marshal", func() string {
			var buf bytes.Buffer
			err := adc.Marshal(&buf, am.m)
			return sortedBytes(buf.Bytes()) + res(nil, err)
		})
		add("adc.MustMarshal", func() string { return sortedBytes(adc.MustMarshal(am.m)) })
		add("adc.Unmarshal", func() string { v := am.new(); err := adc.Unmarshal(data, v); return res(v, err) })
		add("adc.UnmarshalMessage", func() string { return res(adc.UnmarshalMessage(am.m.Cmd(), data)) })
		add("MarshalPacketADC", func() string {
			var buf bytes.Buffer
			err := p.MarshalPacketADC(&buf)
			return sortedBytes(buf.Bytes()) + res(nil, err)
		})
		add("adc.DecodePacket", func() string {
			p, err := adc.DecodePacket(line.Bytes())
			if err != nil {
				return "error: " + err.Error()
			}
			return dump(p)
		})
		add("adc.DecodePacketRaw", func() string {
			p, err := adc.DecodePacketRaw(line.Bytes())
			if err != nil {
				return "error: " + err.Error()
			}
			v := am.new()
			raw, _ := p.Message().(*adc.RawMessage)
			d := dump(p)
			if m, ok := v.(adc.Message); ok && raw != nil && m.Cmd() == raw.Type {
				err = p.DecodeMessageTo(m)
				d += res(v, err)
			}
			return d
		})
	}
	mod := func() adc.ModFeatures {
		f := adc.ModFeatures{}
		for i, n := 0, r.Intn(6); i < n; i++ {
			f[adc.Feature{'F', 'E', 'A', '0' + byte(r.Intn(9))}] = r.Bool()
		}
		return f
	}
	fa, fb := mod(), mod()
	add("adc sets", func() string {
		return dump(fa.Clone(), fa.SetFrom(fb), fa.Intersect(fb), sortedBytes([]byte(fa.Join())))
	})
	st := adc.Status{Sev: adc.Severity(r.Intn(3)), Code: r.Intn(100), Msg: gen.Text(r, 20, "")}
	user := adc.UserInfo{Version: gen.Text(r, 20, "") + " 1." + fmt.Sprint(r.Intn(9))}
	group := adc.ExtGroup(r.Intn(64))
	file := "a." + mon.Pick(r, "b.", "") + mon.Pick(r, "mp3", "MP3", "Avi", "JPG", "txt", "tar.GZ", "xyz", "Xyz", fmt.Sprintf("X%d", r.Intn(1000)))
	add("adc values", func() string {
		u := user
		u.Normalize()
		f := adc.ExtFeatures{{'A', 'B', 'C', 'D'}}
		return fmt.Sprint(group.Matches(file), adc.ExtAudio.Matches("a.MP3"), adc.ExtGroup(0x3f).Matches(file), group.Has(adc.ExtImage), dump(u), adc.UserTypeBot.Is(adc.UserTypeBot), f.Has(adc.Feature{'A', 'B', 'C', 'E'}))
	})
	add("adc.Status", func() string { return fmt.Sprint(st.Ok(), st.Recoverable(), st.Err()) })
	for i := 0; i < 6; i++ {
		addr := mon.Pick(r, "", "adc://", "ADCS://", "dchub://", "nmdcs://", "NMDC://", "xyz://") + mon.Pick(r, "Hub.Example.org", "1.2.3.4", "[::1]", "") + mon.Pick(r, ":411", ":5000", "", ":x") + mon.Pick(r, "", "/", "//", "/a?kp=SHA256/ABC#f")
		add("address", func() string {
			u, err := dc.ParseAddr(addr)
			kp := ""
			if err == nil {
				kp = keyprint.FromURL(u)
			}
			return res(u, err) + kp + fmt.Sprint(dc.NormalizeAddr(addr)) + fmt.Sprint(nmdc.NormalizeAddr(addr)) + fmt.Sprint(adc.NormalizeAddr(addr))
		})
		u := &url.URL{Scheme: "adcs", Host: "a:1", RawQuery: "x=1&kp=SHA256%2FA" + fmt.Sprint(i)}
		add("keyprint.FromURL", func() string { return keyprint.FromURL(u) })
	}
	content := r.Bytes(mon.Pick(r, 0, 1, 1023, 1024, 1025, 5000, 1<<17+3))
	leaves, err := tiger.TreeLeaves(bytes.NewReader(content))
	if err != nil {
		t.Failf("leaves", "%v", err)
	}
	add("tiger tree", func() string {
		a, err := tiger.TreeHash(bytes.NewReader(content))
		b, err2 := tiger.TreeLeaves(bytes.NewReader(content))
		return dump(a, err, b, err2)
	})
	if len(content) != 0 {
		add("Leaves.TreeHash", func() string { return dump(leaves.TreeHash(), leaves) })
	}
	add("tiger", func() string {
		h := tiger.New()
		h.Write(content)
		x := tiger.HashBytes(content)
		b, _ := x.MarshalText()
		var y tiger.Hash
		err := y.FromBase32(x.Base32())
		return dump(h.Sum(nil), x, x.Hex(), string(b), y, err, x.IsZero())
	})
	cid := adctypes.CID(tiger.HashBytes(content))
	num := uint32(r.Intn(1 << 20))
	add("ids", func() string {
		var c adctypes.CID
		err := c.FromBase32(cid.Base32())
		var sid adctypes.SID
		err2 := sid.UnmarshalADC([]byte(adctypes.SIDFromInt(num).String()))
		return dump(c, err, sid, err2, cid.Hash())
	})
	add("NewPID", func() string {
		a, err := adctypes.NewPID()
		b, err2 := adctypes.NewPID()
		return fmt.Sprint(err, err2, a == b)
	})
	cert := tls.Certificate{Certificate: [][]byte{r.Bytes(100), r.Bytes(0), r.Bytes(3000)}}
	var pemFile bytes.Buffer
	for _, c := range cert.Certificate {
		_ = pem.Encode(&pemFile, &pem.Block{Type: mon.Pick(r, "CERTIFICATE", "PRIVATE KEY"), Bytes: c})
	}
	add("keyprint", func() string {
		kps, err := keyprint.FromFile(bytes.NewReader(pemFile.Bytes()))
		h := sha256.Sum256(content)
		return dump(keyprint.FromCertificate(cert), keyprint.FromBytes(content), kps, err, hex.EncodeToString(h[:]))
	})

	n := 3 + r.Intn(4)
	got := make([][]string, n)
	var seen strings.Builder
	start := make(chan struct{})
	var fns []func()
	for g := 0; g < n; g++ {
		g := g
		order := r.Perm(len(calls))
		fmt.Fprintln(&seen, order)
		got[g] = make([]string, len(calls))
		rr := r.Fork()
		fns = append(fns, func() {
			<-start
			for _, i := range order {
				if rr.P(1, 8) {
					runtime.Gosched()
				}
				got[g][i] = calls[i].fnc()
			}
		})
	}
	fns = append(fns, func() { close(start) })
	t.Par(fns...)
	for i, c := range calls {
		want := c.fnc()
		for g := range got {
			t.Eval(1)
			if got[g][i] != want {
				t.Failf("result-"+c.name, "%s in one of %d goroutines:\n   concurrent %s\n   sequential %s", c.name, n, got[g][i], want)
			}
		}
	}
	t.Ev("calls compared", n*len(calls))
	t.Ev("goroutines", n)
	t.Seen(seen.String())
	t.Sample(func() string {
		return fmt.Sprintf("%d goroutines, %d calls in the orders %v", n, len(calls), seen.String())
	})
}

var c17Maps = []*charmap.Charmap{charmap.Windows1251, charmap.Windows1252, charmap.KOI8R, charmap.ISO8859_2}

// c17Span is a range of versions of the encoding that were current during a call.
type c17Span struct{ lo, hi int64 }

func c17Reader(t *mon.T) {
	r := t.R
	const raw = "éЖñ" // valid in all encodings, and without any
	want := make([]string, len(c17Maps)+1)
	want[len(c17Maps)] = raw
	decoder := func(v int64) *nmdc.TextDecoder {
		i := int(v) % len(want)
		if i == len(c17Maps) {
			return nil
		}
		return c17Maps[i].NewDecoder()
	}
	for i, c := range c17Maps {
		s, err := c.NewDecoder().String(raw)
		if err != nil {
			t.Failf("harness", "%v", err)
		}
		want[i] = s
	}
	n := 50 + r.Intn(200)
	tracked := r.Bool() // versions order the goroutines, so some cases are run without
	var data bytes.Buffer
	for i := 0; i < n; i++ {
		fmt.Fprintf(&data, mon.Pick(r, "<%s> %s|", "<a%s> %s x|"), raw, raw)
	}
	rd := nmdc.NewReader(gen.NewReader(r, data.Bytes()))
	rd.SetDecoder(c17Maps[0].NewDecoder())
	var (
		started, done int64 // versions of the decoder
		stop          = make(chan struct{})
		got           = make([]nmdc.Message, 0, n)
		spans         = make([]c17Span, 0, n)
		rerr          error
		changes       int
	)
	rr, rw := r.Fork(), r.Fork()
	t.Par(func() {
		defer close(stop)
		for i := 0; i < n; i++ {
			var s c17Span
			if tracked {
				s.lo = atomic.LoadInt64(&done)
			}
			m, err := rd.ReadMsg()
			if tracked {
				s.hi = atomic.LoadInt64(&started)
			}
			if err != nil {
				rerr = err
				return
			}
			got = append(got, m)
			spans = append(spans, s)
			if rr.P(1, 4) {
				runtime.Gosched()
			}
		}
	}, func() {
		for v := int64(1); ; v++ {
			if tracked {
				atomic.StoreInt64(&started, v)
			}
			dec := decoder(v)
			rd.SetDecoder(dec)
			if rw.P(1, 4) && rd.Decoder() != dec {
				panic(&mon.Failure{Sig: "decoder", Msg: "Decoder does not return the value of SetDecoder"})
			}
			if tracked {
				atomic.StoreInt64(&done, v)
			}
			changes++
			if rw.P(1, 2) {
				runtime.Gosched()
			}
			select {
			case <-stop:
				return
			default:
			}
		}
	})
	if rerr != nil {
		t.Failf("read", "message %d of %d: %v", len(got), n, rerr)
	}
	multi := 0
	for i, m := range got {
		t.Eval(1)
		c, ok := m.(*nmdc.ChatMessage)
		if !ok {
			t.Failf("type", "%s", dump(m))
		}
		name, text := strings.TrimPrefix(c.Name, "a"), strings.TrimSuffix(c.Text, " x")
		if name != text {
			t.Failf("mixed", "one message decoded with two encodings: %q %q", c.Name, c.Text)
		}
		if !tracked {
			if !contains(want, text) {
				t.Failf("value", "message %d is %q, which is not %q in any of the encodings", i, text, raw)
			}
			continue
		}
		ok = false
		for v := spans[i].lo; v <= spans[i].hi && v < spans[i].lo+int64(len(want)); v++ {
			ok = ok || text == want[int(v)%len(want)]
		}
		if spans[i].lo != spans[i].hi {
			multi++
		}
		if !ok {
			t.Failf("stale", "message %d is %q, but the decoder had versions %d..%d during the read (%q)", i, text, spans[i].lo, spans[i].hi, want)
		}
	}
	t.Ev("messages read", n)
	t.Ev("decoder changes", changes)
	t.Ev("reads overlapping a change", multi)
	t.Seen(fmt.Sprint(tracked, spans)) // the interleaving of reads and changes
	t.Sample(func() string {
		return fmt.Sprintf("%d reads, %d changes of the decoder, versions current during each read: %v", n, changes, spans)
	})
}

func contains(arr []string, s string) bool {
	for _, v := range arr {
		if v == s {
			return true
		}
	}
	return false
}

func c17Writer(t *mon.T) {
	r := t.R
	// representable in all encodings, but different bytes
	maps := []*charmap.Charmap{charmap.Windows1251, charmap.KOI8R, charmap.CodePage866, charmap.ISO8859_5}
	const text = "Привет"
	want := make([]string, len(maps)+1)
	want[len(maps)] = text // without an encoder
	encoder := func(v int64) *nmdc.TextEncoder {
		i := int(v) % len(want)
		if i == len(maps) {
			return nil
		}
		return maps[i].NewEncoder()
	}
	for i, c := range maps {
		s, err := c.NewEncoder().String(text)
		if err != nil {
			t.Failf("harness", "%v", err)
		}
		want[i] = s
	}
	n := 50 + r.Intn(200)
	tracked := r.Bool()
	var out bytes.Buffer
	w := nmdc.NewWriterSize(&out, mon.Pick(r, 0, 16, 100))
	w.SetEncoder(maps[0].NewEncoder())
	var (
		started, done int64
		stop          = make(chan struct{})
		spans         []c17Span
		werr          error
		changes       int
	)
	rr, rw := r.Fork(), r.Fork()
	t.Par(func() {
		defer close(stop)
		for i := 0; i < n; i++ {
			var s c17Span
			k := 1 + rr.Intn(2)
			var arr []nmdc.Message
			for j := 0; j < k; j++ {
				arr = append(arr, &nmdc.ChatMessage{Name: text, Text: text})
			}
			if tracked {
				s.lo = atomic.LoadInt64(&done)
			}
			err := w.WriteMsg(arr...)
			if tracked {
				s.hi = atomic.LoadInt64(&started)
			}
			if err != nil {
				werr = err
				return
			}
			for j := 0; j < k; j++ {
				spans = append(spans, s)
			}
			if rr.P(1, 4) {
				runtime.Gosched()
			}
		}
		werr = w.Flush()
	}, func() {
		for v := int64(1); ; v++ {
			if tracked {
				atomic.StoreInt64(&started, v)
			}
			enc := encoder(v)
			w.SetEncoder(enc)
			if rw.P(1, 4) && w.Encoder() != enc {
				panic(&mon.Failure{Sig: "encoder", Msg: "Encoder does not return the value of SetEncoder"})
			}
			if tracked {
				atomic.StoreInt64(&done, v)
			}
			changes++
			if rw.P(1, 2) {
				runtime.Gosched()
			}
			select {
			case <-stop:
				return
			default:
			}
		}
	})
	if werr != nil {
		t.Failf("write", "%v", werr)
	}
	parts := strings.SplitAfter(out.String(), "|")
	parts = parts[:len(parts)-1]
	if len(parts) != len(spans) {
		t.Failf("count", "%d messages for %d written", len(parts), len(spans))
	}
	multi := 0
	for i, p := range parts {
		t.Eval(1)
		ver := -1
		for j, s := range want {
			if p == "<"+s+"> "+s+"|" {
				ver = j
			}
		}
		if ver < 0 {
			t.Failf("value", "message %d %q is not %q in any of the encodings", i, p, text)
		}
		if !tracked {
			continue
		}
		ok := false
		for v := spans[i].lo; v <= spans[i].hi && v < spans[i].lo+int64(len(want)); v++ {
			ok = ok || ver == int(v)%len(want)
		}
		if spans[i].lo != spans[i].hi {
			multi++
		}
		if !ok {
			t.Failf("stale", "message %d is in the encoding %d, but the encoder had versions %d..%d during the write", i, ver, spans[i].lo, spans[i].hi)
		}
	}
	t.Ev("messages written", len(parts))
	t.Ev("encoder changes", changes)
	t.Ev("writes overlapping a change", multi)
	t.Seen(fmt.Sprint(tracked, spans)) // the interleaving of writes and changes
	t.Sample(func() string {
		return fmt.Sprintf("%d writes, %d changes of the encoder, versions current during each write: %v", len(parts), changes, spans)
	})
}
