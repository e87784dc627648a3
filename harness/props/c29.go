package props

import (
	"bytes"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"testing/iotest"
	"time"
	"unsafe"

	"golang.org/x/text/encoding/charmap"

	dc "github.com/direct-connect/go-dc"
	"github.com/direct-connect/go-dc/adc"
	adctypes "github.com/direct-connect/go-dc/adc/types"
	"github.com/direct-connect/go-dc/keyprint"
	"github.com/direct-connect/go-dc/lineproto"
	"github.com/direct-connect/go-dc/nmdc"
	"github.com/direct-connect/go-dc/tiger"

	"verif/harness/gen"
	"verif/harness/mon"
)

func c29() mon.Property {
	return mon.Property{
		ID: "C29",
		Rule: "growth: a valid or hostile message, packet, address or file in which a token is repeated to 4 KiB and to 64 KiB is decoded and encoded again; bytes allocated must stay below 400 per byte of input (plus 256 KiB) and grow in proportion, CPU time of the thread must not grow like a square (suspects are measured again at 256 KiB and 1 MiB, best of 3). " +
			"announced: every numeric field, and the length of a binary section, announces values up to 2^64; bytes allocated depend only on the number of bytes received. " +
			"retained: tens of thousands of different messages, names, commands, errors, switches of compression or encodings, hashes and abandoned connections are processed by one long-lived reader, writer or function; live heap after two collections may not grow by more than 192 KiB after a warm-up, the last messages must not cost more than the first ones, and no goroutine is left. Non-trivial: every case; distinct by input and by scenario.",
		Assume: []string{"bounds are far above what the code uses and far below quadratic or unbounded growth", "caches of a bounded size are allowed, if they are full after the warm-up"},
		Monitors: []mon.Monitor{
			{Name: "growth", Quick: 5000, Thorough: 60000, Serial: true, Run: c29Growth},
			{Name: "announced", Quick: 3000, Thorough: 20000, Serial: true, Run: c29Announced},
			{Name: "retained", Quick: len(c29Scenarios)/3 + 1, Thorough: 8 * len(c29Scenarios), Serial: true, Run: c29Retained},
		},
	}
}

// c29Calls are single calls that are repeated with different arguments; each function makes its long-lived objects.
var c29Calls = map[string]func() func(i int){
	"nmdc.Reader.SetDecoder": func() func(i int) {
		rd := nmdc.NewReader(&feed{next: func(i int, buf *bytes.Buffer) { buf.WriteString("$Hello x|") }})
		return func(i int) {
			rd.SetDecoder(charmap.Windows1251.NewDecoder())
			_ = rd.Decoder()
			rd.SetMaxLine(100 + i)
			rd.SetMaxCmdName(100 + i)
			_, _ = rd.ReadMsg()
		}
	},
	"nmdc.Writer.SetEncoder": func() func(i int) {
		w := nmdc.NewWriter(ioutil.Discard)
		return func(i int) {
			w.SetEncoder(charmap.Windows1251.NewEncoder())
			_ = w.Encoder()
			_ = w.WriteMsg(&nmdc.Hello{Name: "x"})
		}
	},
	"nmdc.Writer.WriteKeepAlive": func() func(i int) {
		w := nmdc.NewWriter(ioutil.Discard)
		return func(i int) {
			_ = w.WriteKeepAlive()
			_ = w.Flush()
			_ = w.CheckZlibLevel(i % 9)
			_ = w.Err()
		}
	},
	"nmdc.Writer refused": func() func(i int) {
		w := nmdc.NewWriter(ioutil.Discard)
		w.SetEncoder(charmap.Windows1251.NewEncoder())
		return func(i int) {
			u := uniq(i)
			_ = w.WriteMsg(&nmdc.Hello{Name: nmdc.Name(u + "$\x00")}, &nmdc.Hello{Name: nmdc.Name(u + "日")}, &nmdc.MyINFO{Name: u + "|"})
			_ = w.Flush()
		}
	},
	"nmdc.Writer hook drops": func() func(i int) {
		w := nmdc.NewWriter(ioutil.Discard)
		w.OnLine(func(line []byte) (bool, error) { return false, nil })
		return func(i int) {
			_ = w.WriteMsg(&nmdc.Hello{Name: nmdc.Name(uniq(i))})
			_ = w.Flush()
		}
	},
	"adc.Writer refused": func() func(i int) {
		w := adc.NewWriter(ioutil.Discard)
		return func(i int) {
			_ = w.WriteInfo(&adc.RawMessage{Type: adc.MsgType{'A', 'B', 'C'}, Data: []byte(uniq(i) + "\n")})
			_ = w.WriteKeepAlive()
			_ = w.Flush()
		}
	},
	"adc.Writer streams": func() func(i int) {
		w := adc.NewWriter(ioutil.Discard)
		return func(i int) {
			id := adctypes.SIDFromInt(uint32(i))
			for _, s := range []adc.WriteStream{w.HubStream(), w.InfoStream(), w.ClientStream(), w.BroadcastStream(id), w.DirectStream(id, id), w.EchoStream(id, id), w.FeatureStream(id, []adc.FeatureSel{{Fea: feaOf(i), Sel: true}})} {
				_ = s.WriteMessage(adc.ChatMessage{Text: "x"})
			}
		}
	},
	"lineproto.Reader.Binary": func() func(i int) {
		rd := lineproto.NewReader(strings.NewReader("abc"), '|')
		return func(i int) {
			b, err := rd.Binary(0)
			if err == nil {
				_, _ = b.Read(make([]byte, 1))
				_ = b.Close()
			}
		}
	},
	"lineproto.Reader failing": func() func(i int) {
		rd := lineproto.NewReader(&feed{next: func(i int, buf *bytes.Buffer) { buf.WriteString(uniq(i)) }}, '|')
		rd.SetMaxLine(100)
		return func(i int) { _, _ = rd.ReadLine() }
	},
	"failed connections": func() func(i int) {
		return func(i int) {
			f := &c29Failing{err: errors.New(strings.Repeat(uniq(i), 40)), data: []byte("$Hello " + uniq(i) + "|$Foo|")}
			w := nmdc.NewWriter(f)
			_ = w.WriteMsg(nmdcItem(i))
			_ = w.Flush()
			_ = w.Close()
			w2 := adc.NewWriter(f)
			_ = w2.WritePacket(adcItemPacket(i))
			_ = w2.DisableZlib()
			_ = w2.Flush()
			w3 := lineproto.NewWriter(ioutil.Discard)
			w3.Timeout = func(bool) error { return f.err }
			_ = w3.WriteLine(f.data)
			w4 := lineproto.NewWriter(ioutil.Discard)
			w4.OnLine(func([]byte) (bool, error) { return false, f.err })
			_ = w4.WriteLine(f.data)
			_ = w4.Err()
			rd := nmdc.NewReader(f)
			rd.OnMessage(func(m nmdc.Message) (bool, error) { return true, nil })
			for k := 0; k < 4; k++ {
				_, _ = rd.ReadMsg()
			}
			rd2 := adc.NewReader(f)
			_, _ = rd2.ReadPacket()
			_ = rd2.EnableZlib()
			_, _ = tiger.TreeHash(f)
			_, _ = keyprint.FromFile(f)
		}
	},
	"lineproto.Writer failing": func() func(i int) {
		w := lineproto.NewWriter(&gen.Writer{FailAt: 0})
		return func(i int) {
			_ = w.WriteLine([]byte(uniq(i)))
			_ = w.Flush()
			_ = w.EnableZlib()
		}
	},
	"lineproto.Reader.EnableZlib refused": func() func(i int) {
		rd := lineproto.NewReader(&feed{next: func(i int, buf *bytes.Buffer) { buf.WriteString("not zlib|") }}, '|')
		return func(i int) {
			_ = rd.EnableZlib()
			_, _ = rd.ReadLine()
		}
	},
	"nmdc.NewMessage":    func() func(i int) { return func(i int) { _ = nmdc.NewMessage(uniq(i)) } },
	"nmdc.IsRegistered":  func() func(i int) { return func(i int) { _ = nmdc.IsRegistered(uniq(i)) } },
	"nmdc.IsRegistered2": func() func(i int) { return func(i int) { _ = nmdc.IsRegisteredBytes([]byte(uniq(i))) } },
	"nmdc.Lock.Key":      func() func(i int) { return func(i int) { _ = (&nmdc.Lock{Lock: uniq(i)}).Key() } },
	"nmdc.UnescapeBytes": func() func(i int) {
		return func(i int) { _ = nmdc.UnescapeBytes([]byte(uniq(i) + "&#124;/%DCN036%/")) }
	},
	"nmdc.NormalizeAddr": func() func(i int) { return func(i int) { _, _ = nmdc.NormalizeAddr(uniq(i) + ".org") } },
	"adc.NormalizeAddr":  func() func(i int) { return func(i int) { _, _ = adc.NormalizeAddr("adc://" + uniq(i) + ".org") } },
	"dc.NormalizeAddr":   func() func(i int) { return func(i int) { _, _ = dc.NormalizeAddr("adcs://" + uniq(i) + ".org:1") } },
	"dc.ParseAddr":       func() func(i int) { return func(i int) { _, _ = dc.ParseAddr(uniq(i) + "://a.b") } },
	"keyprint.FromBytes": func() func(i int) { return func(i int) { _ = keyprint.FromBytes([]byte(uniq(i))) } },
	"tiger.HashBytes":    func() func(i int) { return func(i int) { _ = tiger.HashBytes([]byte(uniq(i))) } },
	"tiger.TreeHash":     func() func(i int) { return func(i int) { _, _ = tiger.TreeHash(strings.NewReader(uniq(i))) } },
	"nmdc.Extensions":    func() func(i int) { return func(i int) { _ = nmdc.Extensions{uniq(i): {}}.List() } },
	"adc.UnmarshalMessage unknown": func() func(i int) {
		return func(i int) { _, _ = adc.UnmarshalMessage(adc.MsgType{'X', 'Y', 'Z'}, []byte(uniq(i))) }
	},
	"adc.UnmarshalMessage refused": func() func(i int) {
		return func(i int) {
			_, _ = adc.UnmarshalMessage(adc.MsgType{'G', 'E', 'T'}, []byte(uniq(i)))
			_, _ = adc.UnmarshalMessage(adc.MsgType{'S', 'C', 'H'}, []byte("TR"+uniq(i)))
		}
	},
	"adc.Unmarshal fields": func() func(i int) {
		return func(i int) {
			m := make(adc.Fields, 0)
			_ = adc.Unmarshal([]byte(string(feaPair(i))+uniq(i)+" NI"+uniq(i)), &m)
			_ = adc.Unmarshal([]byte(string(feaPair(i))+uniq(i)+" NI"+uniq(i)), &adc.UserInfo{})
		}
	},
	"types of SID and CID": func() func(i int) {
		return func(i int) {
			_ = adctypes.SIDFromInt(uint32(i)).String()
			_ = adctypes.SIDFromString("ABCD")
			var id adc.CID
			_ = id.FromBase32(tiger.HashBytes([]byte(uniq(i))).Base32())
			_ = id.String()
			_ = id.FromBase32(uniq(i))
			_ = id.Hash()
		}
	},
	"NewPID": func() func(i int) {
		return func(i int) {
			if i%10 == 0 {
				_, _ = adctypes.NewPID()
			}
		}
	},
	"adc.ModFeatures": func() func(i int) {
		f := adc.ModFeatures{}
		return func(i int) {
			_ = f.SetFrom(adc.ModFeatures{feaOf(i): i%2 == 0}).Clone().Intersect(adc.ModFeatures{feaOf(i): true}).Join()
			_ = f.IsSet(feaOf(i))
		}
	},
	"adc.Status.Err": func() func(i int) {
		return func(i int) {
			if err := (adc.Status{Sev: adc.Fatal, Code: i % 60, Msg: uniq(i)}).Err(); err != nil {
				_ = err.Error()
			}
		}
	},
}

func feaPair(i int) []byte {
	f := feaOf(i)
	return f[:2]
}

func init() {
	var names []string
	for name := range c29Calls {
		names = append(names, name)
	}
	sort.Strings(names)
	for _, name := range names {
		mk := c29Calls[name]
		c29Scenarios = append(c29Scenarios, c29Scenario{name: name, items: 40000, start: func(r *mon.Rand) (func(i int) error, func()) {
			fnc := mk()
			return func(i int) error { fnc(i); return nil }, func() { runtime.KeepAlive(fnc) }
		}})
	}
	nmdcRead := func(name string, next func(i int, buf *bytes.Buffer)) {
		c29Scenarios = append(c29Scenarios, c29Scenario{name: name, items: 40000, start: func(r *mon.Rand) (func(i int) error, func()) {
			rd := nmdc.NewReader(&feed{next: next})
			return func(i int) error {
				if _, err := rd.ReadMsg(); err == io.EOF {
					return err
				}
				return nil
			}, func() { _ = rd.Close() }
		}})
	}
	for k := 0; k < 20; k++ {
		k := k
		nmdcRead(fmt.Sprintf("nmdc reader, item %d", k), func(i int, buf *bytes.Buffer) {
			b, err := nmdc.Marshal(nil, nmdcItem(20*i+k))
			if err != nil {
				b = []byte("|")
			}
			buf.Write(b)
		})
		c29Scenarios = append(c29Scenarios, c29Scenario{name: fmt.Sprintf("nmdc writer, item %d", k), items: 40000, start: func(r *mon.Rand) (func(i int) error, func()) {
			w := nmdc.NewWriter(ioutil.Discard)
			return func(i int) error {
				_ = w.WriteMsg(nmdcItem(20*i + k))
				return nil
			}, func() { _ = w.Close() }
		}})
	}
	for k := 0; k < 5; k++ {
		k := k
		nmdcRead(fmt.Sprintf("nmdc reader, malformed %d", k), func(i int, buf *bytes.Buffer) { nmdcLine((5*i+k)*50+49, buf) })
	}
	adcRead := func(name string, next func(i int, buf *bytes.Buffer)) {
		c29Scenarios = append(c29Scenarios, c29Scenario{name: name, items: 40000, start: func(r *mon.Rand) (func(i int) error, func()) {
			rd := adc.NewReader(&feed{next: next})
			return func(i int) error {
				p, err := rd.ReadPacket()
				if err == io.EOF {
					return err
				} else if err == nil && p != nil {
					c29Packet(p)
				}
				return nil
			}, func() { _ = rd.Close() }
		}})
	}
	for k := 0; k < 12; k++ {
		k := k
		adcRead(fmt.Sprintf("adc reader, item %d", k), func(i int, buf *bytes.Buffer) { _ = adcItemPacket(12*i + k).MarshalPacketADC(buf) })
		c29Scenarios = append(c29Scenarios, c29Scenario{name: fmt.Sprintf("adc writer, item %d", k), items: 40000, start: func(r *mon.Rand) (func(i int) error, func()) {
			w := adc.NewWriter(ioutil.Discard)
			return func(i int) error {
				_ = w.WritePacket(adcItemPacket(12*i + k))
				return nil
			}, func() { _ = w.Close() }
		}})
	}
	for k := 0; k < 4; k++ {
		k := k
		adcRead(fmt.Sprintf("adc reader, malformed %d", k), func(i int, buf *bytes.Buffer) { adcLines((4*i+k)*50+49, buf) })
	}
}

// cost is what a call used.
type cost struct {
	alloc int64
	cpu   time.Duration
}

// threadCPU is CPU time of the current thread.
func threadCPU() time.Duration {
	var ts syscall.Timespec
	if _, _, e := syscall.RawSyscall(syscall.SYS_CLOCK_GETTIME, 3, uintptr(unsafe.Pointer(&ts)), 0); e != 0 { // CLOCK_THREAD_CPUTIME_ID
		return 0
	}
	return time.Duration(ts.Nano())
}

// measure runs a function and returns its cost. It must be called from a serial monitor.
func measure(fnc func()) cost {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	c0 := threadCPU()
	fnc()
	c1 := threadCPU()
	runtime.ReadMemStats(&b)
	return cost{alloc: int64(b.TotalAlloc - a.TotalAlloc), cpu: c1 - c0}
}

func (c *cost) best(d cost) {
	if d.alloc < c.alloc {
		c.alloc = d.alloc
	}
	if d.cpu < c.cpu {
		c.cpu = d.cpu
	}
}

func measureBest(n int, fnc func()) cost {
	c := measure(fnc)
	for i := 1; i < n; i++ {
		c.best(measure(fnc))
	}
	return c
}

// c29Target processes some data; it makes everything it needs from the data.
type c29Target struct {
	name string
	run  func(data []byte)
	// input returns data with a place for repeated tokens
	input  func(r *mon.Rand) []byte
	tokens []string
	// free is an allocation per byte that is not limited
	perByte int64
}

func c29NMDC(dec *nmdc.TextDecoder, enc *nmdc.TextEncoder) func(data []byte) {
	return func(data []byte) {
		rd := nmdc.NewReader(bytes.NewReader(data))
		rd.SetMaxLine(0)
		if dec != nil {
			rd.SetDecoder(dec)
		}
		for {
			m, err := rd.ReadMsg()
			if err != nil {
				return
			}
			_, _ = nmdc.Marshal(enc, m)
		}
	}
}

func c29Packet(p adc.Packet) {
	if p == nil {
		return
	}
	var buf bytes.Buffer
	_ = p.MarshalPacketADC(&buf)
	if m := p.Message(); m != nil {
		if u, ok := m.(*adc.UserInfo); ok {
			u.Normalize()
		}
		if raw, ok := m.(*adc.RawMessage); ok {
			if m, err := adc.UnmarshalMessage(raw.Type, raw.Data); err == nil {
				buf.Reset()
				_ = adc.Marshal(&buf, m)
			}
		}
	}
}

func c29Unit(tokens []string) func(r *mon.Rand) []byte {
	return func(r *mon.Rand) []byte {
		return []byte(mon.Pick(r, tokens...) + mon.Pick(r, tokens...))
	}
}

var c29Targets = []c29Target{
	{name: "nmdc reader", run: c29NMDC(nil, nil), tokens: nmdcTokens, input: func(r *mon.Rand) []byte {
		return append(nmdcValid(r, newNGen(r)), '|')
	}},
	{name: "nmdc reader", run: c29NMDC(nil, nil), tokens: nmdcTokens, input: func(r *mon.Rand) []byte {
		return append(nmdcValid(r, newNGen(r)), '|')
	}},
	{name: "nmdc reader cp1251", run: c29NMDC(charmap.Windows1251.NewDecoder(), charmap.Windows1251.NewEncoder()), tokens: nmdcTokens, input: func(r *mon.Rand) []byte {
		return append(nmdcValid(r, newNGen(r)), '|')
	}},
	{name: "nmdc hostile", run: c29NMDC(nil, nil), tokens: nmdcTokens, input: func(r *mon.Rand) []byte {
		return append(nmdcHostile(r), '|')
	}},
	{name: "adc packet", run: func(data []byte) {
		if p, err := adc.DecodePacket(data); err == nil {
			c29Packet(p)
		}
		if p, err := adc.DecodePacketRaw(data); err == nil {
			c29Packet(p)
		}
	}, tokens: adcTokens, input: adcHostile},
	{name: "adc reader", run: func(data []byte) {
		rd := adc.NewReader(bytes.NewReader(data))
		rd.SetMaxLine(0)
		for {
			p, err := rd.ReadPacket()
			if err == io.EOF || err == io.ErrUnexpectedEOF || p == nil && err == nil {
				return
			} else if err != nil {
				if _, err := rd.ReadLine(); err != nil {
					return
				}
				continue
			}
			c29Packet(p)
		}
	}, tokens: adcTokens, input: func(r *mon.Rand) []byte {
		g := newAGen(r)
		var buf bytes.Buffer
		for i := 0; i < 3; i++ {
			_ = adcPacket(g, adcKinds[r.Intn(len(adcKinds))], g.any().m).MarshalPacketADC(&buf)
		}
		return buf.Bytes()
	}},
	{name: "addresses", run: func(data []byte) {
		s := string(data)
		_, _ = dc.NormalizeAddr(s)
		_, _ = nmdc.NormalizeAddr(s)
		_, _ = adc.NormalizeAddr(s)
		if u, err := dc.ParseAddr(s); err == nil {
			_ = keyprint.FromURL(u)
			_ = u.String()
		}
	}, tokens: []string{"/", ":", "a.", "?", "&", "=", "kp=SHA256/AAA&", "%41", "[", "]", "@", "#", " ", "é", ".", "-", "xn--", "::", "a:", "//", "dchub://", "1.", "\x00", ";"}, input: func(r *mon.Rand) []byte {
		return []byte(mon.Pick(r, "dchub://", "adc://", "adcs://", "nmdcs://", "") + mon.Pick(r, "hub.example.org", "1.2.3.4", "[::1]", "é.example") + mon.Pick(r, "", ":411", ":5000") + mon.Pick(r, "", "/", "/path?kp=SHA256/ABC&x=y", "?kp=SHA256/ABC"))
	}},
	{name: "escapes", run: func(data []byte) {
		_ = nmdc.UnescapeBytes(append([]byte{}, data...))
		var s nmdc.String
		if s.UnmarshalNMDC(nil, append([]byte{}, data...)) == nil {
			var buf bytes.Buffer
			_ = s.MarshalNMDC(nil, &buf)
		}
		var n nmdc.Name
		if n.UnmarshalNMDC(nil, append([]byte{}, data...)) == nil {
			var buf bytes.Buffer
			_ = n.MarshalNMDC(nil, &buf)
		}
		var buf bytes.Buffer
		_ = adc.String(data).MarshalADC(&buf)
		var a adc.String
		_ = a.UnmarshalADC(data)
		var p adc.Path
		_ = p.UnmarshalADC(data)
		_, _ = p.MarshalADC, a
	}, tokens: nmdcTokens, input: c29Unit(nmdcTokens)},
	{name: "lock", run: func(data []byte) {
		l := &nmdc.Lock{Lock: string(data), PK: "x", Ref: "y"}
		_, _ = nmdc.Marshal(nil, l.Key())
	}, tokens: []string{"a", "$", "|", "`", "~", "\x05", "EXTENDEDPROTOCOL", "\x00", "é"}, input: c29Unit([]string{"EXTENDEDPROTOCOL", "abc"})},
	{name: "tree", run: func(data []byte) {
		_, _ = tiger.TreeHash(bytes.NewReader(data))
		_ = tiger.HashBytes(data)
		if l, err := tiger.TreeLeaves(bytes.NewReader(data)); err == nil {
			_ = l.TreeHash()
		}
	}, tokens: []string{"a", "\x00", "0123456789"}, input: c29Unit([]string{"a"}), perByte: 20},
	{name: "certificates", run: func(data []byte) {
		_, _ = keyprint.FromFile(bytes.NewReader(data))
	}, tokens: []string{"-----BEGIN CERTIFICATE-----\n", "-----END CERTIFICATE-----\n", "-", "\n", "AAAA\n", "-----BEGIN X-----\nAAAA\n-----END X-----\n", "-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n", "a: b\n"}, input: func(r *mon.Rand) []byte {
		return pem.EncodeToMemory(&pem.Block{Type: mon.Pick(r, "CERTIFICATE", "RSA PRIVATE KEY"), Bytes: r.Bytes(300)})
	}},
	{name: "raw stream", run: func(data []byte) {
		rd := lineproto.NewReader(bytes.NewReader(data), '|')
		rd.SetMaxLine(0)
		for {
			if _, err := rd.ReadLine(); err != nil {
				break
			}
		}
		w := lineproto.NewWriter(ioutil.Discard)
		_ = w.EnableZlib()
		_ = w.WriteLine(data)
		_ = w.DisableZlib()
		_ = w.WriteLine(data)
		_ = w.Flush()
	}, tokens: []string{"|", "a|", "\n", "$", "long line without an end ", "\x00"}, input: c29Unit([]string{"|", "a"})},
	{name: "raw stream by bytes", run: func(data []byte) {
		rd := lineproto.NewReader(iotest.OneByteReader(bytes.NewReader(data)), '|')
		rd.SetMaxLine(0)
		for {
			if _, err := rd.ReadLine(); err != nil {
				break
			}
		}
		w := lineproto.NewWriter(ioutil.Discard)
		for i := range data {
			_ = w.WriteLine(data[i : i+1])
			if i%3 == 0 {
				_ = w.Flush()
			}
		}
		_ = w.Flush()
	}, tokens: []string{"|", "a|", "\n", "$", "long line without an end ", "\x00"}, input: c29Unit([]string{"|", "a"})},
	{name: "nmdc reader by bytes", run: func(data []byte) {
		rd := nmdc.NewReader(iotest.OneByteReader(bytes.NewReader(data)))
		rd.SetMaxLine(0)
		for {
			if _, err := rd.ReadMsg(); err != nil {
				break
			}
		}
	}, tokens: nmdcTokens, input: func(r *mon.Rand) []byte {
		return append(nmdcValid(r, newNGen(r)), '|')
	}},
	{name: "compressed stream", run: func(data []byte) {
		rd := lineproto.NewReader(bytes.NewReader(zcompress(data, 1)), '|')
		rd.SetMaxLine(0)
		if rd.EnableZlib() != nil {
			return
		}
		for {
			if _, err := rd.ReadLine(); err != nil {
				break
			}
		}
	}, tokens: []string{"|", "a|", "\n", "$", "long line without an end ", "\x00"}, input: c29Unit([]string{"|", "a"})},
	{name: "switches of compression", run: func(data []byte) {
		// each byte of data is a section of its own
		var buf bytes.Buffer
		w := lineproto.NewWriter(&buf)
		for _, c := range data[:len(data)/256] {
			_ = w.EnableZlib()
			_ = w.WriteLine([]byte{c, '|'})
			_ = w.DisableZlib()
		}
		_ = w.Flush()
		rd := lineproto.NewReader(&buf, '|')
		for range data[:len(data)/256] {
			if rd.EnableZlib() != nil {
				return
			}
			if _, err := rd.ReadLine(); err != nil {
				return
			}
			_, _ = rd.Read(make([]byte, 1))
		}
	}, tokens: []string{"a"}, input: c29Unit([]string{"b"})},
}

func init() {
	for i := range adcTargets {
		mk := adcTargets[i]
		if reflect.TypeOf(mk()).Kind() != reflect.Ptr {
			continue
		}
		i := i
		c29Targets = append(c29Targets, c29Target{
			name: fmt.Sprintf("adc payload %T", mk()), tokens: adcTokens,
			run: func(data []byte) {
				v := mk()
				if adc.Unmarshal(data, v) != nil {
					return
				}
				if m, ok := v.(adc.Message); ok {
					var buf bytes.Buffer
					_ = adc.Marshal(&buf, m)
				}
			},
			input: func(r *mon.Rand) []byte {
				var buf bytes.Buffer
				_ = adc.Marshal(&buf, newAGen(r).pick(i).m)
				return buf.Bytes()
			},
		})
	}
	for i := range nmdcTypes {
		typ := nmdcTypes[i]
		c29Targets = append(c29Targets, c29Target{
			name: "nmdc payload " + typ, tokens: nmdcTokens, run: c29NMDC(nil, nil),
			input: func(r *mon.Rand) []byte {
				b, err := nmdc.Marshal(nil, newNGen(r).pick(typ).in)
				if err != nil {
					return []byte("$" + typ + " x|")
				}
				return b
			},
		})
	}
}

func c29Growth(t *mon.T) {
	r := t.R
	tg := &c29Targets[t.Index%len(c29Targets)]
	base := tg.input(r)
	// the place of repeated tokens; usually before the delimiter
	p := r.Intn(len(base) + 1)
	if r.P(1, 3) && len(base) > 0 {
		p = len(base) - 1
	}
	var unit string
	for i, n := 0, mon.Pick(r, 1, 1, 1, 2, 3); i < n; i++ {
		unit += mon.Pick(r, tg.tokens...)
	}
	if r.P(1, 4) && len(base) > 0 {
		// a part of the message
		a := r.Intn(len(base))
		b := a + r.Range(1, 24)
		if b > len(base) {
			b = len(base)
		}
		unit = string(base[a:b])
		if r.Bool() {
			p = b
		}
	}
	vary := r.P(1, 3) // units differ from each other
	mk := func(n int) []byte {
		var sb bytes.Buffer
		sb.Grow(n + len(base) + 64)
		sb.Write(base[:p])
		for i := 0; sb.Len() < n; i++ {
			sb.WriteString(unit)
			if vary {
				fmt.Fprintf(&sb, "%d", i)
				sb.WriteString(unit[:len(unit)/2])
			}
		}
		sb.Write(base[p:])
		return sb.Bytes()
	}
	const lo, hi = 4 << 10, 64 << 10
	t.Logf("%s: %s + %q... + %s, vary %v", tg.name, q(base[:p]), unit, q(base[p:]), vary)
	dl, dh := mk(lo), mk(hi)
	cl := measureBest(2, func() { tg.run(dl) })
	ch := measureBest(2, func() { tg.run(dh) })
	t.Eval(4)
	t.Ev("bytes-processed", 2*len(dl)+2*len(dh))
	per := tg.perByte
	if per == 0 {
		per = 400
	}
	what := func() string {
		return fmt.Sprintf("%s: %s, then %q repeated, then %s", tg.name, q(base[:p]), unit, q(base[p:]))
	}
	if max := per*int64(len(dh)) + 256<<10; ch.alloc > max {
		t.Failf("memory", "%d bytes are allocated for %d bytes of input: %s", ch.alloc, len(dh), what())
	}
	if max := 48*cl.alloc + 1<<20; ch.alloc > max {
		t.Failf("memory-growth", "%d bytes are allocated for %d bytes of input, and %d for %d: %s", cl.alloc, len(dl), ch.alloc, len(dh), what())
	}
	if ch.cpu > 32*cl.cpu+time.Millisecond {
		t.Ev("cpu-suspects", 1)
		d1, d2 := mk(4*hi), mk(16*hi)
		c1 := measureBest(3, func() { tg.run(d1) })
		c2 := c1
		if c1.cpu < 4*time.Second {
			c2 = measureBest(2, func() { tg.run(d2) })
		}
		t.Logf("cpu: %v %v %v %v", cl.cpu, ch.cpu, c1.cpu, c2.cpu)
		if c1.cpu >= 4*time.Second || c2.cpu > 80*time.Millisecond && c2.cpu > 10*c1.cpu {
			t.Failf("time-growth", "CPU time %v for %d bytes, %v for %d, %v for %d, %v for %d: %s", cl.cpu, len(dl), ch.cpu, len(dh), c1.cpu, len(d1), c2.cpu, len(d2), what())
		}
	}
	t.Seen(fmt.Sprint(tg.name, unit, p, string(base), vary))
	t.Sample(func() string {
		return fmt.Sprintf("%s: %d bytes allocated in %v for %d bytes, %d in %v for %d", what(), cl.alloc, cl.cpu, len(dl), ch.alloc, ch.cpu, len(dh))
	})
}

func c29Announced(t *mon.T) {
	r := t.R
	nums := []string{
		"65535", "32767", "1000000", "16777216", "2147483647", "2147483648", "4294967295", "4294967296", "1099511627776", "9223372036854775807", "9223372036854775808", "18446744073709551615",
		"18446744073709551616", "-1", "-2147483648", "-9223372036854775808", "99999999999999999999999999", "1e9", "1e18", "1e300", "-1e300", "1e999999999", "1e-999999999", "1e20000", "1e3000000", "1e99999999", "1e200000000", "1.5e3000000", "0x1p3000000", "1e-3000000", "-1e3000000", "1E100000000", "0.1e99999", "0x7fffffff", "1" + strings.Repeat("0", 300),
	}
	s := mon.Pick(r, nums...)
	if t.Index%10 == 9 {
		// binary section
		n := mon.Pick(r, uint64(1)<<20, 1<<31, 1<<32, 1<<40, 1<<62, 1<<63, 1<<64-1)
		data := r.Bytes(r.Range(1, 3000))
		rd := nmdc.NewReader(bytes.NewReader(data))
		var got int64
		c := measure(func() {
			b, err := rd.Binary(n)
			if err != nil {
				return
			}
			got, _ = io.Copy(ioutil.Discard, b)
			_ = b.Close()
		})
		t.Eval(1)
		if c.alloc > 256<<10 {
			t.Failf("announced", "a binary section of %d bytes, of which %d were received, allocates %d", n, got, c.alloc)
		}
		t.Seen(fmt.Sprint("binary", n, len(data)))
		return
	}
	f := numFields()[r.Intn(len(numFields()))]
	body := f.wire(s)
	c := measureBest(2, func() {
		m := f.new()
		if decodeAny(m, body) != nil {
			return
		}
		var buf bytes.Buffer
		switch m := m.(type) {
		case nmdc.Message:
			_ = nmdc.MarshalTo(nil, &buf, m)
		case adc.Message:
			_ = adc.Marshal(&buf, m)
		}
	})
	t.Eval(1)
	if max := int64(64<<10 + 500*len(body)); c.alloc > max {
		t.Failf("announced", "%s: %q in %s allocates %d bytes", f.name, s, q([]byte(body)), c.alloc)
	}
	if c.cpu > 300*time.Millisecond {
		t.Failf("announced-time", "%s: %q in %s takes %v", f.name, s, q([]byte(body)), c.cpu)
	}
	t.Seen(f.name + s)
}

// c29Scenario processes numbered items by long-lived objects.
type c29Scenario struct {
	name  string
	items int
	// slack is an additional allowance for retained bytes
	slack int64
	start func(r *mon.Rand) (step func(i int) error, end func())
}

// feed is a stream which is made on demand.
type feed struct {
	buf  bytes.Buffer
	next func(i int, buf *bytes.Buffer)
	i    int
}

func (f *feed) Read(p []byte) (int, error) {
	if f.buf.Len() == 0 {
		f.buf.Reset()
		f.next(f.i, &f.buf)
		f.i++
	}
	return f.buf.Read(p)
}

// uniq is a different word for each number.
func uniq(i int) string { return fmt.Sprintf("w%07xq", uint32(i)*2654435761) }

// nmdcItem makes a different message each time.
func nmdcItem(i int) nmdc.Message {
	u := uniq(i)
	switch i % 20 {
	case 0:
		m := &nmdc.MyINFO{Name: u, Desc: u, Mode: nmdc.UserModeActive, HubsNormal: i, Slots: i, Conn: u, Email: u, ShareSize: uint64(i)}
		m.Client.Name, m.Client.Version = u, u
		return m
	case 1:
		return &nmdc.Hello{Name: nmdc.Name(u)}
	case 2:
		return &nmdc.Quit{Name: nmdc.Name(u)}
	case 3:
		return &nmdc.ChatMessage{Name: u, Text: u + " | $"}
	case 4:
		return &nmdc.PrivateMessage{From: u, To: u, Name: u, Text: u}
	case 5:
		return &nmdc.Supports{Ext: []string{u, u + "x"}}
	case 6:
		return &nmdc.RawMessage{Typ: u, Data: []byte(u)}
	case 7:
		return &nmdc.Search{Address: u + ":1", DataType: nmdc.DataTypeAny, Pattern: u}
	case 8:
		return &nmdc.SR{From: u, Path: []string{u, u}, Size: uint64(i), FreeSlots: 1, TotalSlots: 2, HubName: u, HubAddress: u}
	case 9:
		return &nmdc.ConnectToMe{Targ: u, Address: u}
	case 10:
		return &nmdc.RevConnectToMe{From: u, To: u}
	case 11:
		return &nmdc.OpList{Names: nmdc.Names{u, u + "y"}}
	case 12:
		return &nmdc.UserIP{}
	case 13:
		return &nmdc.UserCommand{Typ: nmdc.TypeRaw, Context: 1, Path: []string{u, u}, Command: u}
	case 14:
		return &nmdc.ADCGet{ContentType: nmdc.String(u), Identifier: nmdc.String(u), Start: uint64(i), Length: 1}
	case 15:
		return &nmdc.Lock{Lock: u, PK: u, Ref: u}
	case 16:
		return &nmdc.HubName{String: nmdc.String(u)}
	case 17:
		return &nmdc.MyNick{Name: nmdc.Name(u)}
	case 18:
		return &nmdc.ForceMove{Address: u}
	}
	return &nmdc.Failed{Err: fmt.Errorf("%s", u)}
}

// nmdcLine is a wire form of the item, or a line which cannot be decoded.
func nmdcLine(i int, buf *bytes.Buffer) {
	if i%50 == 49 {
		u := uniq(i)
		switch i / 50 % 5 {
		case 0:
			buf.WriteString("$MyINFO " + u + "|")
		case 1:
			buf.WriteString("$Search " + u + "|")
		case 2:
			buf.WriteString("$" + u + "|")
		case 3:
			buf.WriteString("$" + u + "\xff x|")
		case 4:
			buf.WriteString(u + "|")
		}
		return
	}
	b, err := nmdc.Marshal(nil, nmdcItem(i))
	if err != nil {
		b = []byte("<" + uniq(i) + "> x|")
	}
	buf.Write(b)
}

func adcItem(i int) adc.Message {
	u := uniq(i)
	switch i % 12 {
	case 0:
		return adc.ChatMessage{Text: u + " \n\\"}
	case 1:
		m := adc.UserInfo{Name: u, Desc: u, ShareSize: int64(i), Application: u, Version: u, Email: u}
		_ = m.Features
		return m
	case 2:
		return adc.SearchRequest{And: []string{u, u}, Ext: []string{u}, Token: u}
	case 3:
		return adc.SearchResult{Token: u, Path: u + "/" + u, Size: int64(i)}
	case 4:
		return adc.ConnectRequest{Proto: u, Port: i, Token: u}
	case 5:
		return adc.RevConnectRequest{Proto: u, Token: u}
	case 6:
		return adc.Status{Sev: adc.Recoverable, Code: i % 60, Msg: u}
	case 7:
		return adc.GetRequest{Type: u, Path: u, Start: int64(i), Bytes: 1}
	case 8:
		return adc.UserCommand{Path: adc.Path{u, u}, Command: u}
	case 9:
		m := &adc.RawMessage{Data: []byte(u + " XX" + u)}
		const alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
		k := int(uint32(i/12*2654435761) >> 8)
		copy(m.Type[:], []byte{alpha[k%26], alpha[k/26%36], alpha[k/936%36]})
		return m
	case 10:
		return adc.Supported{Features: adc.ModFeatures{feaOf(i): true, feaOf(i + 1): false}}
	}
	return adc.Disconnect{Message: u}
}

func feaOf(i int) (f adc.Feature) {
	h := uint32(i) * 2654435761
	for k := range f {
		f[k] = 'A' + byte(h>>(8*uint(k)))%26
	}
	return
}

func adcItemPacket(i int) adc.Packet {
	m := adcItem(i)
	id, to := adctypes.SIDFromInt(uint32(i)%900000), adctypes.SIDFromInt(uint32(i+7)%900000)
	switch i / 12 % 8 {
	case 0:
		return &adc.BroadcastPacket{ID: id, Msg: m}
	case 1:
		return &adc.ClientPacket{Msg: m}
	case 2:
		return &adc.DirectPacket{ID: id, To: to, Msg: m}
	case 3:
		return &adc.EchoPacket{ID: id, To: to, Msg: m}
	case 4:
		return &adc.FeaturePacket{ID: id, Sel: []adc.FeatureSel{{Fea: feaOf(i), Sel: true}}, Msg: m}
	case 5:
		return &adc.HubPacket{Msg: m}
	case 6:
		return &adc.UDPPacket{ID: adc.CID(tiger.HashBytes([]byte(uniq(i)))), Msg: m}
	}
	return &adc.InfoPacket{Msg: m}
}

func adcLines(i int, buf *bytes.Buffer) {
	if i%50 == 49 {
		u := uniq(i)
		switch i / 50 % 4 {
		case 0:
			buf.WriteString("X" + u + "\n")
		case 1:
			buf.WriteString("BINF " + u + "\n")
		case 2:
			buf.WriteString("IGET " + u + "\n")
		case 3:
			buf.WriteString("DMSG AAAA " + u + "\n")
		}
		return
	}
	_ = adcItemPacket(i).MarshalPacketADC(buf)
}

var c29Scenarios = []c29Scenario{
	{name: "nmdc reader", items: 40000, start: func(r *mon.Rand) (func(i int) error, func()) {
		rd := nmdc.NewReader(&feed{next: nmdcLine})
		return func(i int) error {
			_, err := rd.ReadMsg()
			if err == io.EOF {
				return err
			}
			return nil
		}, func() { _ = rd.Close() }
	}},
	{name: "nmdc reader, hooks and encoding", items: 40000, start: func(r *mon.Rand) (func(i int) error, func()) {
		rd := nmdc.NewReader(&feed{next: nmdcLine})
		rd.SetDecoder(charmap.Windows1251.NewDecoder())
		n := 0
		rd.OnRawMessage(func(cmd, args []byte) (bool, error) { n++; return n%3 != 0, nil })
		rd.OnMessage(func(m nmdc.Message) (bool, error) { return true, nil })
		rd.OnUnmarshalError = func(text []byte, err error) (bool, error) { return len(text)%2 == 0, err }
		return func(i int) error {
			var err error
			switch i % 3 {
			case 0:
				_, err = rd.ReadMsg()
			case 1:
				_, err = rd.ReadMsgToAny(&nmdc.MyINFO{}, &nmdc.Hello{}, &nmdc.ChatMessage{}, &nmdc.SR{})
			case 2:
				err = rd.ReadMsgTo(&nmdc.Quit{})
			}
			if err == io.EOF {
				return err
			}
			return nil
		}, func() { _ = rd.Close() }
	}},
	{name: "nmdc writer", items: 40000, start: func(r *mon.Rand) (func(i int) error, func()) {
		w := nmdc.NewWriter(ioutil.Discard)
		w.OnMessage(func(m nmdc.Message) (bool, error) { return true, nil })
		return func(i int) error {
			_ = w.WriteMsg(nmdcItem(i), nmdcItem(i+1))
			if i%10 == 0 {
				return w.Flush()
			}
			return nil
		}, func() { _ = w.Close() }
	}},
	{name: "nmdc writer, encodings and compression", items: 2500, start: func(r *mon.Rand) (func(i int) error, func()) {
		w := nmdc.NewWriter(ioutil.Discard)
		return func(i int) error {
			if i%2 == 0 {
				w.SetEncoder(charmap.Windows1251.NewEncoder())
			} else {
				w.SetEncoder(nil)
			}
			if i%20 == 0 {
				if err := w.ZOnLevel(1 + i/20%9); err != nil {
					return err
				}
			}
			_ = w.WriteMsg(nmdcItem(i), &nmdc.ChatMessage{Name: "n", Text: uniq(i) + "日本"})
			if i%20 == 19 {
				if err := w.DisableZlib(); err != nil {
					return err
				}
			}
			return w.Flush()
		}, func() { _ = w.Close() }
	}},
	{name: "switches of compression by a reader", items: 3000, start: func(r *mon.Rand) (func(i int) error, func()) {
		rd := lineproto.NewReader(&feed{next: func(i int, buf *bytes.Buffer) {
			buf.Write(zcompress([]byte(uniq(i)+"|"), 1+i%9))
			buf.WriteString(uniq(i+1) + "|")
		}}, '|')
		return func(i int) error {
			if err := rd.EnableZlib(); err != nil {
				return err
			}
			for k := 0; k < 2; k++ {
				if l, err := rd.ReadLine(); err != nil {
					return err
				} else if string(l) != uniq(i+k)+"|" {
					return fmt.Errorf("unexpected line %q", l)
				}
			}
			return nil
		}, func() { _ = rd.Close() }
	}},
	{name: "one long compressed section", items: 40000, start: func(r *mon.Rand) (func(i int) error, func()) {
		var pipe bytes.Buffer
		w := lineproto.NewWriter(&pipe)
		_ = w.EnableZlib()
		_ = w.WriteLine([]byte("start|"))
		_ = w.Flush()
		rd := lineproto.NewReader(&pipe, '|')
		if err := rd.EnableZlib(); err != nil {
			panic(err)
		}
		_, _ = rd.ReadLine()
		return func(i int) error {
			if err := w.WriteLine([]byte(uniq(i) + "|")); err != nil {
				return err
			}
			if i%8 != 7 {
				return nil
			}
			if err := w.Flush(); err != nil {
				return err
			}
			for k := i - 7; k <= i; k++ {
				if l, err := rd.ReadLine(); err != nil || string(l) != uniq(k)+"|" {
					return fmt.Errorf("unexpected line %q, %v", l, err)
				}
			}
			return nil
		}, func() { _ = rd.Close(); _ = w.Close() }
	}},
	{name: "binary sections", items: 30000, start: func(r *mon.Rand) (func(i int) error, func()) {
		rd := lineproto.NewReader(&feed{next: func(i int, buf *bytes.Buffer) {
			buf.WriteString(uniq(i) + "|" + uniq(i) + uniq(i))
		}}, '|')
		return func(i int) error {
			if _, err := rd.ReadLine(); err != nil {
				return err
			}
			b, err := rd.Binary(uint64(2 * len(uniq(i))))
			if err != nil {
				return err
			}
			if i%3 == 0 {
				_, _ = b.Read(make([]byte, 5))
			}
			return b.Close()
		}, func() { _ = rd.Close() }
	}},
	{name: "adc reader", items: 40000, start: func(r *mon.Rand) (func(i int) error, func()) {
		rd := adc.NewReader(&feed{next: adcLines})
		return func(i int) error {
			var p adc.Packet
			var err error
			switch i % 4 {
			case 0:
				p, err = rd.ReadPacketRaw()
			case 1:
				_, err = rd.ReadInfo()
			default:
				p, err = rd.ReadPacket()
			}
			if err == io.EOF {
				return err
			}
			if err == nil && p != nil {
				c29Packet(p)
			}
			return nil
		}, func() { _ = rd.Close() }
	}},
	{name: "adc writer", items: 40000, start: func(r *mon.Rand) (func(i int) error, func()) {
		w := adc.NewWriter(ioutil.Discard)
		st := []adc.WriteStream{w.HubStream(), w.InfoStream(), w.ClientStream(), w.BroadcastStream(adctypes.SIDFromInt(1)), w.DirectStream(adctypes.SIDFromInt(1), adctypes.SIDFromInt(2)), w.EchoStream(adctypes.SIDFromInt(1), adctypes.SIDFromInt(2))}
		return func(i int) error {
			_ = w.WritePacket(adcItemPacket(i))
			_ = st[i%len(st)].WriteMessage(adcItem(i))
			_ = w.BroadcastStream(adctypes.SIDFromInt(uint32(i))).WriteMessage(adcItem(i))
			if i%10 == 0 {
				return w.Flush()
			}
			return nil
		}, func() { _ = w.Close() }
	}},
	{name: "nmdc functions", items: 40000, start: func(r *mon.Rand) (func(i int) error, func()) {
		return func(i int) error {
			m := nmdcItem(i)
			b, err := nmdc.Marshal(nil, m)
			if err != nil {
				return nil
			}
			_, _ = nmdc.Unmarshal(nil, b)
			_ = nmdc.NewMessage(uniq(i))
			_ = nmdc.IsRegistered(uniq(i))
			_ = nmdc.IsRegisteredBytes([]byte(uniq(i)))
			_ = (&nmdc.Lock{Lock: uniq(i)}).Key()
			_ = nmdc.UnescapeBytes([]byte(uniq(i) + "&#124;"))
			return nil
		}, func() {}
	}},
	{name: "adc functions", items: 40000, start: func(r *mon.Rand) (func(i int) error, func()) {
		return func(i int) error {
			m := adcItem(i)
			var buf bytes.Buffer
			if err := adc.Marshal(&buf, m); err == nil {
				_, _ = adc.UnmarshalMessage(m.Cmd(), buf.Bytes())
			}
			buf.Reset()
			if err := adcItemPacket(i).MarshalPacketADC(&buf); err == nil {
				_, _ = adc.DecodePacket(buf.Bytes())
				_, _ = adc.DecodePacketRaw(buf.Bytes())
			}
			_ = adc.Unmarshal([]byte(uniq(i)+" AA"+uniq(i)), &adc.UserInfo{})
			f := adc.ModFeatures{feaOf(i): true}
			_ = f.Clone().SetFrom(f).Join()
			var id adc.CID
			_ = id.FromBase32(tiger.HashBytes([]byte(uniq(i))).Base32())
			_ = id.String()
			_ = adctypes.SIDFromInt(uint32(i)).String()
			if i%10 == 0 {
				if _, err := adctypes.NewPID(); err != nil {
					return err
				}
			}
			return nil
		}, func() {}
	}},
	{name: "addresses, hashes and key prints", items: 15000, start: func(r *mon.Rand) (func(i int) error, func()) {
		return func(i int) error {
			u := uniq(i)
			for _, s := range []string{u, "adc://" + u + ".org:123", "dchub://" + u + "/", "adcs://h/?kp=SHA256/" + u, "x" + u + "://h"} {
				_, _ = dc.NormalizeAddr(s)
				_, _ = nmdc.NormalizeAddr(s)
				_, _ = adc.NormalizeAddr(s)
				if a, err := dc.ParseAddr(s); err == nil {
					_ = keyprint.FromURL(a)
				}
			}
			_ = keyprint.FromBytes([]byte(u))
			_, _ = keyprint.FromFile(strings.NewReader("-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n" + u))
			_ = tiger.HashBytes([]byte(u))
			_, _ = tiger.TreeHash(strings.NewReader(u))
			h := tiger.New()
			_, _ = h.Write([]byte(u))
			_ = h.Sum(nil)
			return nil
		}, func() {}
	}},
	{name: "abandoned connections", items: 1200, start: func(r *mon.Rand) (func(i int) error, func()) {
		return func(i int) error {
			u := uniq(i)
			w := nmdc.NewWriter(ioutil.Discard)
			w.OnLine(func(line []byte) (bool, error) { return len(u) > 0, nil })
			if i%4 == 0 {
				_ = w.ZOn()
			}
			_ = w.WriteMsg(&nmdc.ChatMessage{Name: u, Text: u})
			_ = w.Flush()
			if i%3 == 0 {
				_ = w.Close()
			}
			rd := nmdc.NewReader(bytes.NewReader(append([]byte("$Hello "+u+"|"), zcompress([]byte(u+"|"), 1)...)))
			rd.OnMessage(func(m nmdc.Message) (bool, error) { return len(u) > 0, nil })
			_, _ = rd.ReadMsg()
			if i%4 == 1 {
				_ = rd.EnableZlib()
				_, _ = rd.ReadLine()
			}
			if i%3 == 1 {
				_ = rd.Close()
			}
			ar := adc.NewReader(strings.NewReader("IMSG " + u + "\nIMSG"))
			_, _ = ar.ReadPacket()
			_, _ = ar.ReadPacket()
			aw := adc.NewWriter(ioutil.Discard)
			_ = aw.WriteInfo(adc.ChatMessage{Text: u})
			_ = aw.Flush()
			if i%3 == 2 {
				_ = ar.Close()
				_ = aw.Close()
			}
			return nil
		}, func() {}
	}},
}

func liveHeap() int64 {
	// pools are emptied by the second collection; finalizers may need one more
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	var s runtime.MemStats
	runtime.ReadMemStats(&s)
	return int64(s.HeapAlloc)
}

// settled waits for a number of goroutines.
func settled(max int) int {
	n := runtime.NumGoroutine()
	for i := 0; i < 200 && n > max; i++ {
		time.Sleep(5 * time.Millisecond)
		n = runtime.NumGoroutine()
	}
	return n
}

func c29Retained(t *mon.T) {
	sc := &c29Scenarios[t.Index%len(c29Scenarios)]
	gor := runtime.NumGoroutine()
	step, end := sc.start(t.R)
	run := func(lo, hi int) cost {
		return measure(func() {
			for i := lo; i < hi; i++ {
				if err := step(i); err != nil {
					t.Failf("scenario", "%s: item %d: %v", sc.name, i, err)
				}
			}
		})
	}
	n := sc.items
	if t.Thorough() {
		n *= 4
	}
	warm := n / 10 / 120 * 120
	if warm < 120 {
		warm = 120
	}
	n = n / 120 * 120
	run(0, warm)
	before := liveHeap()
	first := run(warm, 2*warm)
	run(2*warm, n-warm)
	last := run(n-warm, n)
	after := liveHeap()
	t.Eval(3)
	t.Ev("items", n)
	t.Logf("%s: %d items, live heap %d -> %d, first %v, last %v", sc.name, n, before, after, first, last)
	if grow := after - before; grow > 192<<10+sc.slack {
		t.Failf("retained", "%s: live heap grew by %d bytes after %d items", sc.name, grow, n-warm)
	}
	if last.alloc > 3*first.alloc+1<<20 {
		t.Failf("cost-grows", "%s: %d items allocate %d bytes at first and %d after %d items", sc.name, warm, first.alloc, last.alloc, n)
	}
	if last.cpu > 4*first.cpu+30*time.Millisecond {
		// confirm with the following items
		again := run(n, n+warm)
		if again.cpu > 4*first.cpu+30*time.Millisecond {
			t.Failf("time-grows", "%s: %d items take %v at first, and %v and %v after %d items", sc.name, warm, first.cpu, last.cpu, again.cpu, n)
		}
	}
	end()
	if now := settled(gor); now > gor {
		t.Failf("goroutines", "%s: %d goroutines before, %d after:\n%s", sc.name, gor, now, sutStacks())
	}
	t.Seen(fmt.Sprint(sc.name, t.Index))
	t.Sample(func() string {
		return fmt.Sprintf("%s: %d items; live heap %d -> %d; %d items allocated %d bytes at first, %d at last", sc.name, n, before, after, warm, first.alloc, last.alloc)
	})
}

func sutStacks() string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, mon.SUT) {
			out = append(out, g)
		}
	}
	if len(out) > 3 {
		out = out[:3]
	}
	return strings.Join(out, "\n\n")
}

// c29Failing is a connection that returns its data once and fails.
type c29Failing struct {
	data []byte
	err  error
}

func (f *c29Failing) Read(p []byte) (int, error) {
	if len(f.data) == 0 {
		return 0, f.err
	}
	n := copy(p, f.data)
	f.data = f.data[n:]
	return n, nil
}

func (f *c29Failing) Write(p []byte) (int, error) { return 0, f.err }
