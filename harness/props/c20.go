package props

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/direct-connect/go-dc/nmdc"

	"verif/harness/gen"
	"verif/harness/mon"
)

func c20() mon.Property {
	return mon.Property{
		ID: "C20",
		Rule: "A case is a lock (random, minimal length, adversarial for one key byte so that every reserved value is escaped at every position class), PK, reference, extended prefix and magic byte; the key is compared " +
			"with a reference derivation working on the wire bytes an independent hub or client would see, then sent in a Key message over a chunked transport and parsed by both sides. " +
			"Non-trivial: the key has at least one escaped byte. The exhaustive monitor runs all two byte locks for all reserved magic bytes and all 256 magic bytes.",
		Assume: []string{"locks have no spaces, PK has no \"Ref=\" (they are separators of the message)", "locks of the wire have no NUL and no '|' (they cannot be sent)"},
		Monitors: []mon.Monitor{
			{Name: "key-reference", Quick: 320000, Thorough: 3000000, Run: c20Key},
			{Name: "handshake-over-wire", Quick: 48000, Thorough: 300000, Run: c20Wire},
			{Name: "pairs-exhaustive", Quick: 256, Thorough: 256, Run: c20Pairs},
		},
	}
}

// refKey derives a key from the challenge as published: http://nmdc.sourceforge.net/NMDC.html#_key
func refKey(lock string, magic byte) (string, int) {
	n := len(lock)
	at := func(i int) int { return int(lock[(i+n)%n]) }
	var sb strings.Builder
	escaped := 0
	for i := 0; i < n; i++ {
		v := at(i) ^ at(i-1)
		if i == 0 {
			v ^= at(-2) ^ int(magic)
		}
		v = v%16*16 + v/16
		switch v {
		case 0, 5, 36, 96, 124, 126:
			escaped++
			fmt.Fprintf(&sb, "/%%DCN%03d%%/", v)
		default:
			sb.WriteByte(byte(v))
		}
	}
	return sb.String(), escaped
}

// lockText makes a lock of the given length; some are made to produce reserved bytes in the key.
func lockText(r *mon.Rand, n int, ext bool, any bool) string {
	b := make([]byte, n)
	reserved := []byte{0, 5, 36, 96, 124, 126}
	prev := byte('L') // the last byte of the prefix
	if !ext {
		prev = 0
	}
	mode := r.Intn(4)
	for i := range b {
		c := byte(r.Range(0x21, 0x7e))
		switch {
		case any:
			c = byte(r.Intn(256))
		case mode == 0 && r.Bool():
			v := reserved[r.Intn(len(reserved))]
			c = prev ^ (v<<4 | v>>4)
		case mode == 1:
			c = byte(r.Range(0x80, 0xff))
		case mode == 2 && i > 0:
			c = prev // zero in the key
		}
		if !any && (c <= ' ' || c == '|' || c == 0x7f) {
			c = byte(r.Range('0', 'z'))
		}
		b[i], prev = c, c
	}
	return string(b)
}

func c20Lock(r *mon.Rand, any bool) *nmdc.Lock {
	m := &nmdc.Lock{NoExt: r.P(1, 3)}
	n := 0
	switch r.Intn(4) {
	case 0:
		n = r.Range(0, 4)
	case 1:
		n = r.Range(5, 40)
	case 2:
		n = r.Range(40, 200)
	default:
		n = gen.Big(r, 1500)
	}
	m.Lock = lockText(r, n, !m.NoExt, any)
	const ext = "EXTENDEDPROTOCOL"
	if m.NoExt {
		m.Lock = noPref(m.Lock, ext)
	} else if r.P(1, 8) {
		// the text after the prefix may look like the prefix
		m.Lock = mon.Pick(r, ext, ext+ext, ext[:r.Intn(len(ext))], ext+"_", ext+"NoExt") + m.Lock
	} else if i := r.Intn(n + 1); r.P(1, 16) {
		m.Lock = m.Lock[:i] + ext + m.Lock[i:]
	}
	if any {
		m.Lock = strings.ReplaceAll(m.Lock, " ", "_")
	}
	txt := func() string {
		s := gen.Clean(gen.Text(r, 40, "|"), 40, "|")
		return strings.ReplaceAll(strings.ReplaceAll(s, "Ref=", ""), "\x00", "")
	}
	if r.Bool() {
		m.PK = txt()
	}
	if r.P(1, 3) {
		m.Ref = txt()
		if r.P(1, 6) {
			// only the first token separates the reference
			m.Ref += mon.Pick(r, "Ref=", "?Ref=", " Ref=", " Pk=") + txt()
		}
	}
	return m
}

// lockWire is the challenge as an independent peer sees it on the wire.
func lockWire(m *nmdc.Lock, full bool) string {
	s := m.Lock
	if !m.NoExt {
		s = "EXTENDEDPROTOCOL" + s
	}
	if !full {
		return s
	}
	if m.PK != "" {
		s += " Pk=" + m.PK
		if m.Ref != "" {
			s += "Ref=" + m.Ref
		}
	} else if m.Ref != "" {
		s += " Ref=" + m.Ref
	}
	return s
}

func c20Cmp(t *mon.T, m *nmdc.Lock, magic byte, full bool) {
	before := *m
	wire := lockWire(m, full)
	if got := m.LockString(full); got != wire {
		t.Failf("lock-string", "%+v: LockString(%v) = %q, expected %q", *m, full, got, wire)
	}
	k := m.CustomKey(magic, full)
	if k == nil {
		t.Failf("key-nil", "%+v: no key", *m)
	}
	if *m != before {
		t.Failf("lock-modified", "key calculation changed the lock to %+v, was %+v", *m, before)
	}
	t.Eval(2)
	if len(wire) < 2 {
		t.Ev("short locks", 1)
		return // must only not crash
	}
	want, esc := refKey(wire, magic)
	if k.Key != want {
		t.Failf("key-wrong", "%+v magic %d full %v: key %q, expected %q", *m, magic, full, k.Key, want)
	}
	t.Ev("keys compared", 1)
	t.Ev("escaped key bytes", esc)
	if esc > 0 {
		t.Seen(fmt.Sprint(*m, magic, full))
	}
}

func c20Key(t *mon.T) {
	r := t.R
	m := c20Lock(r, r.P(1, 6))
	magic := byte(5)
	if r.P(1, 3) {
		magic = byte(r.Intn(256))
	}
	c20Cmp(t, m, magic, r.Bool())
	// the default key is the common variant
	wire := lockWire(m, false)
	k := m.Key()
	if k == nil {
		t.Failf("key-nil", "%+v: no key", *m)
	}
	if len(wire) >= 2 {
		if want, _ := refKey(wire, 5); k.Key != want {
			t.Failf("key-default", "%+v: Key() = %q, expected %q", *m, k.Key, want)
		}
	}
	t.Sample(func() string { return fmt.Sprintf("lock %+v magic %d -> key %q", *m, magic, k.Key) })
}

func c20Pairs(t *mon.T) {
	for b := 0; b < 256; b++ {
		m := &nmdc.Lock{NoExt: true, Lock: string([]byte{byte(t.Index), byte(b)})}
		for _, magic := range []byte{0, 5, 36, 96, 124, 126, byte(b)} {
			c20Cmp(t, m, magic, false)
		}
		m2 := &nmdc.Lock{Lock: string([]byte{byte(t.Index), byte(b)})}
		c20Cmp(t, m2, byte(t.Index), b&1 == 0)
		m3 := &nmdc.Lock{NoExt: true, Lock: string([]byte{byte(b), byte(t.Index), byte(b * 7)})}
		c20Cmp(t, m3, 5, true)
	}
	// one byte and empty locks
	for _, s := range []string{"", string([]byte{byte(t.Index)})} {
		c20Cmp(t, &nmdc.Lock{NoExt: true, Lock: s}, byte(t.Index), false)
		c20Cmp(t, &nmdc.Lock{NoExt: true, Lock: s}, byte(t.Index), true)
		c20Cmp(t, &nmdc.Lock{Lock: s}, byte(t.Index), false)
		c20Cmp(t, &nmdc.Lock{NoExt: true, Lock: s, PK: "x"}, byte(t.Index), true)
	}
}

// c20Wire plays both sides of the handshake over a wire.
func c20Wire(t *mon.T) {
	r := t.R
	m := c20Lock(r, false)
	full := r.P(1, 3)
	magic := byte(5)
	if r.P(1, 3) {
		magic = byte(r.Intn(256))
	}
	// hub -> client
	var hub bytes.Buffer
	w := nmdc.NewWriter(&hub)
	if err := w.WriteMsg(m); err != nil {
		t.Failf("lock-send", "%+v: %v", *m, err)
	}
	if err := w.Flush(); err != nil {
		t.Failf("lock-send", "%+v: %v", *m, err)
	}
	if want := "$Lock " + lockWire(m, true) + "|"; hub.String() != want && (want != "$Lock |" || hub.String() != "$Lock|") {
		t.Failf("lock-wire", "sent %q, expected %q", hub.String(), want)
	}
	rd := nmdc.NewReader(gen.NewReader(r.Fork(), hub.Bytes()))
	rd.SetMaxLine(0)
	var got nmdc.Lock
	if err := rd.ReadMsgTo(&got); err != nil {
		t.Failf("lock-receive", "%q: %v", hub.String(), err)
	}
	if got.LockString(true) != m.LockString(true) || got.LockString(false) != m.LockString(false) {
		t.Failf("lock-receive", "received %+v, sent %+v", got, *m)
	}
	key := got.CustomKey(magic, full)
	own := m.CustomKey(magic, full)
	if key.Key != own.Key {
		t.Failf("key-differs", "key of the received lock %q, of the sent lock %q (lock %+v)", key.Key, own.Key, *m)
	}
	// client -> hub, with another message right behind
	var cli bytes.Buffer
	w = nmdc.NewWriter(&cli)
	if err := w.WriteMsg(key, &nmdc.ValidateNick{Name: "joe"}); err != nil {
		t.Failf("key-send", "%q: %v", key.Key, err)
	}
	if err := w.Flush(); err != nil {
		t.Failf("key-send", "%v", err)
	}
	wire := lockWire(m, full)
	if len(wire) >= 2 {
		want, esc := refKey(wire, magic)
		if exp := "$Key " + want + "|$ValidateNick joe|"; cli.String() != exp {
			t.Failf("key-wire", "sent %q, an independent hub expects %q", cli.String(), exp)
		}
		if esc > 0 {
			t.Seen(fmt.Sprint(*m, magic, full))
		}
	}
	rd = nmdc.NewReader(gen.NewReader(r.Fork(), cli.Bytes()))
	rd.SetMaxLine(0)
	msg, err := rd.ReadMsg()
	if err != nil {
		t.Failf("key-receive", "%q: %v", cli.String(), err)
	}
	k, ok := msg.(*nmdc.Key)
	if !ok || k.Key != own.Key {
		t.Failf("key-receive", "received %T %+v, sent %q", msg, msg, own.Key)
	}
	msg, err = rd.ReadMsg()
	if nick, ok := msg.(*nmdc.ValidateNick); err != nil || !ok || nick.Name != "joe" {
		t.Failf("key-boundary", "message after the key: %T %+v %v; wire %q", msg, msg, err, cli.String())
	}
	t.Ev("handshakes", 1)
}
