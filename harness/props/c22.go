package props

import (
	"bytes"
	"crypto/rand"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/adc/types"
	"github.com/direct-connect/go-dc/nmdc"
	"github.com/direct-connect/go-dc/tiger"

	"verif/harness/mon"
	"verif/harness/ref"
)

func c22() mon.Property {
	return mon.Property{
		ID: "C22",
		Rule: "All 2^20 SIDs are converted and round tripped in both tiers. Hash values (random, zero, all ones, one bit set, one byte set) are encoded by every text form and compared with a big integer base32 and a plain hex printer; " +
			"the random source of PIDs is replaced by ones that deliver less than asked or fail after some bytes; texts of every length 0..130 and texts with one foreign character at every position are given to every parser, with a canary value in the destination. Non-trivial: a value with a non-zero byte or a rejected text; distinct by value.",
		Assume: []string{"unused bits of the last base32 character are not checked (39 characters hold 195 bits)", "the alphabet of received SIDs is not restricted by the property, only their length"},
		Monitors: []mon.Monitor{
			{Name: "sid-exhaustive", Quick: 1024, Thorough: 1024, Run: c22SIDs},
			{Name: "sid-text", Quick: 24000, Thorough: 60000, Run: c22SIDText},
			{Name: "hash-forms", Quick: 160000, Thorough: 1500000, Run: c22Forms},
			{Name: "wrong-text", Quick: 160000, Thorough: 1500000, Run: c22Wrong},
			{Name: "characters-exhaustive", Quick: 39, Thorough: 39, Run: c22Chars},
			{Name: "pid", Quick: 512, Thorough: 640, Run: c22PID},
			{Name: "pid-random-source", Quick: 48, Thorough: 480, Serial: true, Run: c22Source},
		},
	}
}

const sidAlphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"

func sidText(v int) string {
	var b [4]byte
	for i := range b {
		b[i] = sidAlphabet[v>>uint(15-5*i)&31]
	}
	return string(b[:])
}

func c22SIDs(t *mon.T) {
	base := t.Index % 1024 * 1024
	prev := ""
	if base > 0 {
		prev = types.SIDFromInt(uint32(base - 1)).String()
	}
	num := func(s string) (v int) { // numeric order of base32 text
		for i := 0; i < len(s); i++ {
			v = v*32 + strings.IndexByte(sidAlphabet, s[i])
		}
		return
	}
	for v := base; v < base+1024; v++ {
		id := types.SIDFromInt(uint32(v))
		want := sidText(v)
		if s := id.String(); s != want {
			t.Failf("sid-text", "SIDFromInt(%d) = %q, expected %q", v, s, want)
		}
		if prev != "" && num(prev) >= num(id.String()) {
			t.Failf("sid-order", "%q is not before %q", prev, id)
		}
		prev = id.String()
		var buf bytes.Buffer
		if err := id.MarshalADC(&buf); err != nil || buf.String() != want {
			t.Failf("sid-adc", "%d: %q %v", v, buf.String(), err)
		}
		var back types.SID
		if err := back.UnmarshalADC(buf.Bytes()); err != nil || back != id {
			t.Failf("sid-parse", "%q: %q %v", want, back, err)
		}
		if types.SIDFromString(want) != id {
			t.Failf("sid-parse", "SIDFromString(%q)", want)
		}
	}
	t.Eval(1024 * 4)
	t.Ev("SIDs", 1024)
	t.Seen(fmt.Sprint(base))
	t.Sample(func() string { return fmt.Sprintf("SIDs %s..%s", sidText(base), prev) })
}

// caught returns a panic value of a call.
func caught(fnc func()) (v interface{}) {
	defer func() { v = recover() }()
	fnc()
	return nil
}

func c22SIDText(t *mon.T) {
	r := t.R
	n := t.Index % 64
	if n > 40 {
		n = r.Intn(9)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = sidAlphabet[r.Intn(32)]
	}
	if r.P(1, 4) {
		b = r.Bytes(n)
	}
	canary := types.SIDFromInt(uint32(r.Intn(1 << 20)))
	id := canary
	orig := string(b)
	err := id.UnmarshalADC(b)
	t.Eval(2)
	if n != 4 {
		if err == nil {
			t.Failf("sid-length", "%q accepted as %q", orig, id)
		}
		if id != canary {
			t.Failf("sid-partial", "rejected %q, but the value is now %q", orig, id)
		}
		if caught(func() { types.SIDFromString(orig) }) == nil {
			t.Failf("sid-length", "SIDFromString accepts %q", orig)
		}
		// as a packet header or a field
		if n == 3 || n == 5 {
			wb := []byte(orig)
			for i, c := range wb {
				if c == '\\' || c > 126 || c < 33 {
					wb[i] = 'A'
				}
			}
			w := string(wb)
			if p, err := adc.DecodePacket([]byte("BINF " + w + " NIx\n")); err == nil {
				t.Failf("sid-packet", "packet with a source %q accepted: %+v", w, p)
			}
			var m adc.SIDAssign
			if err := adc.Unmarshal([]byte(w), &m); err == nil {
				t.Failf("sid-field", "SID message with %q accepted: %+v", w, m)
			}
		}
		t.Ev("SIDs rejected", 1)
		t.Seen(orig)
		return
	}
	valid := true
	for i := range b {
		valid = valid && strings.IndexByte(sidAlphabet, b[i]) >= 0
	}
	if !valid {
		return
	}
	if err != nil || id.String() != orig {
		t.Failf("sid-parse", "%q: %q %v", orig, id, err)
	}
	for i := range b {
		b[i] = '#'
	}
	if id.String() != orig {
		t.Failf("sid-alias", "SID %q changed with its input", orig)
	}
	t.Ev("SIDs accepted", 1)
	t.Seen(orig)
}

func c22Value(r *mon.Rand) (h tiger.Hash) {
	switch r.Intn(8) {
	case 0:
	case 1:
		for i := range h {
			h[i] = 0xff
		}
	case 2:
		h[r.Intn(len(h))] = 1 << uint(r.Intn(8))
	case 3:
		h[r.Intn(len(h))] = byte(r.Intn(256))
	case 4:
		r.Fill(h[:])
		for i, n := 0, r.Intn(24); i < n; i++ {
			h[i] = 0
		}
	default:
		r.Fill(h[:])
	}
	return
}

const hexDigits = "0123456789abcdef"

func c22Forms(t *mon.T) {
	r := t.R
	h := c22Value(r)
	orig := h
	b32 := ref.Base32(h[:])
	hx := make([]byte, 0, 48)
	for _, c := range h {
		hx = append(hx, hexDigits[c>>4], hexDigits[c&15])
	}
	cid := types.CID(h)
	forms := map[string]func() (string, error){
		"String":      func() (string, error) { return h.String(), nil },
		"Base32":      func() (string, error) { return h.Base32(), nil },
		"MarshalText": func() (string, error) { b, err := h.MarshalText(); return string(b), err },
		"MarshalADC":  func() (string, error) { var buf bytes.Buffer; err := h.MarshalADC(&buf); return buf.String(), err },
		"MarshalADC after data": func() (string, error) {
			buf := bytes.NewBufferString("pre ")
			err := h.MarshalADC(buf)
			return strings.TrimPrefix(buf.String(), "pre "), err
		},
		"MarshalBase32": func() (string, error) {
			buf := make([]byte, tiger.Base32Size)
			err := h.MarshalBase32(buf)
			return string(buf), err
		},
		"CID String":      func() (string, error) { return cid.String(), nil },
		"CID Base32":      func() (string, error) { return cid.Base32(), nil },
		"CID MarshalText": func() (string, error) { b, err := cid.MarshalText(); return string(b), err },
		"CID MarshalADC":  func() (string, error) { var buf bytes.Buffer; err := cid.MarshalADC(&buf); return buf.String(), err },
		"fmt":             func() (string, error) { return fmt.Sprintf("%v", h), nil },
		"CID fmt":         func() (string, error) { return fmt.Sprint(cid), nil },
		"json": func() (string, error) {
			b, err := json.Marshal(h)
			return strings.Trim(string(b), `"`), err
		},
		"CID json": func() (string, error) {
			b, err := json.Marshal(cid)
			return strings.Trim(string(b), `"`), err
		},
		"NMDC search result": func() (string, error) {
			m := &nmdc.SR{From: "a", Path: []string{"b"}, FreeSlots: 1, TotalSlots: 2, TTH: (*nmdc.TTH)(&h), HubAddress: "c"}
			var buf bytes.Buffer
			err := m.MarshalNMDC(nil, &buf)
			s := buf.String()
			if i := strings.Index(s, "TTH:"); i >= 0 {
				s = s[i+4:]
			}
			if i := strings.IndexByte(s, ' '); i >= 0 {
				s = s[:i]
			}
			return s, err
		},
	}
	for name, fnc := range forms {
		s, err := fnc()
		if err != nil || s != b32 {
			t.Failf("form-"+name, "%x: %q %v, expected %q", orig, s, err, b32)
		}
	}
	if h.Hex() != string(hx) {
		t.Failf("form-hex", "%x: %q", orig, h.Hex())
	}
	if h.IsZero() != (orig == tiger.Hash{}) || cid.IsZero() != h.IsZero() {
		t.Failf("is-zero", "%x: %v %v", orig, h.IsZero(), cid.IsZero())
	}
	if !eq(h.Bytes(), orig[:]) {
		t.Failf("bytes", "%x: %x", orig, h.Bytes())
	}
	text := []byte(b32)
	for name, fnc := range hashParsers(r) {
		got, err := fnc(text)
		if err != nil || got != orig {
			t.Failf("parse-"+name, "%q: %x %v, expected %x", b32, got, err, orig)
		}
		if string(text) != b32 {
			t.Failf("parse-modifies", "%s changed its input to %q", name, text)
		}
	}
	if h != orig || cid != types.CID(orig) {
		t.Failf("value-modified", "%x: %x %x", orig, h, cid)
	}
	if got, want := cid.Hash(), ref.Tiger(orig[:]); [24]byte(got) != want {
		t.Failf("cid-of-pid", "PID %x: CID %x, expected %x", orig, got, want)
	}
	t.Eval(len(forms) + 12)
	t.Ev("values", 1)
	t.Seen(b32)
	t.Sample(func() string { return b32 })
}

// hashParsers are all functions which parse a hash, with a random canary in the destination.
// If a text is rejected, the destination must keep its value.
func hashParsers(r *mon.Rand) map[string]func(s []byte) (tiger.Hash, error) {
	var canary tiger.Hash
	r.Fill(canary[:])
	wrapH := func(fnc func(h *tiger.Hash, s []byte) error) func(s []byte) (tiger.Hash, error) {
		return func(s []byte) (tiger.Hash, error) {
			h := canary
			err := fnc(&h, s)
			if err != nil && h != canary {
				err = fmt.Errorf("PARTIAL: %w", err)
			}
			return h, err
		}
	}
	wrapC := func(fnc func(h *types.CID, s []byte) error) func(s []byte) (tiger.Hash, error) {
		return wrapH(func(h *tiger.Hash, s []byte) error { return fnc((*types.CID)(h), s) })
	}
	must := func(fnc func(s string) tiger.Hash) func(s []byte) (tiger.Hash, error) {
		return func(s []byte) (h tiger.Hash, err error) {
			defer func() {
				if v := recover(); v != nil {
					err = fmt.Errorf("%v", v)
				}
			}()
			return fnc(string(s)), nil
		}
	}
	return map[string]func(s []byte) (tiger.Hash, error){
		"FromBase32":        wrapH(func(h *tiger.Hash, s []byte) error { return h.FromBase32(string(s)) }),
		"UnmarshalBase32":   wrapH((*tiger.Hash).UnmarshalBase32),
		"UnmarshalText":     wrapH((*tiger.Hash).UnmarshalText),
		"UnmarshalADC":      wrapH((*tiger.Hash).UnmarshalADC),
		"CID FromBase32":    wrapC(func(h *types.CID, s []byte) error { return h.FromBase32(string(s)) }),
		"CID UnmarshalText": wrapC((*types.CID).UnmarshalText),
		"CID UnmarshalADC":  wrapC((*types.CID).UnmarshalADC),
		"MustParseBase32":   must(tiger.MustParseBase32),
		"MustParseCID":      must(func(s string) tiger.Hash { return tiger.Hash(types.MustParseCID(s)) }),
		"MustParseCIDP":     must(func(s string) tiger.Hash { return tiger.Hash(*types.MustParseCIDP(s)) }),
	}
}

func c22Reject(t *mon.T, s []byte) {
	for name, fnc := range hashParsers(t.R) {
		h, err := fnc(s)
		if err == nil {
			t.Failf("accepted-"+name, "%q (%d bytes) accepted as %x", s, len(s), h)
		}
		if strings.HasPrefix(err.Error(), "PARTIAL") {
			t.Failf("partial-"+name, "%q is rejected, but the destination was changed", s)
		}
	}
	t.Eval(10)
	t.Ev("texts rejected", 1)
	t.Seen(string(s))
}

func c22Wrong(t *mon.T) {
	r := t.R
	n := t.Index % 131
	s := make([]byte, n)
	for i := range s {
		s[i] = sidAlphabet[r.Intn(32)]
	}
	if n == tiger.Base32Size {
		h := c22Value(r)
		s = []byte(h.Base32())
		if r.Bool() {
			// foreign characters
			for i, k := 0, 1+r.Intn(8); i < k; i++ {
				for {
					c := byte(r.Intn(256))
					if r.Bool() {
						c = byte(mon.Pick(r, '\n', '\r', '=', ' ', 'a', 'z', '0', '1', '8', '9', 0, '\\'))
					}
					if strings.IndexByte(sidAlphabet, c) < 0 {
						s[r.Intn(len(s))] = c
						break
					}
				}
			}
			c22Reject(t, s)
		}
		return
	}
	switch r.Intn(5) {
	case 0:
		for i, k := 0, r.Intn(4); i < k && n > 0; i++ {
			s[r.Intn(n)] = mon.Pick(r, byte('='), '\n', '\r', ' ', 0, 'a')
		}
	case 1: // a valid text with line breaks or padding
		h := c22Value(r)
		s = []byte(h.Base32())
		s = insert(s, r.Intn(len(s)+1), []byte(mon.Pick(r, "\n", "\r\n", "=", " ", "A", "\x00", "======")))
	}
	c22Reject(t, s)
}

// c22Chars puts every byte to every position.
func c22Chars(t *mon.T) {
	h := c22Value(t.R)
	text := []byte(ref.Base32(h[:]))
	for c := 0; c < 256; c++ {
		s := append([]byte{}, text...)
		s[t.Index%39] = byte(c)
		if strings.IndexByte(sidAlphabet, byte(c)) < 0 {
			c22Reject(t, s)
			continue
		}
		for name, fnc := range hashParsers(t.R) {
			got, err := fnc(s)
			if err != nil {
				t.Failf("parse-"+name, "%q: %v", s, err)
			}
			// the last character carries 2 bits only
			if got := ref.Base32(got[:]); got[:38] != string(s[:38]) {
				t.Failf("parse-"+name, "%q: %q", s, got)
			}
		}
	}
}

func c22PID(t *mon.T) {
	const n = 256
	var mu sync.Mutex
	seen := map[types.PID]bool{}
	var or, and [24]byte
	for i := range and {
		and[i] = 0xff
	}
	add := func() {
		for i := 0; i < n; i++ {
			id, err := types.NewPID()
			if err != nil {
				t.Failf("pid-error", "%v", err)
			}
			mu.Lock()
			dup := seen[id]
			seen[id] = true
			for j, b := range id {
				or[j] |= b
				and[j] &= b
			}
			mu.Unlock()
			if dup {
				t.Failf("pid-repeats", "%v", id)
			}
			if id.IsZero() {
				t.Failf("pid-zero", "zero PID")
			}
			if got, want := id.Hash(), ref.Tiger(id[:]); [24]byte(got) != want {
				t.Failf("cid-of-pid", "%v: %v", id, got)
			}
		}
	}
	t.Par(add, add)
	for j := range or {
		if or[j] != 0xff || and[j] != 0 {
			t.Failf("pid-incomplete", "byte %d of %d PIDs: bits always clear %08b, always set %08b", j, len(seen), ^or[j], and[j])
		}
	}
	t.Eval(len(seen))
	t.Ev("PIDs", len(seen))
	t.Seen(fmt.Sprint(t.Index))
}

// randSource is a random source that delivers up to a given number of bytes at once and fails at the end.
type randSource struct {
	mu    sync.Mutex
	src   io.Reader
	max   int
	limit int // fails after this number of bytes; -1 for no limit
	reads int
}

func (s *randSource) Read(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.reads++
	if s.max > 0 && len(p) > s.max {
		p = p[:s.max]
	}
	if s.limit >= 0 && len(p) > s.limit {
		p = p[:s.limit]
		n, _ := s.src.Read(p)
		s.limit = 0
		return n, errors.New("the random source failed")
	}
	n, err := s.src.Read(p)
	if s.limit >= 0 {
		s.limit -= n
	}
	return n, err
}

// PIDFault generates a PID with a random source that fails after a given number of bytes.
// It runs in a separate process, since some functions of crypto/rand end the process in this case.
func PIDFault(arg string) {
	limit, err := strconv.Atoi(arg)
	if err != nil {
		os.Exit(3)
	}
	rand.Reader = &randSource{src: rand.Reader, limit: limit}
	id, err := types.NewPID()
	if err == nil {
		fmt.Printf("PID %v without an error", id)
	} else {
		fmt.Print("refused")
	}
}

// c22Source replaces the random source of the process; it runs alone.
func c22Source(t *mon.T) {
	if t.Index < 24 {
		exe, err := os.Executable()
		if err != nil {
			panic(err)
		}
		out, err := exec.Command(exe, "-pid-fault", strconv.Itoa(t.Index)).CombinedOutput()
		t.Eval(1)
		t.Logf("source of %d bytes: %q, %v", t.Index, out, err)
		if strings.Contains(string(out), "without an error") {
			t.Failf("pid-source", "the random source failed after %d bytes: %s", t.Index, out)
		} else if !strings.Contains(string(out), "refused") {
			t.Ev("process ended", 1)
		}
		t.Ev("failing sources", 1)
		t.Seen(fmt.Sprint(t.Index))
		return
	}
	old := rand.Reader
	src := &randSource{src: old, max: 1 + t.Index%23, limit: -1}
	rand.Reader = src
	defer func() { rand.Reader = old }()
	c22PID(t)
	t.Ev("reads of a slow source", src.reads)
}
