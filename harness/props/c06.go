package props

import (
	"errors"
	"fmt"
	"io"
	"strings"

	"golang.org/x/text/encoding/charmap"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/nmdc"

	"verif/harness/gen"
	"verif/harness/mon"
)

func c06() mon.Property {
	return mon.Property{
		ID: "C06",
		Rule: "A case is a stream of messages (registered, unregistered, chat, undecodable, in an unknown encoding, keep-alives) and 0..3 hooks of each kind with random pass/drop/error decisions, some registered later; every hook call is logged and the log of each read or write call, " +
			"its result and the bytes written are compared with a model of the documented hook order. Non-trivial: a hook was called; distinct by stream, decisions and calls.",
		Assume: []string{"a line hook error on a writer ends the script (the writer is failed then)"},
		Monitors: []mon.Monitor{
			{Name: "nmdc-reader-hooks", Quick: 96000, Thorough: 400000, Run: c06Reader},
			{Name: "nmdc-writer-hooks", Quick: 64000, Thorough: 250000, Run: c06Writer},
			{Name: "line-and-adc-hooks", Quick: 64000, Thorough: 250000, Run: c06Lines},
		},
	}
}

type hookMsg struct {
	cmd, args string // wire form; chat has an empty cmd
	msg       nmdc.Message
	bad       bool // cannot be decoded
	unk       bool // not UTF-8
	keep      bool
}

func (m *hookMsg) line() string {
	if m.keep {
		return "|"
	}
	if m.cmd == "" {
		return m.args + "|"
	}
	if m.args == "" {
		return "$" + m.cmd + "|"
	}
	return "$" + m.cmd + " " + m.args + "|"
}

func plainText(r *mon.Rand) string {
	s := ""
	for i, n := 0, r.Intn(5); i < n; i++ {
		s += mon.Pick(r, "hello", " ", "world", "x", "<z>", "1", "- ")
	}
	return s
}

func genHookMsg(r *mon.Rand, read bool) *hookMsg {
	name := mon.Pick(r, "alice", "bob", "carol", "x")
	k := r.Intn(16)
	if !read && k >= 9 {
		k = r.Intn(9)
	}
	switch k {
	case 14:
		m := &nmdc.ADCGet{ContentType: "file", Identifier: nmdc.String(name), Start: 1, Length: 5, Compressed: r.Bool()}
		args := "file " + name + " 1 5"
		if m.Compressed {
			args += " ZL1"
		}
		return &hookMsg{cmd: "ADCGET", args: args, msg: m}
	case 15:
		m := &nmdc.ConnectToMe{Targ: name, Address: "1.2.3.4:5"}
		args := name + " 1.2.3.4:5"
		switch r.Intn(3) {
		case 0:
			m.Kind, m.Src = nmdc.CTMPassiveReq, "src"
			args += "N src"
		case 1:
			m.Secure = true
			args += "S"
		}
		return &hookMsg{cmd: "ConnectToMe", args: args, msg: m}
	case 0:
		return &hookMsg{keep: true}
	case 1, 2:
		txt := "t" + plainText(r)
		return &hookMsg{args: "<" + name + "> " + txt, msg: &nmdc.ChatMessage{Name: name, Text: txt}}
	case 3:
		return &hookMsg{cmd: "Quit", args: name, msg: &nmdc.Quit{Name: nmdc.Name(name)}}
	case 4:
		return &hookMsg{cmd: "GetPass", msg: &nmdc.GetPass{}}
	case 5:
		d := "data" + plainText(r)
		return &hookMsg{cmd: "Foo", args: d, msg: &nmdc.RawMessage{Typ: "Foo", Data: []byte(d)}}
	case 6:
		txt := plainText(r)
		return &hookMsg{cmd: "To:", args: name + " From: bob $<bob> " + txt, msg: &nmdc.PrivateMessage{To: name, From: "bob", Name: "bob", Text: txt}}
	case 7:
		return &hookMsg{cmd: "Hello", args: name, msg: &nmdc.Hello{Name: nmdc.Name(name)}}
	case 8:
		return &hookMsg{args: "system " + plainText(r), msg: nil}
	case 9:
		return &hookMsg{cmd: "Quit", args: "tab\tname", bad: true}
	case 10:
		return &hookMsg{cmd: "GetPass", args: "unexpected", bad: true}
	case 11:
		return &hookMsg{cmd: "Hello", args: "new\nline", bad: true}
	case 12:
		return &hookMsg{args: "<" + name + "> caf\xe9", msg: &nmdc.ChatMessage{Name: name, Text: "café"}, unk: true}
	}
	return &hookMsg{cmd: "Quit", args: "\xfcser", msg: &nmdc.Quit{Name: "üser"}, unk: true}
}

func init() { _ = charmap.Windows1252 }

// decider makes reproducible decisions of hooks.
type decider struct {
	seed  uint64
	calls map[string]int
	rate  int
}

const (
	pass = iota
	drop
	fail
)

func (d *decider) next(id string) int {
	n := d.calls[id]
	d.calls[id]++
	h := mon.HashStr(fmt.Sprint(d.seed, id, n))
	if h%100 >= uint64(d.rate) {
		return pass
	}
	if (h/100)%3 == 0 {
		return fail
	}
	return drop
}

func (d *decider) clone() *decider {
	return &decider{seed: d.seed, rate: d.rate, calls: map[string]int{}}
}

type hookErr string

func (e hookErr) Error() string { return "hook error " + string(e) }

// hookSet logs and answers hook calls.
type hookSet struct {
	d   *decider
	log []string
}

func (h *hookSet) call(id, arg string) (bool, error) {
	h.log = append(h.log, id+" "+arg)
	switch h.d.next(id) {
	case drop:
		return false, nil
	case fail:
		// an error is reported whatever the other result is
		return len(h.log)%2 == 0, hookErr(id)
	}
	return true, nil
}

func (h *hookSet) take() []string {
	l := h.log
	h.log = nil
	return l
}

func compareHooks(t *mon.T, what string, got, want []string, gotRes, wantRes string) {
	t.Eval(1)
	t.Ev("hook-calls", len(got))
	g, w := strings.Join(got, "\n"), strings.Join(want, "\n")
	t.Logf("%s:\n%s\n -> %s", what, g, gotRes)
	if g != w {
		t.Failf("hook-calls", "%s: hooks were called as\n%s\nexpected\n%s", what, g, w)
	}
	if gotRes != wantRes {
		t.Failf("hook-result", "%s: result %s, expected %s\ncalls:\n%s", what, gotRes, wantRes, g)
	}
}

// c06Model predicts a read on a NMDC reader.
type c06Model struct {
	d           *decider
	line, raw   int // number of hooks
	msg         int
	keep        bool
	unm, unkCb  bool
	msgs        []*hookMsg
	pos         int
	decoded     bool // a decoder was set
	log         []string
	unexpectErr string
}

func (m *c06Model) call(id, arg string) int {
	m.log = append(m.log, id+" "+arg)
	return m.d.next(id)
}

// readKind describes a read call.
type readKind struct {
	kind  string // "ReadMsg", "ReadMsgTo", "ReadMsgToAny"
	types []string
	wild  int // index of a wildcard in types; -1 for none
}

func (m *c06Model) read(k readKind) string {
next:
	for {
		if m.pos >= len(m.msgs) {
			return "EOF"
		}
		hm := m.msgs[m.pos]
		m.pos++
		for i := 0; i < m.line; i++ {
			switch id := fmt.Sprint("line", i); m.call(id, hm.line()) {
			case drop:
				continue next
			case fail:
				return "hook error " + id
			}
		}
		if hm.keep {
			if m.keep {
				if m.call("keepalive", "") == fail {
					return "hook error keepalive"
				}
			}
			continue
		}
		for i := 0; i < m.raw; i++ {
			switch id := fmt.Sprint("raw", i); m.call(id, fmt.Sprintf("%v %q %q", hm.cmd == "", hm.cmd, hm.args)) {
			case drop:
				continue next
			case fail:
				return "hook error " + id
			}
		}
		out := hm.msg
		if hm.msg == nil && !hm.bad {
			out = &nmdc.ChatMessage{Text: hm.args}
		}
		bad, unk := hm.bad, hm.unk
		if len(k.types) != 0 {
			idx := -1
			for i, typ := range k.types {
				if i == k.wild || typ == hm.cmd {
					idx = i
					break
				}
			}
			if idx < 0 {
				return fmt.Sprintf("unexpected %q %q", k.types[0], hm.cmd)
			}
			if idx == k.wild {
				out = &nmdc.RawMessage{Typ: hm.cmd, Data: []byte(hm.args)}
				bad, unk = false, false
			}
		}
		err := ""
		if bad {
			err = "decode error"
		} else if unk && !m.decoded {
			err = "decode error"
			if m.unkCb {
				if m.call("unknown", "") == pass {
					err = ""
					m.decoded = true
				} else {
					return "hook error unknown"
				}
			}
		}
		if err != "" {
			if !m.unm {
				return err
			}
			switch m.call("unmarshal", strings.TrimSuffix(hm.line(), "|")) {
			case drop:
				continue
			default:
				return "hook error unmarshal"
			}
		}
		for i := 0; i < m.msg; i++ {
			switch id := fmt.Sprint("msg", i); m.call(id, dump(out)) {
			case drop:
				continue next
			case fail:
				return "hook error " + id
			}
		}
		return dump(out)
	}
}

func c06Reader(t *mon.T) {
	r := t.R
	var msgs []*hookMsg
	data := ""
	for i, n := 0, 1+gen.Count(r, 14); i < n; i++ {
		m := genHookMsg(r, true)
		msgs = append(msgs, m)
		data += m.line()
	}
	tr := gen.NewReader(r, []byte(data))
	rd := nmdc.NewReader(tr)
	d := &decider{seed: r.U64(), rate: mon.Pick(r, 0, 10, 30, 60, 1), calls: map[string]int{}}
	hs := &hookSet{d: d}
	m := &c06Model{d: d.clone(), msgs: msgs}
	addHooks := func() {
		switch r.Intn(3) {
		case 0:
			id := fmt.Sprint("line", m.line)
			m.line++
			rd.OnLine(func(line []byte) (bool, error) { return hs.call(id, string(line)) })
		case 1:
			id := fmt.Sprint("raw", m.raw)
			m.raw++
			rd.OnRawMessage(func(cmd, args []byte) (bool, error) {
				return hs.call(id, fmt.Sprintf("%v %q %q", cmd == nil, cmd, args))
			})
		case 2:
			id := fmt.Sprint("msg", m.msg)
			m.msg++
			rd.OnMessage(func(msg nmdc.Message) (bool, error) { return hs.call(id, dump(msg)) })
		}
	}
	for i, n := 0, gen.Count(r, 7); i < n; i++ {
		addHooks()
	}
	if m.keep = r.Bool(); m.keep {
		rd.OnKeepAlive = func() error {
			_, err := hs.call("keepalive", "")
			return err
		}
	}
	if m.unm = r.Bool(); m.unm {
		rd.OnUnmarshalError = func(text []byte, err error) (bool, error) {
			if err == nil {
				t.Failf("unmarshal-nil", "OnUnmarshalError was called without an error")
			}
			if ok, err := hs.call("unmarshal", string(text)); !ok && err == nil {
				return false, nil
			}
			return true, hookErr("unmarshal")
		}
	}
	if m.unkCb = r.Bool(); m.unkCb {
		rd.OnUnknownEncoding = func(text []byte) (*nmdc.TextDecoder, error) {
			ok, err := hs.call("unknown", "")
			if err != nil && ok {
				return charmap.Windows1252.NewDecoder(), hookErr("unknown")
			} else if err != nil || !ok {
				return nil, hookErr("unknown")
			}
			return charmap.Windows1252.NewDecoder(), nil
		}
	}
	calls := ""
	for i := 0; i < len(msgs)+2; i++ {
		if r.P(1, 12) {
			addHooks()
		}
		k := readKind{kind: "ReadMsg", wild: -1}
		var args []nmdc.Message
		switch r.Intn(4) {
		case 0:
			k.kind = "ReadMsgTo"
			c := mon.Pick[nmdc.Message](r, &nmdc.Quit{}, &nmdc.ChatMessage{}, &nmdc.PrivateMessage{}, &nmdc.GetPass{}, &nmdc.ADCGet{}, &nmdc.ConnectToMe{}, &nmdc.RawMessage{Typ: "Foo"})
			args, k.types = []nmdc.Message{c}, []string{c.Type()}
		case 1:
			k.kind = "ReadMsgToAny"
			cand := []nmdc.Message{&nmdc.Quit{}, &nmdc.ChatMessage{}, &nmdc.PrivateMessage{}, &nmdc.GetPass{}, &nmdc.ADCGet{}, &nmdc.ConnectToMe{}, &nmdc.Hello{}, &nmdc.RawMessage{Typ: "Foo"}, &nmdc.RawMessage{}}
			for _, j := range r.Perm(len(cand))[:1+r.Intn(len(cand))] {
				if raw, ok := cand[j].(*nmdc.RawMessage); ok && raw.Typ == "" {
					k.wild = len(k.types)
				}
				args = append(args, cand[j])
				k.types = append(k.types, cand[j].Type())
			}
		}
		m.log = nil
		want := m.read(k)
		var (
			msg nmdc.Message
			err error
		)
		switch k.kind {
		case "ReadMsg":
			msg, err = rd.ReadMsg()
		case "ReadMsgTo":
			err = rd.ReadMsgTo(args[0])
			msg = args[0]
		default:
			msg, err = rd.ReadMsgToAny(args...)
		}
		got := ""
		var (
			he hookErr
			ue *nmdc.ErrUnexpectedCommand
		)
		switch {
		case err == nil:
			got = dump(msg)
			if k.kind == "ReadMsgToAny" {
				same := false
				for _, a := range args {
					same = same || a == msg
				}
				if !same {
					t.Failf("returned-other", "ReadMsgToAny returned a message that was not given: %s", dump(msg))
				}
			}
			t.Ev("messages-returned", 1)
		case err == io.EOF:
			got = "EOF"
		case errors.As(err, &he):
			got = he.Error()
			t.Ev("hook-errors", 1)
		case errors.As(err, &ue):
			got = fmt.Sprintf("unexpected %q %q", ue.Expected, ue.Received.Typ)
		default:
			got = "decode error"
		}
		compareHooks(t, fmt.Sprintf("%s %q of %q", k.kind, k.types, data), hs.take(), m.log, got, want)
		calls += k.kind + strings.Join(k.types, ",")
	}
	t.Seen(fmt.Sprint(data, d.seed, calls))
	t.Sample(func() string {
		return fmt.Sprintf("%d line, %d raw, %d message hooks on %q", m.line, m.raw, m.msg, data)
	})
}

func c06Writer(t *mon.T) {
	r := t.R
	out := gen.NewWriter()
	w := nmdc.NewWriterSize(out, mon.Pick(r, bufSizes...))
	d := &decider{seed: r.U64(), rate: mon.Pick(r, 0, 10, 30, 60, 1), calls: map[string]int{}}
	hs := &hookSet{d: d}
	md := d.clone()
	var (
		log          []string
		lines, mhook int
		want         strings.Builder
	)
	call := func(id, arg string) int {
		log = append(log, id+" "+arg)
		return md.next(id)
	}
	add := func() {
		if r.Bool() {
			id := fmt.Sprint("line", lines)
			lines++
			w.OnLine(func(line []byte) (bool, error) { return hs.call(id, string(line)) })
		} else {
			id := fmt.Sprint("msg", mhook)
			mhook++
			w.OnMessage(func(m nmdc.Message) (bool, error) { return hs.call(id, dump(m)) })
		}
	}
	for i, n := 0, gen.Count(r, 5); i < n; i++ {
		add()
	}
	// line models writing of a single line
	line := func(s string) string {
		for i := 0; i < lines; i++ {
			switch id := fmt.Sprint("line", i); call(id, s) {
			case drop:
				return "ok"
			case fail:
				return "fatal hook error " + id
			}
		}
		want.WriteString(s)
		return "ok"
	}
	desc := ""
	for i, n := 0, 1+gen.Count(r, 12); i < n; i++ {
		if r.P(1, 12) {
			add()
		}
		log = nil
		var (
			err  error
			exp  string
			what string
		)
		switch r.Intn(6) {
		case 0:
			what = "keep-alive"
			exp = line("|")
			err = w.WriteKeepAlive()
		case 1:
			what = "line"
			exp = line("$Some line|")
			err = w.WriteLine([]byte("$Some line|"))
		case 2:
			what, exp = "raw", "ok"
			want.WriteString("raw data")
			_, err = w.Write([]byte("raw data"))
		default:
			what = "batch"
			var arr []nmdc.Message
			exp = "ok"
			for j, k := 0, r.Intn(5); j < k; j++ {
				hm := genHookMsg(r, false)
				if hm.keep {
					continue
				}
				if hm.msg == nil {
					hm.msg = &nmdc.ChatMessage{Text: hm.args}
				}
				arr = append(arr, hm.msg)
				what += " " + hm.line()
				if exp != "ok" {
					continue
				}
				res := ""
			hooks:
				for h := 0; h < mhook; h++ {
					switch id := fmt.Sprint("msg", h); call(id, dump(hm.msg)) {
					case drop:
						res = "drop"
						break hooks
					case fail:
						res = "hook error " + id
						break hooks
					}
				}
				switch res {
				case "drop":
				case "":
					exp = line(hm.line())
				default:
					exp = res
				}
			}
			err = w.WriteMsg(arr...)
		}
		got := "ok"
		fatal := strings.HasPrefix(exp, "fatal ")
		exp = strings.TrimPrefix(exp, "fatal ")
		if err != nil {
			got = err.Error()
			var he hookErr
			if errors.As(err, &he) {
				got = he.Error()
				t.Ev("hook-errors", 1)
			}
		}
		compareHooks(t, "writing "+what, hs.take(), log, got, exp)
		desc += what + ";"
		if fatal {
			break
		}
	}
	if err := w.Flush(); err == nil {
		if out.Buf.String() != want.String() {
			t.Failf("hook-written", "written: %s", diff(out.Bytes(), []byte(want.String())))
		}
	} else if !isPrefix(out.Bytes(), []byte(want.String())) {
		t.Failf("hook-written", "written: %s", diff(out.Bytes(), []byte(want.String())))
	}
	t.Seen(fmt.Sprint(desc, d.seed))
	t.Sample(func() string { return fmt.Sprintf("%d line, %d message hooks: %s", lines, mhook, desc) })
}

// c06Lines checks hooks of plain line readers and writers and of the ADC reader.
func c06Lines(t *mon.T) {
	r := t.R
	var lines []string
	kind := r.Intn(3)
	delim := "\n"
	if kind == 1 {
		delim = "|"
	}
	for i, n := 0, 1+gen.Count(r, 12); i < n; i++ {
		switch {
		case r.P(1, 4):
			lines = append(lines, delim)
		case kind == 2:
			lines = append(lines, fmt.Sprintf("%sMSG text%d%s", mon.Pick(r, "I", "C", "H"), i, delim))
		default:
			lines = append(lines, strings.Repeat("x", gen.Size(r, 3000))+fmt.Sprint(i)+delim)
		}
	}
	// write
	d := &decider{seed: r.U64(), rate: mon.Pick(r, 0, 10, 30, 60, 1), calls: map[string]int{}}
	hs, md := &hookSet{d: d}, d.clone()
	out := gen.NewWriter()
	w := wConfig{kind: kind % 3, size: mon.Pick(r, bufSizes...)}.open(out)
	nh := gen.Count(r, 4)
	for i := 0; i < nh; i++ {
		id := fmt.Sprint("write", i)
		w.OnLine(func(line []byte) (bool, error) { return hs.call(id, string(line)) })
	}
	wire := ""
	var left []string
write:
	for _, l := range lines {
		var log []string
		exp, fatal := "ok", false
	hooks:
		for i := 0; i < nh; i++ {
			id := fmt.Sprint("write", i)
			log = append(log, id+" "+l)
			switch md.next(id) {
			case drop:
				exp = "drop"
				break hooks
			case fail:
				exp, fatal = hookErr(id).Error(), true
				break hooks
			}
		}
		if exp == "ok" {
			wire += l
			left = append(left, l)
		}
		var err error
		if l == delim && w.nw != nil {
			err = w.nw.WriteKeepAlive()
		} else if l == delim && w.aw != nil {
			err = w.aw.WriteKeepAlive()
		} else if w.aw != nil {
			m := &adc.RawMessage{Type: adc.MsgType{'M', 'S', 'G'}, Data: []byte(l[5 : len(l)-1])}
			switch l[0] {
			case 'I':
				err = w.aw.WriteInfo(m)
			case 'C':
				err = w.aw.WriteClient(m)
			default:
				err = w.aw.WriteHub(m)
			}
		} else {
			err = w.WriteLine([]byte(l))
		}
		got := "ok"
		if err != nil {
			got = err.Error()
		}
		if exp == "drop" {
			exp = "ok"
		}
		compareHooks(t, "writing "+gen.Quote([]byte(l)), hs.take(), log, got, exp)
		if fatal {
			break write
		}
	}
	if err := w.Flush(); err == nil && out.Buf.String() != wire {
		t.Failf("hook-written", "written: %s", diff(out.Bytes(), []byte(wire)))
	}

	// read
	d = &decider{seed: r.U64(), rate: mon.Pick(r, 0, 10, 30, 60, 1), calls: map[string]int{}}
	hs, md = &hookSet{d: d}, d.clone()
	tr := gen.NewReader(r, []byte(wire))
	var rd lineRd
	switch kind {
	case 0:
		rd, _, _ = newDelimReader(tr, delim[0])
	case 1:
		rd = newReaderKind("nmdc", tr)
	default:
		rd = newReaderKind("adc", tr)
	}
	rd.SetMaxLine(0)
	nr := gen.Count(r, 4)
	for i := 0; i < nr; i++ {
		id := fmt.Sprint("read", i)
		rd.OnLine(func(line []byte) (bool, error) { return hs.call(id, string(line)) })
	}
	ar, _ := rd.(*adc.Reader)
	keep := ar != nil && r.Bool()
	if keep {
		ar.OnKeepAlive = func() error {
			_, err := hs.call("keepalive", "")
			return err
		}
	}
	pos := 0
	for i := 0; i < len(left)+2; i++ {
		op := "ReadLine"
		if ar != nil {
			op = mon.Pick(r, "ReadPacket", "ReadPacketRaw", "ReadInfo", "ReadClient", "ReadLine")
		}
		var log []string
		exp := ""
	model:
		for {
			if pos >= len(left) {
				exp = "EOF"
				break
			}
			l := left[pos]
			pos++
			for j := 0; j < nr; j++ {
				id := fmt.Sprint("read", j)
				log = append(log, id+" "+l)
				switch md.next(id) {
				case drop:
					continue model
				case fail:
					exp = hookErr(id).Error()
					break model
				}
			}
			if op != "ReadLine" && l == "\n" {
				if keep {
					log = append(log, "keepalive ")
					if md.next("keepalive") == fail {
						exp = hookErr("keepalive").Error()
						break model
					}
				}
				continue
			}
			switch {
			case op == "ReadLine":
				exp = l
			case op == "ReadInfo" && l[0] != 'I', op == "ReadClient" && l[0] != 'C':
				exp = "other error"
			default:
				exp = l[5 : len(l)-1]
			}
			break
		}
		got := ""
		var err error
		switch op {
		case "ReadLine":
			var line []byte
			line, err = rd.ReadLine()
			got = string(line)
		default:
			var (
				p adc.Packet
				m adc.Message
			)
			switch op {
			case "ReadPacket":
				p, err = ar.ReadPacket()
			case "ReadPacketRaw":
				p, err = ar.ReadPacketRaw()
			case "ReadInfo":
				m, err = ar.ReadInfo()
			case "ReadClient":
				m, err = ar.ReadClient()
			}
			if err == nil {
				if p != nil {
					m = p.Message()
				}
				switch m := m.(type) {
				case *adc.RawMessage:
					got = string(m.Data)
				case adc.ChatMessage:
					got = string(m.Text)
				}
			}
		}
		var he hookErr
		switch {
		case err == nil:
		case err == io.EOF:
			got = "EOF"
		case errors.As(err, &he):
			got = he.Error()
			t.Ev("hook-errors", 1)
		default:
			got = "other error"
		}
		compareHooks(t, op, hs.take(), log, got, exp)
	}
	t.Seen(fmt.Sprint(kind, wire, d.seed, nh, nr))
	t.Sample(func() string {
		return fmt.Sprintf("kind %d, %d write hooks, %d read hooks, %d lines, %d left", kind, nh, nr, len(lines), len(left))
	})
}
