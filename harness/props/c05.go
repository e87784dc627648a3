package props

import (
	"fmt"
	"io"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/nmdc"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
)

func c05() mon.Property {
	return mon.Property{
		ID: "C05",
		Rule: "A case is a random writer script; it is first run without faults to count transport writes and timeout arms, then re-run with a failure injected at each (or, in long scripts, at sampled) transport writes (accepting 0, some or all bytes) and at each timeout arm. " +
			"Monitors: error reported by the next flush/close, all later operations fail, no byte is handed over after the failure, accepted bytes decode to a prefix of the model stream, timeout armed around every transport write and released, nothing written after close, no panics. " +
			"Non-trivial: a fault was actually injected; distinct by script, configuration and fault.",
		Assume: []string{"a failure to release (disarm) a timeout is not a failure of the write", "close may still hand over accepted data after a failure of the timeout callback, if arming succeeds then"},
		Monitors: []mon.Monitor{
			{Name: "fault-enumeration", Quick: 6000, Thorough: 40000, Run: c05Faults},
			{Name: "closed-use", Quick: 12500, Thorough: 60000, Run: c05Closed},
			{Name: "failed-reader", Quick: 12500, Thorough: 60000, Run: c05Reader},
		},
	}
}

type wFault struct {
	write   int // index of a failing transport write; -1 for none
	keep    int
	arm     int // index of a failing timeout arm; -1 for none
	timeout bool
}

func (f wFault) String() string {
	return fmt.Sprintf("fault{write %d, accepted %d, arm %d, timeout callback %v}", f.write, f.keep, f.arm, f.timeout)
}

// c05Run runs a script with a fault and returns a number of transport writes and timeout arms.
func c05Run(t *mon.T, c wConfig, ops []*wOp, f wFault, faulty bool) (writes, arms int, injected bool) {
	out := gen.NewWriter()
	out.FailAt, out.FailKeep = f.write, f.keep
	w := c.open(out)
	var (
		armed    bool
		timeFail bool // the timeout callback failed
		failed   = func() bool { return out.Failed || timeFail }
	)
	sig := func(s string) string {
		if f.arm >= 0 {
			return s + "-timeout"
		}
		return s
	}
	if f.timeout {
		w.base.Timeout = func(enable bool) error {
			if !enable {
				armed = false
				return nil
			}
			i := arms
			arms++
			if i == f.arm {
				timeFail = true
				return gen.ErrTimeout
			}
			armed = true
			return nil
		}
	}
	exp := wStream{partial: faulty}
	desc := func() string { return fmt.Sprintf("%v, %v, script %s", c, f, opsString(ops)) }
	closed := false
	reported := false
	handed := 0 // bytes handed to the transport after the failure of the timeout callback
	cur := ""
	out.OnWrite = func(p []byte) {
		if f.timeout && !armed {
			t.Failf("not-armed", "transport write of %d bytes without an armed timeout in %s: %s", len(p), cur, desc())
		}
		if closed {
			t.Failf("write-after-close", "%d bytes were handed to the transport after close: %s", len(p), desc())
		}
		if timeFail {
			handed += len(p)
		}
	}
	more := []*wOp{
		{kind: wLine, data: []byte("late line" + string([]byte{c.delim()}))},
		{kind: wRaw, data: []byte("late data")},
		{kind: wFlush}, {kind: wOn, lvl: -1}, {kind: wOff}, {kind: wFlush},
	}
	switch mon.HashStr(opsString(ops)) % 4 {
	case 0:
		more = nil // close with buffered data, possibly compressed
	case 1:
		more = more[:3]
	case 2:
		more = more[:4]
	}
	all := append(append([]*wOp{}, ops...), more...)
	all = append(all, &wOp{kind: wClose}, &wOp{kind: wClose}, &wOp{kind: wRaw, data: []byte("after close")}, &wOp{kind: wLine, data: []byte("x")}, &wOp{kind: wFlush})
	on := false
	for i, op := range all {
		cur = op.String()
		was, wasReported := failed(), reported
		if op.kind == wClose && timeFail {
			handed = -1 << 40 // allowed to flush accepted data
		}
		err := w.do(t, op)
		t.Logf("%v -> %v (failed=%v)", op, err, failed())
		t.Eval(1)
		if f.timeout && armed {
			t.Failf("not-released", "the timeout is still armed after %v: %s", op, desc())
		}
		if !failed() && !closed {
			switch op.kind {
			case wBadLvl, wBadOn, wBadOff, wCheck:
			case wOff:
				if (err == nil) != on {
					t.Failf("healthy-error", "%v without a fault: %v: %s", op, err, desc())
				}
			case wOn, wZOn:
				if err != nil && !on {
					t.Failf("healthy-error", "%v without a fault: %v: %s", op, err, desc())
				}
			default:
				if err != nil {
					t.Failf("healthy-error", "%v without a fault: %v: %s", op, err, desc())
				}
			}
		}
		if !closed {
			// something may be written even if an error was returned
			if err == nil || failed() {
				if !was {
					exp.apply(op)
				}
				switch {
				case err != nil:
				case op.kind == wOn || op.kind == wZOn:
					on = true
				case op.kind == wOff:
					on = false
				}
			}
		}
		if failed() && err != nil {
			reported = true
		} else if failed() && !was {
			t.Failf(sig("silent"), "%v succeeded although it failed to write: %s", op, desc())
		}
		switch op.kind {
		case wFlush, wClose:
			if failed() && !reported {
				t.Failf(sig("unreported"), "a failure is not reported by %v: %s", op, desc())
			}
		}
		if wasReported && err == nil && !closed {
			switch op.kind {
			case wClose, wCheck:
			case wMsg:
				if len(op.data) != 0 {
					t.Failf(sig("not-sticky"), "step %d: %v succeeded after a reported failure: %s", i, op, desc())
				}
			default:
				t.Failf(sig("not-sticky"), "step %d: %v succeeded after a reported failure: %s", i, op, desc())
			}
		}
		if out.After > 0 {
			t.Failf("bytes-after-failure", "%d bytes were handed to the transport after it failed, in %v: %s", out.After, op, desc())
		}
		if handed > 0 && op.kind != wClose {
			t.Failf("bytes-after-timeout-failure", "%d bytes were handed to the transport after the timeout callback failed, in %v: %s", handed, op, desc())
		}
		if op.kind == wClose {
			closed = true
		}
		if failed() && !was {
			if _, _, derr := exp.decode(out.Bytes()); derr != nil {
				t.Failf(sig("not-prefix"), "after a failure in %v the accepted bytes are not a prefix of what was written: %v: %s", op, derr, desc())
			}
		}
	}
	if _, _, derr := exp.decode(out.Bytes()); derr != nil {
		t.Failf(sig("not-prefix"), "the accepted bytes are not a prefix of what was written: %v: %s", derr, desc())
	}
	return out.Calls, arms, failed()
}

func c05Faults(t *mon.T) {
	r := t.R
	c := randWConfig(r)
	if c.bufd != 0 && r.Bool() {
		c.bufd = 0
	}
	ops := genOps(t, c, wOpts{max: 14, size: mon.Pick(r, 60, 600, 9000), zlib: r.P(2, 3), msgs: true})
	timeout := r.Bool()
	writes, arms, _ := c05Run(t, c, ops, wFault{write: -1, arm: -1, timeout: timeout}, false)
	t.Ev("transport-writes", writes)
	t.Ev("timeout-arms", arms)
	max := 8
	if t.Thorough() {
		max = 40
	}
	pick := func(n int) []int {
		if n <= max {
			out := make([]int, n)
			for i := range out {
				out[i] = i
			}
			return out
		}
		var out []int
		for i := 0; i < max; i++ {
			out = append(out, r.Intn(n))
		}
		return out
	}
	for _, i := range pick(writes) {
		f := wFault{write: i, arm: -1, timeout: timeout, keep: mon.Pick(r, 0, 0, 1, r.Intn(200), 1<<20)}
		_, _, inj := c05Run(t, c, ops, f, true)
		if inj {
			t.Ev("transport-faults", 1)
			t.Seen(fmt.Sprint(c, f, opsString(ops)))
		}
	}
	for _, i := range pick(arms) {
		f := wFault{write: -1, arm: i, timeout: true}
		_, _, inj := c05Run(t, c, ops, f, true)
		if inj {
			t.Ev("timeout-faults", 1)
			t.Seen(fmt.Sprint(c, f, opsString(ops)))
		}
	}
	t.Sample(func() string {
		return fmt.Sprintf("%v, %d transport writes, %d timeout arms: %s", c, writes, arms, opsString(ops))
	})
}

// c05Closed uses closed readers and writers in every way.
func c05Closed(t *mon.T) {
	r := t.R
	c := randWConfig(r)
	out := gen.NewWriter()
	w := c.open(out)
	ops := genOps(t, c, wOpts{max: 6, size: 300, zlib: true, msgs: true})
	arm := 0
	if r.Bool() {
		w.base.Timeout = func(enable bool) error {
			if enable {
				arm++
			}
			return nil
		}
	}
	for _, op := range ops {
		_ = w.do(t, op)
	}
	if err := w.Close(); err != nil {
		t.Failf("close-error", "close on a healthy transport: %v", err)
	}
	n := out.Calls
	for i := 0; i < 12; i++ {
		op := &wOp{kind: mon.Pick(r, wLine, wRaw, wFlush, wOn, wOff, wClose, wCheck, wBadLvl), data: []byte("zzz"), lvl: r.Range(-3, 10)}
		if c.kind == 1 && r.P(1, 4) {
			op.kind, op.nmsg = mon.Pick(r, wMsg, wKeep, wZOn), []nmdc.Message{simpleMsg(r)}
		} else if c.kind == 2 && r.P(1, 4) {
			op.kind, op.apkt = mon.Pick(r, wMsg, wKeep), []adc.Packet{simplePacket(r)}
		}
		if r.P(1, 10) {
			w.OnLine(func(line []byte) (bool, error) { return true, nil })
		}
		err := w.do(t, op)
		t.Logf("%v -> %v", op, err)
		t.Eval(1)
		if out.Calls != n {
			t.Failf("write-after-close", "%v on a closed writer wrote to the transport", op)
		}
		_ = w.Err()
		t.Ev("ops-on-closed-writer", 1)
	}
	t.Seen(fmt.Sprint(c, opsString(ops), t.Index))
}

// c05Reader uses closed and failed readers in every way; only errors are expected.
func c05Reader(t *mon.T) {
	r := t.R
	tr := gen.NewReader(r, nil)
	rd, delim, kind := newLineReader(r, tr)
	var z []byte
	for i, n := 0, r.Intn(4); i < n; i++ {
		p := make([]byte, r.Intn(100))
		fillNo(r, p, delim)
		z = append(z, append(p, delim)...)
	}
	zl := r.Bool()
	data := append([]byte("plain"), delim)
	if zl {
		data = append(data, ref.ZlibEncode(r, z)...)
		if r.Bool() {
			data = data[:len(data)-r.Intn(8)]
		}
	} else {
		data = append(data, z...)
	}
	tr.Data = data
	if r.Bool() {
		tr.Err = gen.ErrTransport
	}
	_, _ = rd.ReadLine()
	if zl {
		_ = rd.EnableZlib()
	}
	bin, _ := rd.Binary(uint64(1 + r.Intn(1000)))
	closed := false
	for i := 0; i < 25; i++ {
		if !closed && r.P(1, 8) {
			_ = rd.Close()
			closed = true
		}
		t.Eval(1)
		var err error
		op := r.Intn(7)
		what := ""
		buf := make([]byte, r.Intn(300)+1)
		must := closed
		switch op {
		case 0, 1:
			what = "ReadLine"
			_, err = rd.ReadLine()
		case 2:
			what = "Read"
			_, err = rd.Read(buf)
		case 3:
			what = "EnableZlib"
			err = rd.EnableZlib()
		case 4:
			what = "Binary"
			var b io.ReadCloser
			b, err = rd.Binary(10)
			if err == nil {
				bin = b
			}
		case 5:
			what = "binary.Read"
			if bin == nil {
				continue
			}
			_, err = bin.Read(buf)
		case 6:
			what, must = "close", false
			if bin != nil {
				_ = bin.Close()
				bin = nil
			}
			if closed {
				_ = rd.Close()
			}
			rd.SetMaxLine(r.Intn(100) - 10)
		}
		t.Logf("%s -> %v (closed=%v)", what, err, closed)
		if must && err == nil {
			t.Failf("closed-reader", "%s on a closed reader succeeded", what)
		}
		t.Ev("ops-on-failed-reader", 1)
	}
	if r.P(1, 3) {
		// protocol reads
		if m, ok := rd.(*nmdc.Reader); ok {
			_, _ = m.ReadMsg()
			_ = m.ReadMsgTo(&nmdc.Quit{})
			_, _ = m.ReadMsgToAny(&nmdc.Quit{}, &nmdc.RawMessage{})
		}
		if m, ok := rd.(*adc.Reader); ok {
			_, _ = m.ReadPacket()
			_, _ = m.ReadPacketRaw()
			_, _ = m.ReadInfo()
			_, _ = m.ReadClient()
		}
	}
	t.Seen(fmt.Sprint(kind, zl, t.Index))
}
