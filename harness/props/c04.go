package props

import (
	"fmt"

	"verif/harness/gen"
	"verif/harness/mon"
)

func c04() mon.Property {
	return mon.Property{
		ID: "C04",
		Rule: "A case is a random script of line writes, direct writes, keep-alives, message batches, flushes, compression switches and refused operations on a lineproto, NMDC or ADC writer (any buffer size, optionally over a bufio.Writer); " +
			"after every step the recorded wire must decode (independent inflate) to a prefix of the model stream, after every flush or close to all of it; buffers given to the writer are compared and overwritten after each call. " +
			"Non-trivial: something was written; distinct by script, configuration and wire.",
		Assume: []string{"the transport accepts everything it is given"},
		Monitors: []mon.Monitor{
			{Name: "order-exactly-once", Quick: 35000, Thorough: 200000, Run: c04Order},
			{Name: "compressed-sections", Quick: 4000, Thorough: 60000, Run: c03Round},
			{Name: "large-stream", Quick: 300, Thorough: 1500, Run: c04Large},
		},
	}
}

func c04Order(t *mon.T) {
	c04Run(t, wOpts{max: 30, size: 5000, zlib: t.R.Bool(), bad: true, msgs: true, closeAt: true})
}

func c04Large(t *mon.T) {
	c04Run(t, wOpts{max: 120, size: 30000, zlib: t.R.Bool(), bad: true, msgs: true, closeAt: true})
}

func c04Run(t *mon.T, o wOpts) {
	r := t.R
	c := randWConfig(r)
	ops := genOps(t, c, o)
	out := gen.NewWriter()
	w := c.open(out)
	armed := 0
	if r.Bool() {
		w.base.Timeout = func(enable bool) error {
			if enable {
				armed++
			}
			return nil
		}
	}
	hooks := r.Intn(3)
	for i := 0; i < hooks; i++ {
		w.OnLine(func(line []byte) (bool, error) { return true, nil })
	}
	var exp wStream
	on, every := false, r.P(1, 3)
	skip := 1 + len(ops)/100 // the whole stream is decoded each time
	for i, op := range ops {
		snap := ""
		if len(op.nmsg) != 0 || len(op.apkt) != 0 {
			snap = dump(op.nmsg, op.apkt)
		}
		err := w.do(t, op)
		t.Logf("%v -> %v", op, err)
		t.Eval(1)
		if snap != "" {
			if after := dump(op.nmsg, op.apkt); after != snap {
				t.Failf("message-modified", "writing modified a message: %s, was %s", after, snap)
			}
		}
		switch op.kind {
		case wBadLvl, wBadOn, wBadOff, wCheck:
			continue
		case wBadMsg:
			if err == nil {
				t.Failf("bad-message", "a message that cannot be encoded was written")
			}
			if err := w.Flush(); err != nil {
				t.Failf("healthy-error", "flush failed after an encoding error: %v", err)
			}
			exp2 := wStream{segs: append([]wSeg{}, exp.segs...)}
			exp2.cur().data = append(append([]byte{}, exp.cur().data...), op.data...)
			if n, _, derr := exp2.decode(out.Bytes()); derr == nil && n == exp2.size() {
				exp = exp2
			} else if n, _, derr := exp.decode(out.Bytes()); derr != nil || n != exp.size() {
				t.Failf("bad-message-stream", "after a batch with a message that cannot be encoded: %d of %d bytes, %v", n, exp.size(), derr)
			}
			continue
		}
		if err != nil {
			t.Failf("healthy-error", "%v failed on a healthy transport: %v", op, err)
		}
		exp.apply(op)
		switch op.kind {
		case wOn, wZOn:
			on = true
		case wOff:
			on = false
		}
		full := op.kind == wFlush || op.kind == wClose
		if !full && !every && i%7 != 0 || skip > 1 && i%skip != 0 && op.kind != wClose {
			continue
		}
		n, complete, derr := exp.decode(out.Bytes())
		t.Eval(1)
		if derr != nil {
			t.Failf("wire", "after step %d %v of %s: %v", i, op, opsString(ops), derr)
		}
		if full {
			t.Ev("flushes", 1)
			if n != exp.size() {
				t.Failf("not-flushed", "only %d of %d bytes are decodable after %v, compression on: %v", n, exp.size(), op, on)
			}
			if op.kind == wClose && !complete {
				t.Failf("close-incomplete", "the compressed stream is not complete after close")
			}
		}
	}
	t.Ev("bytes", exp.size())
	t.Ev("ops", len(ops))
	if exp.size() > 0 {
		t.Seen(fmt.Sprint(c, opsString(ops), mon.HashStr(string(out.Bytes()))))
	}
	t.Sample(func() string { return fmt.Sprintf("%v: %s", c, opsString(ops)) })
}
