package props

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/nmdc"

	"verif/harness/gen"
	"verif/harness/mon"
)

func c25() mon.Property {
	return mon.Property{
		ID: "C25",
		Rule: "A case keeps a pool of live sets and a reference model of each. Random operations (add, clone, intersect with sets and lists, combine, decode an update, encode and decode) make new sets from old ones; after every operation the result and all other sets of the pool are compared with the models, " +
			"and results are then changed to expose shared state. Non-trivial: a case with a non-empty result of a binary operation; distinct by history.",
		Assume: []string{"one update doesn't add and remove the same feature", "membership of removed features (ModFeatures.IsSet) is not defined"},
		Monitors: []mon.Monitor{
			{Name: "nmdc-extensions", Quick: 72000, Thorough: 600000, Run: c25Ext},
			{Name: "nmdc-supports", Quick: 72000, Thorough: 600000, Run: c25Supports},
			{Name: "adc-modfeatures", Quick: 72000, Thorough: 600000, Run: c25Mod},
			{Name: "adc-extfeatures", Quick: 72000, Thorough: 600000, Run: c25ExtFea},
			{Name: "scale", Quick: 500, Thorough: 20000, Run: c25Scale},
			{Name: "adc-updates-over-wire", Quick: 24000, Thorough: 200000, Run: c25Wire},
		},
	}
}

type strSet map[string]bool

func (s strSet) clone() strSet {
	m := strSet{}
	for k := range s {
		m[k] = true
	}
	return m
}

func (s strSet) sorted() []string {
	arr := make([]string, 0, len(s))
	for k := range s {
		arr = append(arr, k)
	}
	sort.Strings(arr)
	return arr
}

var extNames = []string{"NoHello", "NoGetINFO", "UserCommand", "UserIP2", "TTHSearch", "ZPipe0", "TLS", "a", "A", "", "TL", "TLS2", "日本", "x-y"}

func extSub(r *mon.Rand) []string {
	n := r.Intn(len(extNames) + 1)
	var arr []string
	for _, i := range r.Perm(len(extNames))[:n] {
		arr = append(arr, extNames[i])
	}
	return arr
}

func c25Ext(t *mon.T) {
	r := t.R
	type pair struct {
		e nmdc.Extensions
		m strSet
	}
	var pool []*pair
	check := func(op string) {
		for i, p := range pool {
			if len(p.e) != len(p.m) {
				t.Failf("ext-set", "after %s: set %d is %v, expected %v", op, i, p.e, p.m.sorted())
			}
			for _, k := range extNames {
				if p.e.Has(k) != p.m[k] {
					t.Failf("ext-has", "after %s: set %d: Has(%q) = %v, expected set %v", op, i, k, p.e.Has(k), p.m.sorted())
				}
			}
		}
		t.Eval(len(pool))
	}
	var hist strings.Builder
	nontrivial := false
	for i, n := 0, r.Range(4, 14); i < n; i++ {
		var a, b *pair
		if len(pool) > 0 {
			a, b = pool[r.Intn(len(pool))], pool[r.Intn(len(pool))]
		}
		op := ""
		switch k := r.Intn(7); {
		case k == 0 || a == nil:
			p := &pair{nmdc.Extensions{}, strSet{}}
			if r.P(1, 8) {
				p.e = nil
				op = "nil"
			} else {
				for _, s := range extSub(r) {
					p.e.Set(s)
					p.m[s] = true
				}
				op = fmt.Sprintf("new %v", p.m.sorted())
			}
			pool = append(pool, p)
		case k == 1:
			if a.e == nil {
				continue
			}
			s := mon.Pick(r, extNames...)
			a.e.Set(s)
			a.m[s] = true
			op = "set " + s
		case k == 2:
			p := &pair{a.e.Clone(), a.m.clone()}
			pool = append(pool, p)
			check("clone")
			if p.e == nil {
				continue
			}
			s := mon.Pick(r, extNames...)
			if r.Bool() {
				p.e.Set(s)
				p.m[s] = true
			} else {
				delete(p.e, s)
				delete(p.m, s)
			}
			op = "change clone " + s
		case k == 3:
			p := &pair{a.e.Intersect(b.e), strSet{}}
			for s := range a.m {
				if b.m[s] {
					p.m[s] = true
				}
			}
			nontrivial = nontrivial || len(p.m) > 0
			pool = append(pool, p)
			check("intersect")
			op = "intersect"
			if p.e != nil {
				s := mon.Pick(r, extNames...)
				p.e.Set(s)
				p.m[s] = true
				op += " and set " + s
			}
		case k == 4:
			l := extSub(r)
			if r.P(1, 3) {
				l = append(l, l...)
			}
			cp := append([]string{}, l...)
			p := &pair{a.e.IntersectList(l), strSet{}}
			for _, s := range l {
				if a.m[s] {
					p.m[s] = true
				}
			}
			nontrivial = nontrivial || len(p.m) > 0
			if !strEq(l, cp) {
				t.Failf("ext-list-modified", "%q became %q", cp, l)
			}
			pool = append(pool, p)
			op = fmt.Sprintf("intersect list %v", l)
		case k == 5:
			l := a.e.List()
			if !strEq(l, a.m.sorted()) {
				t.Failf("ext-list", "listing %q, expected %q", l, a.m.sorted())
			}
			for i := range l {
				l[i] = "overwritten"
			}
			op = "list"
		default:
			// over the wire
			l := a.e.List()
			m := &nmdc.Supports{Ext: l}
			var buf bytes.Buffer
			if a.m[""] {
				continue
			}
			if err := m.MarshalNMDC(nil, &buf); err != nil {
				t.Failf("supports-encode", "%q: %v", l, err)
			}
			var m2 nmdc.Supports
			if err := m2.UnmarshalNMDC(nil, buf.Bytes()); err != nil {
				t.Failf("supports-decode", "%q: %v", buf.String(), err)
			}
			if !strEq(m2.Ext, l) {
				t.Failf("supports-wire", "sent %q, received %q", l, m2.Ext)
			}
			op = "wire"
		}
		fmt.Fprintln(&hist, op)
		t.Logf("%s", op)
		check(op)
	}
	t.Ev("sets checked", len(pool))
	if nontrivial {
		t.Seen(hist.String())
	}
	t.Sample(hist.String)
}

// c25Scale has big sets.
func c25Scale(t *mon.T) {
	r := t.R
	name := func(i int) string {
		return string([]byte{byte('A' + i/676%26), byte('A' + i/26%26), byte('A' + i%26), byte('0' + i/17576)})
	}
	// indexes are spread in different ways, so the operands overlap
	pick := func() []int {
		n := gen.Scale(r, 3000)
		step := mon.Pick(r, 1, 1, 2, 3, 7)
		off := r.Intn(50)
		arr := make([]int, n)
		for i := range arr {
			arr[i] = off + i*step
		}
		if r.Bool() {
			for i, j := range r.Perm(n) {
				arr[i], arr[j] = arr[j], arr[i]
			}
		}
		return arr
	}
	ia, ib := pick(), pick()
	a, b := strSet{}, strSet{}
	ea, eb := nmdc.Extensions{}, nmdc.Extensions{}
	ma, mb := adc.ModFeatures{}, adc.ModFeatures{}
	ra, rb := model{}, model{}
	var la, lb []string
	var fl adc.ExtFeatures
	for _, i := range ia {
		s := name(i)
		a[s], la = true, append(la, s)
		ea.Set(s)
		v := r.P(3, 4)
		ma[fea(s)], ra[s] = v, v
		fl = append(fl, fea(s))
	}
	for _, i := range ib {
		s := name(i)
		b[s], lb = true, append(lb, s)
		eb.Set(s)
		v := r.P(3, 4)
		mb[fea(s)], rb[s] = v, v
	}
	both, bothAdd, from := strSet{}, strSet{}, ra.clone()
	for s := range a {
		if b[s] {
			both[s] = true
		}
		if ra[s] && rb[s] {
			bothAdd[s] = true
		}
	}
	for s, v := range rb {
		from[s] = v
	}
	eqSet := func(what string, got []string, want strSet) {
		got = append([]string{}, got...)
		sort.Strings(got)
		t.Eval(1)
		if w := want.sorted(); !strEq(got, w) {
			t.Failf("scale-"+what, "%s of sets of %d and %d names has %d names, expected %d: %s", what, len(a), len(b), len(got), len(w), setDiff(got, w))
		}
	}
	keys := func(e nmdc.Extensions) (arr []string) {
		for s := range e {
			arr = append(arr, s)
		}
		return
	}
	eqSet("Clone", keys(ea.Clone()), a)
	eqSet("List", ea.List(), a)
	if !sort.StringsAreSorted(ea.List()) {
		t.Failf("scale-List", "listing of %d names is not sorted", len(a))
	}
	eqSet("Intersect", keys(ea.Intersect(eb)), both)
	eqSet("IntersectList", keys(ea.IntersectList(lb)), both)
	sa, sb := nmdc.Supports{Ext: la}, nmdc.Supports{Ext: lb}
	eqSet("Supports.Intersect", (&sa).Intersect(&sb).Ext, both)
	var buf bytes.Buffer
	var s2 nmdc.Supports
	if err := sa.MarshalNMDC(nil, &buf); err != nil {
		t.Failf("scale-supports", "%v", err)
	}
	if err := s2.UnmarshalNMDC(nil, buf.Bytes()); err != nil || !strEq(s2.Ext, la) {
		t.Failf("scale-supports", "%d extensions are received as %d, %v", len(la), len(s2.Ext), err)
	}
	eqMod := func(what string, got adc.ModFeatures, want model) {
		t.Eval(1)
		if g, w := modText(got), want.text(); g != w {
			t.Failf("scale-"+what, "%s of %d and %d features has %d features, expected %d", what, len(ra), len(rb), len(got), len(want))
		}
	}
	added := func(f adc.ModFeatures) (arr []string) {
		for s, v := range f {
			if v {
				arr = append(arr, s.String())
			}
		}
		return
	}
	set := func(l []string) strSet {
		s := strSet{}
		for _, k := range l {
			s[k] = true
		}
		return s
	}
	eqMod("Clone", ma.Clone(), ra)
	eqMod("SetFrom", ma.SetFrom(mb), from)
	eqSet("mod-Intersect", added(ma.Intersect(mb)), bothAdd)
	if j := ma.Join(); j != "" {
		eqSet("Join", strings.Split(j, ","), set(ra.supported()))
	} else if len(ra.supported()) != 0 {
		t.Failf("scale-Join", "empty, expected %d features", len(ra.supported()))
	}
	for s, v := range ra {
		if v && !ma.IsSet(fea(s)) {
			t.Failf("scale-IsSet", "%q of %d features", s, len(ra))
		}
	}
	buf.Reset()
	var m2 adc.ModFeatures
	if err := ma.MarshalADC(&buf); err != nil {
		t.Failf("scale-encode", "%v", err)
	}
	if err := m2.UnmarshalADC(buf.Bytes()); err != nil {
		t.Failf("scale-decode", "%v", err)
	}
	eqMod("decoding", m2, ra)
	buf.Reset()
	if err := mb.MarshalADC(&buf); err != nil {
		t.Failf("scale-encode", "%v", err)
	}
	if err := m2.UnmarshalADC(buf.Bytes()); err != nil {
		t.Failf("scale-decode", "%v", err)
	}
	eqMod("update", m2, from)
	buf.Reset()
	var f2 adc.ExtFeatures
	if err := fl.MarshalADC(&buf); err != nil || buf.String() != strings.Join(la, ",") {
		t.Failf("scale-list", "%d features: %v", len(fl), err)
	}
	if err := f2.UnmarshalADC(buf.Bytes()); err != nil || len(f2) != len(fl) {
		t.Failf("scale-list", "%d features are decoded as %d, %v", len(fl), len(f2), err)
	}
	for i := range fl {
		if f2[i] != fl[i] {
			t.Failf("scale-list", "feature %d is %q, expected %q", i, f2[i], fl[i])
		}
	}
	for i := 0; i < 20 && len(ib) > 0; i++ {
		s := name(ib[r.Intn(len(ib))])
		if f2.Has(fea(s)) != a[s] {
			t.Failf("scale-list", "Has(%q) = %v in a list of %d features", s, !a[s], len(fl))
		}
	}
	// operands are as they were
	eqSet("operand", keys(ea), a)
	eqSet("operand", keys(eb), b)
	eqMod("operand", ma, ra)
	eqMod("operand", mb, rb)
	if !strEq(sa.Ext, la) || !strEq(sb.Ext, lb) {
		t.Failf("scale-operand", "lists were changed")
	}
	t.Ev("names", len(a)+len(b))
	if len(both) > 0 {
		t.Seen(fmt.Sprint(len(a), len(b), len(both), len(bothAdd)))
	}
}

// setDiff describes the first difference of sorted lists.
func setDiff(got, want []string) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		if i >= len(got) {
			return "no " + want[i]
		} else if i >= len(want) {
			return "extra " + got[i]
		} else if got[i] != want[i] {
			return got[i] + " instead of " + want[i]
		}
	}
	return "no difference"
}

func strEq(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func c25Supports(t *mon.T) {
	r := t.R
	dup := r.P(1, 4)
	mk := func() []string {
		l := extSub(r)
		if dup && len(l) > 0 {
			for i, n := 0, r.Intn(4); i < n; i++ {
				l = append(l, mon.Pick(r, l...))
			}
		}
		// spare capacity must not be used
		buf := make([]string, len(l), len(l)+4)
		copy(buf, l)
		for i := len(l); i < cap(buf); i++ {
			buf[:cap(buf)][i] = "spare"
		}
		return buf
	}
	a, b := &nmdc.Supports{Ext: mk()}, &nmdc.Supports{Ext: mk()}
	ca, cb := append([]string{}, a.Ext[:cap(a.Ext)]...), append([]string{}, b.Ext[:cap(b.Ext)]...)
	intact := func(op string) {
		if !strEq(a.Ext[:cap(a.Ext)], ca) || !strEq(b.Ext[:cap(b.Ext)], cb) {
			t.Failf("supports-operand", "%s changed its operands: %q %q, were %q %q", op, a.Ext[:cap(a.Ext)], b.Ext[:cap(b.Ext)], ca, cb)
		}
	}
	want := map[string]int{}
	for _, x := range a.Ext {
		for _, y := range b.Ext {
			if x == y {
				want[x]++
			}
		}
	}
	res := a.Intersect(b)
	intact("Intersect")
	got := map[string]int{}
	for _, x := range res.Ext {
		got[x]++
		if want[x] == 0 {
			t.Failf("supports-extra", "%q & %q = %q", a.Ext, b.Ext, res.Ext)
		}
		if !dup && got[x] > 1 {
			t.Failf("supports-twice", "%q & %q = %q", a.Ext, b.Ext, res.Ext)
		}
	}
	if len(got) != len(want) {
		t.Failf("supports-missing", "%q & %q = %q", a.Ext, b.Ext, res.Ext)
	}
	// commutes as a set
	rev := b.Intersect(a)
	got2 := map[string]int{}
	for _, x := range rev.Ext {
		got2[x]++
	}
	if len(got2) != len(got) {
		t.Failf("supports-commute", "%q & %q = %q, reverse %q", a.Ext, b.Ext, res.Ext, rev.Ext)
	}
	for i := range res.Ext {
		res.Ext[i] = "changed"
	}
	_ = append(res.Ext, "more")
	intact("change of the result")
	// self
	self := a.Intersect(a)
	for i := range self.Ext {
		self.Ext[i] = "changed"
	}
	intact("change of the self intersection")
	t.Eval(6)
	t.Ev("intersections", 3)
	if len(want) > 0 {
		t.Seen(fmt.Sprint(ca, cb))
	}
	t.Sample(func() string { return fmt.Sprintf("%q & %q = %d elements", a.Ext, b.Ext, len(want)) })
}

// features; none has a comma, a space or a backslash
var feaNames = []string{"BASE", "TIGR", "UCMD", "PING", "ZLIF", "ADC0", "TCP4", "base", "\x01\x02\x03\x04", "ADAD", "RMRM", "SEGA"}

func fea(s string) (f adc.Feature) { copy(f[:], s); return }

type model map[string]bool

func (m model) clone() model {
	c := model{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

func modText(f adc.ModFeatures) string {
	var arr []string
	for k, v := range f {
		arr = append(arr, fmt.Sprintf("%q=%v", k.String(), v))
	}
	sort.Strings(arr)
	return strings.Join(arr, " ")
}

func (m model) text() string {
	f := adc.ModFeatures{}
	for k, v := range m {
		f[fea(k)] = v
	}
	return modText(f)
}

// supported is a set of added features.
func (m model) supported() []string {
	s := strSet{}
	for k, v := range m {
		if v {
			s[k] = true
		}
	}
	return s.sorted()
}

// update makes a random update on the wire and its effect.
func feaUpdate(r *mon.Rand) (wire string, add, rm []string) {
	n := r.Intn(8)
	perm := r.Perm(len(feaNames))[:n]
	var arr []string
	for _, i := range perm {
		k := 1
		if r.P(1, 8) {
			k = 2 // repeated
		}
		if r.P(2, 3) {
			add = append(add, feaNames[i])
			for ; k > 0; k-- {
				arr = append(arr, "AD"+feaNames[i])
			}
		} else {
			rm = append(rm, feaNames[i])
			for ; k > 0; k-- {
				arr = append(arr, "RM"+feaNames[i])
			}
		}
	}
	out := make([]string, len(arr))
	for i, j := range r.Perm(len(arr)) {
		out[i] = arr[j]
	}
	return strings.Join(out, " "), add, rm
}

func c25Mod(t *mon.T) {
	r := t.R
	type pair struct {
		f adc.ModFeatures
		m model
	}
	var pool []*pair
	check := func(op string) {
		for i, p := range pool {
			if got, want := modText(p.f), p.m.text(); got != want {
				t.Failf("mod-set", "after %s: set %d is %s, expected %s", op, i, got, want)
			}
			s := mon.Pick(r, feaNames...)
			if v, ok := p.m[s]; ok == v && p.f.IsSet(fea(s)) != v {
				t.Failf("mod-member", "after %s: IsSet(%q) of %s is %v", op, s, p.m.text(), !v)
			}
		}
		t.Eval(len(pool))
	}
	change := func(p *pair) {
		if p.f == nil {
			return
		}
		s := mon.Pick(r, feaNames...)
		switch r.Intn(3) {
		case 0:
			delete(p.f, fea(s))
			delete(p.m, s)
		default:
			v := r.Bool()
			p.f[fea(s)] = v
			p.m[s] = v
		}
	}
	var hist strings.Builder
	nontrivial := false
	for i, n := 0, r.Range(4, 14); i < n; i++ {
		var a, b *pair
		if len(pool) > 0 {
			a, b = pool[r.Intn(len(pool))], pool[r.Intn(len(pool))]
		}
		op := ""
		switch k := r.Intn(8); {
		case k == 0 || a == nil:
			p := &pair{adc.ModFeatures{}, model{}}
			if r.P(1, 8) {
				p.f = nil
			} else {
				for i, n := 0, r.Intn(9); i < n; i++ {
					s, v := mon.Pick(r, feaNames...), r.P(3, 4)
					p.f[fea(s)] = v
					p.m[s] = v
				}
			}
			op = "new " + p.m.text()
			pool = append(pool, p)
		case k == 1:
			p := &pair{a.f.Clone(), a.m.clone()}
			pool = append(pool, p)
			check("clone")
			change(p)
			op = "clone and change"
		case k == 2 || k == 3:
			p := &pair{a.f.SetFrom(b.f), a.m.clone()}
			for s, v := range b.m {
				p.m[s] = v
			}
			nontrivial = nontrivial || len(p.m) > 0
			pool = append(pool, p)
			check("SetFrom")
			change(p)
			op = "SetFrom and change"
		case k == 4:
			p := &pair{a.f.Intersect(b.f), model{}}
			for s, v := range a.m {
				if v && b.m[s] {
					p.m[s] = true
				}
			}
			nontrivial = nontrivial || len(p.m) > 0
			// removed features can be listed as such, it's the same set
			for s, v := range p.f {
				if !v {
					p.m[s.String()] = false
				}
			}
			pool = append(pool, p)
			check("Intersect")
			change(p)
			op = "Intersect and change"
		case k == 5:
			got := a.f.Join()
			var arr []string
			if got != "" {
				arr = strings.Split(got, ",")
			}
			sort.Strings(arr)
			if !strEq(arr, a.m.supported()) {
				t.Failf("mod-join", "Join of %s = %q", a.m.text(), got)
			}
			op = "join"
		case k == 6:
			wire, add, rm := feaUpdate(r)
			in := []byte(wire)
			var err error
			if r.Bool() {
				err = a.f.UnmarshalADC(in)
			} else {
				sup := adc.Supported{Features: a.f}
				err = sup.UnmarshalADC(in)
				a.f = sup.Features
			}
			if err != nil {
				t.Failf("mod-update", "%q: %v", wire, err)
			}
			if string(in) != wire {
				t.Failf("mod-update", "input %q changed to %q", wire, in)
			}
			for i := range in {
				in[i] = '#'
			}
			for _, s := range rm {
				a.m[s] = false
			}
			for _, s := range add {
				a.m[s] = true
			}
			op = "update " + wire
		default:
			var buf bytes.Buffer
			if err := a.f.MarshalADC(&buf); err != nil {
				t.Failf("mod-encode", "%s: %v", a.m.text(), err)
			}
			var words []string
			if buf.Len() > 0 {
				words = strings.Split(buf.String(), " ")
			}
			sort.Strings(words)
			var want []string
			for s, v := range a.m {
				if v {
					want = append(want, "AD"+s)
				} else {
					want = append(want, "RM"+s)
				}
			}
			sort.Strings(want)
			if r.P(1, 3) {
				// a plain list of added features
				list := adc.AddFeatures(a.m.supported())
				var exp []string
				for _, s := range list {
					exp = append(exp, "AD"+s)
				}
				var buf bytes.Buffer
				buf.WriteString("x")
				if err := list.MarshalADC(&buf); err != nil || buf.String() != "x"+strings.Join(exp, " ") {
					t.Failf("add-encode", "added features %q are written as %q, %v", list, buf.String()[1:], err)
				}
			}
			if !strEq(words, want) {
				t.Failf("mod-encode", "%s: %q", a.m.text(), buf.String())
			}
			p := &pair{nil, a.m.clone()}
			if err := p.f.UnmarshalADC(buf.Bytes()); err != nil {
				t.Failf("mod-decode", "%q: %v", buf.String(), err)
			}
			pool = append(pool, p)
			op = "encode and decode " + buf.String()
		}
		fmt.Fprintln(&hist, op)
		t.Logf("%s", op)
		check(op)
	}
	t.Ev("sets checked", len(pool))
	if nontrivial {
		t.Seen(hist.String())
	}
	t.Sample(hist.String)
}

func c25ExtFea(t *mon.T) {
	r := t.R
	var f adc.ExtFeatures
	var names []string
	for i, n := 0, r.Intn(8); i < n; i++ {
		s := mon.Pick(r, feaNames...)
		f = append(f, fea(s))
		names = append(names, s)
	}
	var buf bytes.Buffer
	buf.WriteString("pre")
	if err := f.MarshalADC(&buf); err != nil {
		t.Failf("list-encode", "%q: %v", names, err)
	}
	want := strings.Join(names, ",")
	if buf.String() != "pre"+want {
		t.Failf("list-encode", "%q: %q", names, buf.String())
	}
	var f2 adc.ExtFeatures
	in := []byte(want)
	if err := f2.UnmarshalADC(in); err != nil {
		t.Failf("list-decode", "%q: %v", want, err)
	}
	for i := range in {
		in[i] = '#'
	}
	if len(f2) != len(f) {
		t.Failf("list-decode", "%q: %q", want, f2)
	}
	for i := range f {
		if f[i] != f2[i] || f[i].String() != names[i] {
			t.Failf("list-decode", "%q: %q", want, f2)
		}
	}
	for _, s := range feaNames {
		in := false
		for _, s2 := range names {
			in = in || s == s2
		}
		if f.Has(fea(s)) != in || f2.Has(fea(s)) != in {
			t.Failf("list-has", "%q: Has(%q) = %v", names, s, f.Has(fea(s)))
		}
	}
	for _, s := range []string{"BASF", "\x00\x00\x00\x00", "    "} {
		if f.Has(fea(s)) {
			t.Failf("list-has", "%q: Has(%q)", names, s)
		}
	}
	t.Eval(4)
	t.Ev("lists", 1)
	if len(f) > 0 {
		t.Seen(want)
	}
	t.Sample(func() string { return want })
}

// c25Wire sends a history of updates in packets; the receiver accumulates them.
func c25Wire(t *mon.T) {
	r := t.R
	var buf bytes.Buffer
	w := adc.NewWriter(&buf)
	state := adc.Supported{}
	m := model{}
	n := r.Range(1, 6)
	var states []string
	for i := 0; i < n; i++ {
		upd := adc.ModFeatures{}
		um := model{}
		for j, k := 0, r.Intn(7); j < k; j++ {
			s, v := mon.Pick(r, feaNames...), r.P(2, 3)
			upd[fea(s)] = v
			um[s] = v
		}
		for s, v := range um {
			m[s] = v
		}
		states = append(states, m.text())
		var err error
		if r.Bool() {
			err = w.WriteHub(adc.Supported{Features: upd})
		} else {
			err = w.WriteInfo(adc.Supported{Features: upd})
		}
		if err != nil {
			t.Failf("wire-send", "%v: %v", um, err)
		}
		if modText(upd) != um.text() {
			t.Failf("wire-operand", "sending changed %s to %s", um.text(), modText(upd))
		}
	}
	if err := w.Flush(); err != nil {
		t.Failf("wire-send", "%v", err)
	}
	rd := adc.NewReader(bytes.NewReader(buf.Bytes()))
	acc := adc.ModFeatures{}
	var snaps []adc.ModFeatures
	for i := 0; i < n; i++ {
		p, err := rd.ReadPacket()
		if err != nil {
			t.Failf("wire-receive", "%q: %v", buf.String(), err)
		}
		var sup adc.Supported
		switch msg := p.Message().(type) {
		case adc.Supported:
			sup = msg
		case *adc.Supported:
			sup = *msg
		default:
			t.Failf("wire-type", "%T", msg)
		}
		acc = acc.SetFrom(sup.Features)
		snaps = append(snaps, acc)
		if modText(acc) != states[i] {
			t.Failf("wire-state", "after update %d: %s, expected %s; wire %q", i, modText(acc), states[i], buf.String())
		}
		if p.Message().Cmd() != (adc.MsgType{'S', 'U', 'P'}) {
			t.Failf("wire-type", "%T", p.Message())
		}
	}
	for i := range snaps {
		if modText(snaps[i]) != states[i] {
			t.Failf("wire-shared", "set after update %d became %s, was %s", i, modText(snaps[i]), states[i])
		}
	}
	// the same updates applied to one value
	for _, line := range bytes.Split(bytes.TrimSuffix(buf.Bytes(), []byte("\n")), []byte("\n")) {
		body := ""
		if len(line) > 5 {
			body = string(line[5:])
		}
		if err := adc.Unmarshal([]byte(body), &state); err != nil {
			t.Failf("wire-apply", "%q: %v", line, err)
		}
	}
	if modText(state.Features) != states[n-1] {
		t.Failf("wire-apply", "applied to one value: %s, expected %s", modText(state.Features), states[n-1])
	}
	t.Eval(2 * n)
	t.Ev("updates", n)
	t.Seen(buf.String())
	t.Sample(func() string { return buf.String() })
}
