package props

import (
	"os"
	"sort"
	"strings"

	"github.com/direct-connect/go-dc/adc"

	"verif/harness/mon"
	"verif/harness/ref"
)

func c27() mon.Property {
	return mon.Property{
		ID: "C27",
		Rule: "encode: the payload that the library writes for random messages of all kinds is split by an independent parser and compared with the documented parameters (tag, escaped value, position); optional zero values may be absent. " +
			"decode: payloads written by an independent encoder in any order, with unknown parameters and explicit zero values, decode to the documented values. " +
			"features: packets of independent peers with selectors separated or not. vocab: constants, search groups, statuses and versions compared with the tables of the specification. Non-trivial: every case; distinct by wire form.",
		Assume: []string{"as for C13"},
		Monitors: []mon.Monitor{
			{Name: "encode", Quick: 240000, Thorough: 4000000, Run: c27Encode},
			{Name: "decode", Quick: 240000, Thorough: 4000000, Run: c27Decode},
			{Name: "headers", Quick: 120000, Thorough: 2000000, Run: c27Headers},
			{Name: "vocab", Quick: 12000, Thorough: 100000, Run: c27Vocab},
		},
	}
}

func c27Encode(t *mon.T) {
	g := newAGen(t.R)
	m := g.pick(t.Index)
	wire := adcMarshal(t, m.m)
	var parts []string
	if wire != "" || len(m.pos) > 0 {
		parts = strings.Split(wire, " ")
	}
	if len(parts) < len(m.pos) {
		t.Failf("positional", "%s: %d parameters expected: %q", m.cmd, len(m.pos), wire)
	}
	for i, p := range m.pos {
		t.Eval(1)
		if parts[i] != p {
			t.Failf("positional", "%s: parameter %d is %q, expected %q", m.cmd, i, parts[i], p)
		}
	}
	lax := map[string]bool{}
	for _, s := range m.lax {
		lax[s] = true
	}
	got, want := map[string][]string{}, map[string][]string{}
	key := func(s string) string {
		best := ""
		for _, tag := range m.tags {
			if strings.HasPrefix(s, tag) && len(tag) > len(best) {
				best = tag
			}
		}
		return best
	}
	for _, s := range parts[len(m.pos):] {
		if lax[s] {
			continue
		}
		got[key(s)] = append(got[key(s)], s)
	}
	for _, s := range m.nam {
		want[key(s)] = append(want[key(s)], s)
	}
	if m.any {
		for _, mp := range []map[string][]string{got, want} {
			for _, v := range mp {
				sort.Strings(v)
			}
		}
	}
	t.Eval(len(parts))
	if dump(got) != dump(want) {
		t.Failf("named", "%s: parameters %q, documented %q", m.cmd, wire, m.wire())
	}
	t.Ev("encoded", 1)
	t.Seen(wire)
}

func c27Decode(t *mon.T) {
	r := t.R
	g := newAGen(r)
	m := g.pick(t.Index)
	nam := append([]string{}, m.nam...)
	for _, s := range m.lax {
		if r.P(1, 3) {
			nam = append(nam, s)
			t.Ev("explicit-zero", 1)
		}
	}
	if len(m.tags) != 0 {
		if r.Bool() {
			nam = shuffle(r, nam)
		}
		if !m.any || r.Bool() {
			nam = unknownFields(g, m, nam)
		}
	}
	wire := strings.Join(append(append([]string{}, m.pos...), nam...), " ")
	t.Eval(1)
	if got, want := adcDecode(t, m, wire), dump(deref(m.m)); got != want {
		t.Failf("decode", "%s %q decodes as %s, expected %s", m.cmd, wire, got, want)
	}
	t.Ev("decoded", 1)
	t.Seen(wire)
	t.Sample(func() string { return m.cmd + " " + wire })
}

// c27Headers decodes packets written by independent peers.
func c27Headers(t *mon.T) {
	r := t.R
	g := newAGen(r)
	m := g.any()
	for !m.registered() {
		m = g.any()
	}
	kind := "BCDEFHIU"[t.Index%8]
	from, to, cid := g.sid(), g.sid(), g.hash()
	s := string(kind) + m.cmd
	var sel []string
	switch kind {
	case 'B':
		s += " " + string(from[:])
	case 'D', 'E':
		s += " " + string(from[:]) + " " + string(to[:])
	case 'U':
		s += " " + b32(cid[:])
	case 'F':
		s += " " + string(from[:])
		for i, n := 0, 1+r.Intn(4); i < n; i++ {
			f := mon.Pick(r, "TCP4", "TCP6", "NAT0", "SEGA", "ADC0", "UDP4", "+-+-")
			sel = append(sel, mon.Pick(r, "+", "-")+f)
		}
		// the specification has no separator between features, but many clients write it
		s += " " + strings.Join(sel, mon.Pick(r, "", " "))
	}
	payload := m.wire()
	if kind == 'F' && payload != "" && strings.IndexByte("+- ", payload[0]) >= 0 {
		return
	}
	if payload != "" || len(m.pos) > 0 {
		s += " " + payload
	}
	s += "\n"
	t.Eval(1)
	p, err := adc.DecodePacket([]byte(s))
	if err != nil {
		t.Failf("packet", "%q: %v", s, err)
	}
	h := packetHeader(p)
	want := ref.ADCHeader{Kind: kind, Cmd: m.cmd, Sel: sel}
	switch kind {
	case 'B', 'F':
		want.From = string(from[:])
	case 'D', 'E':
		want.From, want.To = string(from[:]), string(to[:])
	case 'U':
		want.CID = b32(cid[:])
	}
	if dump(h) != dump(want) {
		t.Failf("packet", "%q: header %s, expected %s", s, dump(h), dump(want))
	}
	if got, want := dump(deref(p.Message())), dump(deref(m.m)); got != want {
		t.Failf("packet", "%q: message %s, expected %s", s, got, want)
	}
	t.Ev("packets", 1)
	t.Seen(s)
}

// packetHeader describes the routing of a packet.
func packetHeader(p adc.Packet) ref.ADCHeader {
	h := ref.ADCHeader{Kind: p.Kind()}
	if m := p.Message(); m != nil {
		h.Cmd = m.Cmd().String()
	}
	if p, ok := p.(adc.PeerPacket); ok {
		id := p.Source()
		h.From = string(id[:])
	}
	if p, ok := p.(adc.TargetPacket); ok {
		id := p.Target()
		h.To = string(id[:])
	}
	sels := func(arr []adc.FeatureSel) {
		for _, f := range arr {
			s := "-"
			if f.Sel {
				s = "+"
			}
			h.Sel = append(h.Sel, s+string(f.Fea[:]))
		}
	}
	// also the fields themselves
	bad := false
	switch p := p.(type) {
	case *adc.UDPPacket:
		h.CID = b32(p.ID[:])
	case *adc.FeaturePacket:
		sels(p.Sel)
		bad = string(p.ID[:]) != h.From
	case *adc.BroadcastPacket:
		bad = string(p.ID[:]) != h.From
	case *adc.DirectPacket:
		bad = string(p.ID[:]) != h.From || string(p.To[:]) != h.To
	case *adc.EchoPacket:
		bad = string(p.ID[:]) != h.From || string(p.To[:]) != h.To
	}
	if bad {
		h.Cmd = "accessors differ from fields"
	}
	return h
}

// tables of the specification
var segaGroups = map[int]string{
	1:  "ape flac m4a mid mp3 mpc ogg ra wav wma",
	2:  "7z ace arj bz2 gz lha lzh rar tar tz z zip",
	4:  "doc docx htm html nfo odf odp ods odt pdf ppt pptx rtf txt xls xlsx xml xps",
	8:  "app bat cmd com dll exe jar msi ps1 vbs wsf",
	16: "bmp cdr eps gif ico img jpeg jpg png ps psd sfw tga tif webp",
	32: "3gp asf asx avi divx flv mkv mov mp4 mpeg mpg ogm pxp qt rm rmvb swf vob webm wmv",
}

func c27Vocab(t *mon.T) {
	r := t.R
	if t.Index == 0 {
		for _, c := range []struct {
			name      string
			got, want int
		}{
			{"bot", int(adc.UserTypeBot), 1}, {"registered", int(adc.UserTypeRegistered), 2}, {"operator", int(adc.UserTypeOperator), 4},
			{"super user", int(adc.UserTypeSuperUser), 8}, {"hub owner", int(adc.UserTypeHubOwner), 16}, {"hub", int(adc.UserTypeHub), 32}, {"hidden", int(adc.UserTypeHidden), 64},
			{"away", int(adc.AwayTypeNormal), 1}, {"extended away", int(adc.AwayTypeExtended), 2},
			{"hub command", int(adc.CategoryHub), 1}, {"user command", int(adc.CategoryUser), 2}, {"search command", int(adc.CategorySearch), 4}, {"filelist command", int(adc.CategoryFileList), 8},
			{"file", int(adc.FileTypeFile), 1}, {"dir", int(adc.FileTypeDir), 2},
			{"success", int(adc.Success), 0}, {"recoverable", int(adc.Recoverable), 1}, {"fatal", int(adc.Fatal), 2},
			{"audio", int(adc.ExtAudio), 1}, {"compressed", int(adc.ExtArch), 2}, {"document", int(adc.ExtDoc), 4}, {"executable", int(adc.ExtExe), 8}, {"image", int(adc.ExtImage), 16}, {"video", int(adc.ExtVideo), 32},
		} {
			t.Eval(1)
			if c.got != c.want {
				t.Failf("constant", "%s is %d, the specification has %d", c.name, c.got, c.want)
			}
		}
		for f, s := range map[adc.Feature]string{
			adc.FeaBASE: "BASE", adc.FeaBAS0: "BAS0", adc.FeaTIGR: "TIGR", adc.FeaPING: "PING", adc.FeaONID: "ONID", adc.FeaBZIP: "BZIP", adc.FeaTS: "TS00", adc.FeaZLIF: "ZLIF", adc.FeaZLIG: "ZLIG",
			adc.FeaSEGA: "SEGA", adc.FeaUCMD: "UCMD", adc.FeaUCM0: "UCM0", adc.FeaADCS: "ADCS", adc.FeaADC0: "ADC0", adc.FeaNAT0: "NAT0", adc.FeaASCH: "ASCH", adc.FeaSUD1: "SUD1", adc.FeaSUDP: "SUDP", adc.FeaCCPM: "CCPM",
			adc.FeaBLO0: "BLO0", adc.FeaSIPR: "SIPR", adc.FeaTCP4: "TCP4", adc.FeaTCP6: "TCP6", adc.FeaUDP4: "UDP4", adc.FeaUDP6: "UDP6",
		} {
			t.Eval(1)
			if string(f[:]) != s || f.String() != s {
				t.Failf("feature", "feature %q must be %q", f, s)
			}
		}
	}
	// user types are sets of bits
	ut, one := adc.UserType(r.Intn(128)), adc.UserType(1<<uint(r.Intn(7)))
	if ut.Is(one) != (ut&one == one) {
		t.Failf("user-type", "UserType(%d).Is(%d) = %v", int(ut), int(one), ut.Is(one))
	}
	// groups of extensions
	mask := r.Intn(64)
	for bit, list := range segaGroups {
		exts := strings.Fields(list)
		ext := exts[r.Intn(len(exts))]
		if r.Bool() {
			ext = strings.ToUpper(ext)
		}
		name := mon.Pick(r, "", ".", "a.b.", "dir.x/file.", "файл.") + ext
		t.Eval(1)
		if got, want := adc.ExtGroup(mask).Matches(name), mask == 0 || mask&bit != 0; got != want {
			t.Failf("group", "group %#x matches %q: %v", mask, name, got)
		}
		if got, want := adc.ExtGroup(mask).Has(adc.ExtGroup(bit)), mask&bit != 0; got != want {
			t.Failf("group", "group %#x has %#x: %v", mask, bit, got)
		}
	}
	for _, name := range []string{"", "foo", "x.unknown", "mp3.x", ".", "flacc"} {
		if got := adc.ExtGroup(mask).Matches(name); got != (mask == 0) {
			t.Failf("group", "group %#x matches %q: %v", mask, name, got)
		}
	}
	// statuses
	st := adc.Status{Sev: adc.Severity(r.Intn(3)), Code: mon.Pick(r, 0, 51, r.Intn(100)), Msg: adcText(r)}
	err := st.Err()
	t.Eval(3)
	if st.Ok() != (st.Sev == 0) || st.Recoverable() != (st.Sev < 2) {
		t.Failf("status", "%s: ok %v, recoverable %v", dump(st), st.Ok(), st.Recoverable())
	}
	switch {
	case st.Sev == 0:
		if err != nil {
			t.Failf("status", "%s: %v", dump(st), err)
		}
	case st.Code == 51:
		if !os.IsNotExist(err) {
			t.Failf("status", "%s: %v", dump(st), err)
		}
	default:
		e, ok := err.(adc.Error)
		if !ok || dump(e.Status) != dump(st) || !strings.Contains(e.Error(), st.Msg) {
			t.Failf("status", "%s: %v", dump(st), err)
		}
	}
	// "Application Version" in one field
	name, ver := adcText(r), strings.Replace(adcText(r), " ", "", -1)
	u := adc.UserInfo{Version: name + " " + ver}
	if u.Normalize(); u.Application != name || u.Version != ver {
		t.Failf("version", "%q %q is normalized to %q %q", name, ver, u.Application, u.Version)
	}
	if name != "" {
		app, v := name, ver+" "+ver
		u = adc.UserInfo{Application: app, Version: v}
		if u.Normalize(); u.Application != app || u.Version != v {
			t.Failf("version", "%q %q is changed to %q %q", app, v, u.Application, u.Version)
		}
	}
}
