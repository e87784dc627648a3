package ref

import (
	"errors"
	"fmt"
	"sort"
	"strings"
)

// Rec is a decoded NMDC message as named text values.
type Rec map[string]string

// String is a canonical form.
func (r Rec) String() string {
	keys := make([]string, 0, len(r))
	for k := range r {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var sb strings.Builder
	for _, k := range keys {
		fmt.Fprintf(&sb, "%s=%q ", k, r[k])
	}
	return sb.String()
}

// NMDCText decodes text as written by NMDC clients with HTML escapes for separators.
func NMDCText(s string) string {
	var sb strings.Builder
	for len(s) != 0 {
		if s[0] == '&' {
			done := false
			for _, e := range [...][2]string{{"&#36;", "$"}, {"&#124;", "|"}, {"&amp;", "&"}, {"&lt;", "<"}, {"&gt;", ">"}} {
				if strings.HasPrefix(s, e[0]) {
					sb.WriteString(e[1])
					s = s[len(e[0]):]
					done = true
					break
				}
			}
			if done {
				continue
			}
		}
		sb.WriteByte(s[0])
		s = s[1:]
	}
	return sb.String()
}

var errNMDC = errors.New("ref: malformed message")

func cut(s, sep string) (a, b string, ok bool) {
	i := strings.Index(s, sep)
	if i < 0 {
		return s, "", false
	}
	return s[:i], s[i+len(sep):], true
}

func list(r Rec, key string, arr []string) {
	r[key+"#"] = fmt.Sprint(len(arr))
	for i, s := range arr {
		r[fmt.Sprintf("%s[%d]", key, i)] = s
	}
}

func textList(arr []string) []string {
	out := make([]string, len(arr))
	for i, s := range arr {
		out[i] = NMDCText(s)
	}
	return out
}

func isNum(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		if (s[i] < '0' || s[i] > '9') && !(i == 0 && s[i] == '-' && len(s) > 1) {
			return false
		}
	}
	return true
}

// NMDC decodes a single message, including its delimiter, the way the protocol documentation describes the canonical form.
// The names are not expected to have spaces when the message is separated by spaces.
func NMDC(line string) (cmd string, r Rec, err error) {
	if strings.Count(line, "|") != 1 || !strings.HasSuffix(line, "|") || strings.Contains(line, "\x00") {
		return "", nil, fmt.Errorf("ref: not a single message")
	}
	line = line[:len(line)-1]
	r = Rec{}
	if !strings.HasPrefix(line, "$") {
		if strings.HasPrefix(line, "<") {
			name, text, ok := cut(line[1:], "> ")
			if !ok {
				return "", nil, errNMDC
			}
			r["name"], line = NMDCText(name), text
		} else {
			r["name"] = ""
		}
		r["text"] = NMDCText(line)
		return "", r, nil
	}
	cmd, s, hasArgs := cut(line[1:], " ")
	var ok bool
	fail := func() (string, Rec, error) {
		return cmd, nil, fmt.Errorf("%w: %q", errNMDC, line)
	}
	switch cmd {
	default:
		return cmd, nil, fmt.Errorf("ref: unknown command: %q", cmd)
	case "GetTopic", "BadPass", "GetPass", "ZOn", "HubIsFull", "MaxedOut", "GetNickList":
		if hasArgs && s != "" {
			return fail()
		}
	case "Kick", "Close", "ValidateNick", "ValidateDenide", "MyNick", "Quit", "LogedIn", "Hello",
		"SetTopic", "MyPass", "HubName", "HubTopic", "BotINFO", "SetIcon", "SetLogo", "Failed", "Error":
		if strings.Contains(s, "$") {
			return fail()
		}
		r["value"] = NMDCText(s)
	case "ForceMove", "Version", "Key":
		r["value"] = s
	case "To:":
		if r["to"], s, ok = cut(s, " From: "); !ok {
			return fail()
		}
		if r["from"], s, ok = cut(s, " $<"); !ok {
			return fail()
		}
		if r["name"], s, ok = cut(s, "> "); !ok || strings.Contains(s, "$") {
			return fail()
		}
		r["text"] = s
		for k, v := range r {
			r[k] = NMDCText(v)
		}
	case "MCTo":
		if r["to"], s, ok = cut(s, " $"); !ok {
			return fail()
		}
		if r["from"], s, ok = cut(s, " "); !ok || strings.Contains(s, "$") {
			return fail()
		}
		r["text"] = s
		for k, v := range r {
			r[k] = NMDCText(v)
		}
	case "UserCommand":
		head, val, full := cut(s, "$")
		if full && (!strings.HasSuffix(head, " ") || strings.Contains(val, "$")) {
			return fail()
		}
		head = strings.TrimSuffix(head, " ")
		arr := strings.SplitN(head, " ", 3)
		if len(arr) < 2 || !isNum(arr[0]) || !isNum(arr[1]) || full != (len(arr) == 3) {
			return fail()
		}
		r["type"], r["context"] = arr[0], arr[1]
		if full {
			list(r, "path", textList(strings.Split(arr[2], "\\")))
		} else {
			list(r, "path", nil)
		}
		r["command"] = NMDCText(val)
	case "MyINFO":
		if !strings.HasPrefix(s, "$ALL ") {
			return fail()
		}
		name, s, ok := cut(s[5:], " ")
		if !ok {
			return fail()
		}
		r["name"] = NMDCText(name)
		arr := strings.Split(s, "$")
		if len(arr) != 6 || arr[5] != "" || len(arr[2]) == 0 || !isNum(arr[4]) {
			return fail()
		}
		i := strings.LastIndexByte(arr[0], '<')
		if i < 0 || !strings.HasSuffix(arr[0], ">") {
			return fail()
		}
		r["desc"] = NMDCText(arr[0][:i])
		tag := arr[0][i+1 : len(arr[0])-1]
		client, tag, ok := cut(tag, " V:")
		if !ok {
			return fail()
		}
		r["client"] = client
		extra := Rec{}
		for i, f := range strings.Split("V:"+tag, ",") {
			k, v, ok := cut(f, ":")
			if !ok || k == "" {
				return fail()
			}
			switch {
			case i == 0:
				r["version"] = v
			case k == "M":
				r["mode"] = v
			case k == "S":
				r["slots"] = v
			case k == "H":
				h := strings.Split(v, "/")
				if len(h) != 3 {
					return fail()
				}
				r["hubs0"], r["hubs1"], r["hubs2"] = h[0], h[1], h[2]
			default:
				extra[k] = v
			}
		}
		r["extra"] = extra.String()
		if arr[1] != " " {
			return fail()
		}
		n := len(arr[2])
		r["conn"], r["flag"] = NMDCText(arr[2][:n-1]), fmt.Sprint(arr[2][n-1])
		r["email"], r["share"] = NMDCText(arr[3]), arr[4]
	case "HubINFO":
		arr := strings.Split(s, "$")
		if len(arr) != 11 {
			return fail()
		}
		for i, k := range []string{"name", "host", "desc", "i1", "i2", "i3", "i4", "soft", "owner", "state", "encoding"} {
			r[k] = arr[i]
			switch k {
			case "name", "desc", "owner", "state":
				r[k] = NMDCText(arr[i])
			}
		}
	case "FailOver":
		if s == "" {
			list(r, "host", nil)
		} else {
			list(r, "host", strings.Split(s, ","))
		}
	case "ConnectToMe":
		targ, s, ok := cut(s, " ")
		if !ok {
			return fail()
		}
		r["targ"] = NMDCText(targ)
		addr, src, _ := cut(s, " ")
		r["src"] = NMDCText(src)
		r["secure"], r["kind"] = "false", "active"
		if strings.HasSuffix(addr, "S") {
			r["secure"], addr = "true", addr[:len(addr)-1]
		}
		if strings.HasSuffix(addr, "N") {
			r["kind"], addr = "passive-req", addr[:len(addr)-1]
		} else if strings.HasSuffix(addr, "R") {
			r["kind"], addr = "passive-resp", addr[:len(addr)-1]
		}
		r["addr"] = addr
	case "RevConnectToMe":
		from, to, ok := cut(s, " ")
		if !ok {
			return fail()
		}
		r["from"], r["to"] = NMDCText(from), NMDCText(to)
	case "Search":
		who, s, ok := cut(s, " ")
		if !ok {
			return fail()
		}
		r["user"], r["addr"] = "", ""
		if strings.HasPrefix(who, "Hub:") {
			r["user"] = NMDCText(who[4:])
		} else {
			r["addr"] = who
		}
		arr := strings.SplitN(s, "?", 5)
		if len(arr) != 5 || len(arr[0]) != 1 || len(arr[1]) != 1 || !isNum(arr[2]) || !isNum(arr[3]) {
			return fail()
		}
		r["restricted"], r["max"], r["size"], r["type"] = arr[0], arr[1], arr[2], arr[3]
		if arr[0] == "F" {
			r["max"] = "" // no meaning
		}
		if arr[3] == "9" {
			r["pattern"] = arr[4]
		} else if strings.Contains(arr[4], " ") {
			return fail()
		} else {
			r["pattern"] = NMDCText(strings.Replace(arr[4], "$", " ", -1))
		}
	case "SR":
		from, s, ok := cut(s, " ")
		if !ok || strings.Contains(s, "$") {
			return fail()
		}
		r["from"] = NMDCText(from)
		arr := strings.Split(s, "\x05")
		// path [5 size] ' ' slots 5 hub [5 to]; the hub part ends with an address
		var slots string
		switch {
		case len(arr) < 2:
			return fail()
		case len(arr) >= 3 && isSizeSlots(arr[1]):
			r["dir"] = "false"
			r["size"], slots, _ = cut(arr[1], " ")
			list(r, "path", textList(strings.Split(arr[0], "\\")))
			arr = arr[2:]
			arr = append(arr[:1:1], tailJoin(arr[1:])...)
		default:
			i := strings.LastIndexByte(arr[0], ' ')
			if i < 0 {
				return fail()
			}
			r["dir"], r["size"], slots = "true", "", arr[0][i+1:]
			list(r, "path", textList(strings.Split(arr[0][:i], "\\")))
			arr = arr[1:]
			arr = append(arr[:1:1], tailJoin(arr[1:])...)
		}
		if len(arr) > 2 {
			return fail()
		}
		if r["free"], r["total"], ok = cut(slots, "/"); !ok || !isNum(r["free"]) || !isNum(r["total"]) {
			return fail()
		}
		i := strings.LastIndex(arr[0], " (")
		if i < 0 || !strings.HasSuffix(arr[0], ")") {
			return fail()
		}
		r["hub"], r["addr"], r["to"] = NMDCText(arr[0][:i]), arr[0][i+2:len(arr[0])-1], ""
		if len(arr) == 2 {
			r["to"] = NMDCText(arr[1])
		}
	case "SA", "SP":
		tth, who, ok := cut(s, " ")
		if !ok || len(tth) != 39 {
			return fail()
		}
		r["tth"], r["who"] = tth, who
		if cmd == "SP" {
			r["who"] = NMDCText(who)
		}
	case "ADCGET", "ADCSND":
		arr := strings.Split(s, " ")
		if len(arr) < 4 || !isNum(arr[2]) || !isNum(arr[3]) {
			return fail()
		}
		r["content"], r["id"], r["start"], r["length"] = NMDCText(arr[0]), NMDCText(arr[1]), arr[2], arr[3]
		r["zl"], r["db"] = "false", ""
		for _, f := range arr[4:] {
			switch {
			case f == "ZL1" && r["zl"] == "false":
				r["zl"] = "true"
			case strings.HasPrefix(f, "DB") && r["db"] == "" && isNum(f[2:]):
				r["db"] = f[2:]
			default:
				return fail()
			}
		}
	case "Direction":
		if r["dir"], r["num"], ok = cut(s, " "); !ok || !isNum(r["num"]) {
			return fail()
		}
	case "Lock":
		r["ext"] = fmt.Sprint(strings.HasPrefix(s, "EXTENDEDPROTOCOL"))
		lock, rest, _ := cut(strings.TrimPrefix(s, "EXTENDEDPROTOCOL"), " ")
		r["lock"] = lock
		pk, ref, _ := cut(rest, "Ref=")
		r["pk"], r["ref"] = strings.TrimPrefix(pk, "Pk="), ref
	case "Supports":
		if s == "" {
			list(r, "ext", nil)
		} else {
			list(r, "ext", strings.Split(s, " "))
		}
	case "OpList", "BotList":
		if s != "" && !strings.HasSuffix(s, "$$") {
			return fail()
		}
		s = strings.TrimSuffix(s, "$$")
		if s == "" {
			list(r, "names", nil)
		} else {
			list(r, "names", textList(strings.Split(s, "$$")))
		}
	case "UserIP":
		if s == "" {
			list(r, "names", nil)
			break
		}
		if !strings.HasSuffix(s, "$$") {
			return fail()
		}
		arr := strings.Split(strings.TrimSuffix(s, "$$"), "$$")
		ips := make([]string, len(arr))
		for i, e := range arr {
			j := strings.LastIndexByte(e, ' ')
			if j < 0 {
				return fail()
			}
			arr[i], ips[i] = NMDCText(e[:j]), e[j+1:]
		}
		list(r, "names", arr)
		list(r, "ips", ips)
	}
	return cmd, r, nil
}

func isSizeSlots(s string) bool {
	a, b, ok := cut(s, " ")
	if !ok || !isNum(a) {
		return false
	}
	f, t, ok := cut(b, "/")
	return ok && isNum(f) && isNum(t)
}

// tailJoin makes a single last field.
func tailJoin(arr []string) []string {
	if len(arr) == 0 {
		return nil
	}
	return []string{strings.Join(arr, "\x05")}
}
