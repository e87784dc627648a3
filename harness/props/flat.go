package props

import (
	"fmt"
	"strconv"

	"github.com/direct-connect/go-dc/nmdc"

	"verif/harness/ref"
)

func flatList(r ref.Rec, key string, arr []string) {
	r[key+"#"] = strconv.Itoa(len(arr))
	for i, s := range arr {
		r[fmt.Sprintf("%s[%d]", key, i)] = s
	}
}

// base32 of a hash, written independently.
func b32(h []byte) string {
	const alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	var (
		out  []byte
		acc  uint
		bits uint
	)
	for _, b := range h {
		acc = acc<<8 | uint(b)
		bits += 8
		for bits >= 5 {
			bits -= 5
			out = append(out, alpha[acc>>bits&31])
		}
	}
	if bits > 0 {
		out = append(out, alpha[acc<<(5-bits)&31])
	}
	return string(out)
}

func u(v uint64) string { return strconv.FormatUint(v, 10) }

func tf(v bool) string {
	if v {
		return "T"
	}
	return "F"
}

// flat converts a message to named text values of the reference decoder.
func flat(m nmdc.Message) ref.Rec {
	r := ref.Rec{}
	switch m := m.(type) {
	case *nmdc.ChatMessage:
		r["name"], r["text"] = m.Name, m.Text
	case *nmdc.PrivateMessage:
		r["to"], r["from"], r["name"], r["text"] = m.To, m.From, m.Name, m.Text
	case *nmdc.MCTo:
		r["to"], r["from"], r["text"] = m.To, m.From, m.Text
	case *nmdc.UserCommand:
		r["type"], r["context"], r["command"] = strconv.Itoa(int(m.Typ)), strconv.Itoa(int(m.Context)), m.Command
		flatList(r, "path", m.Path)
	case *nmdc.GetTopic, *nmdc.BadPass, *nmdc.GetPass, *nmdc.ZOn, *nmdc.HubIsFull, *nmdc.MaxedOut, *nmdc.GetNickList:
	case *nmdc.Kick:
		r["value"] = string(m.Name)
	case *nmdc.Close:
		r["value"] = string(m.Name)
	case *nmdc.ValidateNick:
		r["value"] = string(m.Name)
	case *nmdc.ValidateDenide:
		r["value"] = string(m.Name)
	case *nmdc.MyNick:
		r["value"] = string(m.Name)
	case *nmdc.Quit:
		r["value"] = string(m.Name)
	case *nmdc.LogedIn:
		r["value"] = string(m.Name)
	case *nmdc.Hello:
		r["value"] = string(m.Name)
	case *nmdc.SetTopic:
		r["value"] = string(m.String)
	case *nmdc.MyPass:
		r["value"] = string(m.String)
	case *nmdc.HubName:
		r["value"] = string(m.String)
	case *nmdc.BotINFO:
		r["value"] = string(m.String)
	case *nmdc.SetIcon:
		r["value"] = string(m.String)
	case *nmdc.SetLogo:
		r["value"] = string(m.String)
	case *nmdc.HubTopic:
		r["value"] = m.Text
	case *nmdc.Failed:
		r["value"] = errText(m.Err)
	case *nmdc.Error:
		r["value"] = errText(m.Err)
	case *nmdc.ForceMove:
		r["value"] = m.Address
	case *nmdc.Version:
		r["value"] = m.Vers
	case *nmdc.Key:
		r["value"] = m.Key
	case *nmdc.MyINFO:
		r["name"], r["desc"], r["client"], r["version"] = m.Name, m.Desc, m.Client.Name, m.Client.Version
		r["mode"] = string([]byte{byte(m.Mode)})
		if m.Mode == 0 {
			r["mode"] = " "
		}
		r["hubs0"], r["hubs1"], r["hubs2"] = strconv.Itoa(m.HubsNormal), strconv.Itoa(m.HubsRegistered), strconv.Itoa(m.HubsOperator)
		r["slots"], r["extra"] = strconv.Itoa(m.Slots), ref.Rec(m.Extra).String()
		r["conn"], r["flag"], r["email"], r["share"] = m.Conn, strconv.Itoa(int(m.Flag)), m.Email, u(m.ShareSize)
	case *nmdc.HubINFO:
		r["name"], r["host"], r["desc"], r["owner"], r["state"], r["encoding"] = m.Name, m.Host, m.Desc, m.Owner, m.State, m.Encoding
		r["i1"], r["i2"], r["i3"], r["i4"] = strconv.Itoa(m.I1), strconv.Itoa(m.I2), strconv.Itoa(m.I3), strconv.Itoa(m.I4)
		r["soft"] = m.Soft.Name
		if m.Soft.Version != "" {
			r["soft"] += " " + m.Soft.Version
		}
	case *nmdc.FailOver:
		flatList(r, "host", m.Host)
	case *nmdc.ConnectToMe:
		r["targ"], r["src"], r["addr"], r["secure"] = m.Targ, m.Src, m.Address, fmt.Sprint(m.Secure)
		r["kind"] = map[nmdc.CTMKind]string{nmdc.CTMActive: "active", nmdc.CTMPassiveReq: "passive-req", nmdc.CTMPassiveResp: "passive-resp"}[m.Kind]
	case *nmdc.RevConnectToMe:
		r["from"], r["to"] = m.From, m.To
	case *nmdc.Search:
		r["user"], r["addr"] = m.User, m.Address
		r["restricted"], r["max"], r["size"], r["type"] = tf(m.SizeRestricted), tf(m.IsMaxSize), u(m.Size), u(uint64(m.DataType))
		if !m.SizeRestricted {
			r["max"] = ""
		}
		if m.TTH != nil {
			r["pattern"] = "TTH:" + b32(m.TTH[:])
		} else {
			r["pattern"] = m.Pattern
		}
	case *nmdc.SR:
		r["from"], r["to"], r["addr"] = m.From, m.To, m.HubAddress
		r["dir"], r["size"], r["free"], r["total"] = fmt.Sprint(m.IsDir), u(m.Size), strconv.Itoa(m.FreeSlots), strconv.Itoa(m.TotalSlots)
		if m.IsDir {
			r["size"] = ""
		}
		flatList(r, "path", m.Path)
		r["hub"] = m.HubName
		if m.TTH != nil {
			r["hub"] = "TTH:" + b32(m.TTH[:])
		}
	case *nmdc.TTHSearchActive:
		r["tth"], r["who"] = b32(m.TTH[:]), m.Address
	case *nmdc.TTHSearchPassive:
		r["tth"], r["who"] = b32(m.TTH[:]), m.User
	case *nmdc.ADCGet:
		r["content"], r["id"], r["start"], r["length"] = string(m.ContentType), string(m.Identifier), u(m.Start), strconv.FormatInt(m.Length, 10)
		r["zl"], r["db"] = fmt.Sprint(m.Compressed), ""
		if m.DownloadedBytes != nil {
			r["db"] = u(*m.DownloadedBytes)
		}
	case *nmdc.ADCSnd:
		r["content"], r["id"], r["start"], r["length"] = string(m.ContentType), string(m.Identifier), u(m.Start), u(m.Length)
		r["zl"], r["db"] = fmt.Sprint(m.Compressed), ""
	case *nmdc.Direction:
		r["dir"], r["num"] = "Download", u(uint64(m.Number))
		if m.Upload {
			r["dir"] = "Upload"
		}
	case *nmdc.Lock:
		r["ext"], r["lock"], r["pk"], r["ref"] = fmt.Sprint(!m.NoExt), m.Lock, m.PK, m.Ref
	case *nmdc.Supports:
		flatList(r, "ext", m.Ext)
	case *nmdc.OpList:
		flatList(r, "names", m.Names)
	case *nmdc.BotList:
		flatList(r, "names", m.Names)
	case *nmdc.UserIP:
		var names, ips []string
		for _, a := range m.List {
			names, ips = append(names, a.Name), append(ips, a.IP)
		}
		flatList(r, "names", names)
		if len(names) != 0 {
			flatList(r, "ips", ips)
		}
	default:
		panic(fmt.Sprintf("unexpected message %T", m))
	}
	return r
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}
