package props

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/rsa"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base32"
	"encoding/hex"
	"encoding/pem"
	"errors"
	"fmt"
	"math/big"
	"net"
	"net/url"
	"strings"
	"sync"
	"time"

	dc "github.com/direct-connect/go-dc"
	"github.com/direct-connect/go-dc/keyprint"
	"github.com/direct-connect/go-dc/keyprint/tlskp"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
)

func c23() mon.Property {
	return mon.Property{
		ID: "C23",
		Rule: "Real TLS connections (1.2 and 1.3, resumed sessions, client and server side, chains of 0..6 certificates of different algorithms, duplicates and unrelated ones, not yet completed handshakes) are queried for keyprints of all presented certificates and for 30 near misses each; PEM files mix certificates with other blocks, headers and garbage and are read in chunks or fail; addresses carry the parameter among others. All results are compared with SHA-256 and an own base32. " +
			"Non-trivial: a connection with a certificate, or a file or an address with a keyprint; distinct by chain and query.",
		Monitors: []mon.Monitor{
			{Name: "tls", Quick: 10000, Thorough: 60000, Run: c23TLS},
			{Name: "files", Quick: 80000, Thorough: 800000, Run: c23File},
			{Name: "bytes", Quick: 60000, Thorough: 2000000, Run: c23Bytes},
			{Name: "addresses", Quick: 60000, Thorough: 2000000, Run: c23Addr},
		},
	}
}

// keyprintOf is an independent computation.
func keyprintOf(b []byte) string {
	h := sha256.Sum256(b)
	return "SHA256/" + ref.Base32(h[:])
}

type testCert struct {
	der []byte
	key interface{}
}

var certPool struct {
	once sync.Once
	arr  []testCert
}

func certs() []testCert {
	certPool.once.Do(func() {
		for i := 0; i < 10; i++ {
			var key, pub interface{}
			switch i {
			case 0:
				k, err := rsa.GenerateKey(crand.Reader, 2048)
				if err != nil {
					panic(err)
				}
				key, pub = k, &k.PublicKey
			case 1, 2:
				p, k, err := ed25519.GenerateKey(crand.Reader)
				if err != nil {
					panic(err)
				}
				key, pub = k, p
			default:
				k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
				if err != nil {
					panic(err)
				}
				key, pub = k, &k.PublicKey
			}
			tpl := &x509.Certificate{
				SerialNumber: big.NewInt(int64(1 + i)),
				Subject:      pkix.Name{CommonName: fmt.Sprintf("cert %d", i)},
				NotBefore:    time.Now().Add(-time.Hour * time.Duration(1+i)),
				NotAfter:     time.Now().Add(time.Hour * time.Duration(i*1000-500)), // the first one is expired
				IsCA:         i%2 == 0, BasicConstraintsValid: true,
			}
			for j := 0; j < i*i; j++ {
				tpl.DNSNames = append(tpl.DNSNames, fmt.Sprintf("host%d.example.org", j))
			}
			der, err := x509.CreateCertificate(crand.Reader, tpl, tpl, pub, key)
			if err != nil {
				panic(err)
			}
			certPool.arr = append(certPool.arr, testCert{der, key})
		}
	})
	return certPool.arr
}

// c23Chain picks a chain; the first one has a key.
func c23Chain(r *mon.Rand, max int) (tls.Certificate, []string) {
	pool := certs()
	var (
		c    tls.Certificate
		want []string
	)
	for i, n := 0, 1+gen.Count(r, max); i < n && i < 60; i++ { // TLS limits the size of a handshake
		tc := pool[r.Intn(len(pool))]
		if i == 0 {
			c.PrivateKey = tc.key
		}
		c.Certificate = append(c.Certificate, tc.der)
		want = append(want, keyprintOf(tc.der))
	}
	return c, want
}

func sameList(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// nearMisses are strings that are not keyprints of the list.
func nearMisses(r *mon.Rand, kps []string) []string {
	out := []string{"", "SHA256/", "SHA256", "SHA1/", "/", " ", "\x00", "=", "SHA256/====", strings.Join(kps, ","), strings.Join(kps, ""), "*"}
	pool := certs()
	for i := 0; i < 3; i++ {
		der := pool[r.Intn(len(pool))].der
		out = append(out, keyprintOf(der), keyprintOf(der[:len(der)-1]), keyprintOf(nil))
	}
	kp := keyprintOf(pool[r.Intn(len(pool))].der)
	if len(kps) != 0 {
		kp = kps[r.Intn(len(kps))]
	}
	i := r.Intn(len(kp))
	hash, _ := base32.StdEncoding.WithPadding(base32.NoPadding).DecodeString(strings.TrimPrefix(kp, "SHA256/"))
	s1 := sha1.Sum([]byte(kp))
	out = append(out, kp[:i], kp[i:], kp[:len(kp)-1], kp[1:], kp+"=", kp+"====", kp+" ", " "+kp, kp+"\n", kp+"A", kp+kp, strings.ToLower(kp), strings.TrimPrefix(kp, "SHA256/"),
		"sha256/"+strings.TrimPrefix(kp, "SHA256/"), "SHA256/"+strings.ToLower(strings.TrimPrefix(kp, "SHA256/")), "SHA1/"+strings.TrimPrefix(kp, "SHA256/"), "SHA256:"+strings.TrimPrefix(kp, "SHA256/"),
		kp[:i]+mon.Pick(r, "A", "B", "7", "2", "/", "a")+kp[i+1:], kp[:i]+kp[i+1:], "SHA256/"+hex.EncodeToString(hash), hex.EncodeToString(hash), string(hash), "SHA1/"+ref.Base32(s1[:]), "kp="+kp, url.QueryEscape(kp),
		"SHA256/"+kp, kp+"\x00", kp[:len(kp)-1]+"B", kp[:len(kp)-1]+string(rune(kp[len(kp)-1]+1)))
	return out
}

// verify checks all queries on one end of a connection.
func c23Verify(t *mon.T, c *tls.Conn, want []string, what string) {
	r := t.R
	got := tlskp.GetKeyPrints(c)
	t.Eval(1)
	if !sameList(got, want) {
		t.Failf("list", "%s: GetKeyPrints returned %q, presented %q", what, got, want)
	}
	query := func(kp string) {
		ok := contains(want, kp)
		list, err := tlskp.VerifyKeyPrint(c, kp)
		t.Eval(1)
		if ok {
			t.Ev("accepted", 1)
			if err != nil {
				t.Failf("refused", "%s: keyprint %q was refused (%v), presented %q", what, kp, err, want)
			}
		} else {
			t.Ev("refused", 1)
			if err == nil {
				t.Failf("accepted", "%s: keyprint %q was accepted, presented %q", what, kp, want)
			}
			var e *tlskp.ErrInvalidKeyPrint
			if !errors.As(err, &e) {
				t.Failf("error", "%s: error is %T %v", what, err, err)
			}
			if e.Expected != kp || !sameList(e.Actual, want) {
				t.Failf("error", "%s: keyprint %q: the error has %q, %q, presented %q", what, kp, e.Expected, e.Actual, want)
			}
			if e.Error() == "" {
				t.Failf("error", "%s: an empty error text", what)
			}
		}
		if !sameList(list, want) {
			t.Failf("list", "%s: VerifyKeyPrint(%q) returned %q, presented %q", what, kp, list, want)
		}
	}
	for _, kp := range want {
		query(kp)
	}
	for _, kp := range nearMisses(r, want) {
		query(kp)
	}
	if len(want) != 0 {
		t.Seen(strings.Join(want, " ") + what)
	}
}

func c23TLS(t *mon.T) {
	r := t.R
	srv, swant := c23Chain(r, 6)
	ver := uint16(mon.Pick(r, tls.VersionTLS12, tls.VersionTLS13))
	scfg := &tls.Config{Certificates: []tls.Certificate{srv}, MinVersion: ver, MaxVersion: ver}
	ccfg := &tls.Config{InsecureSkipVerify: true, MinVersion: ver, MaxVersion: ver, ServerName: "hub"}
	var cwant []string
	if r.Bool() {
		scfg.ClientAuth = mon.Pick(r, tls.RequestClientCert, tls.RequireAnyClientCert)
		var cl tls.Certificate
		if cl, cwant = c23Chain(r, 3); scfg.ClientAuth == tls.RequestClientCert && r.P(1, 3) {
			cwant = nil
		} else {
			ccfg.Certificates = []tls.Certificate{cl}
		}
	}
	rounds := 1
	if ver == tls.VersionTLS12 && r.P(1, 3) {
		ccfg.ClientSessionCache = tls.NewLRUClientSessionCache(4)
		rounds = 2
	} else {
		scfg.SessionTicketsDisabled = true
	}
	for i := 0; i < rounds; i++ {
		a, b := net.Pipe()
		deadline := time.Now().Add(time.Minute)
		_ = a.SetDeadline(deadline)
		_ = b.SetDeadline(deadline)
		s, c := tls.Server(a, scfg), tls.Client(b, ccfg)
		if r.P(1, 4) {
			c23Verify(t, c, nil, "client before the handshake")
			c23Verify(t, s, nil, "server before the handshake")
		}
		var serr, cerr error
		t.Par(func() {
			if serr = s.Handshake(); serr != nil {
				a.Close()
			}
		}, func() {
			if cerr = c.Handshake(); cerr != nil {
				b.Close()
			}
		})
		if serr != nil || cerr != nil {
			panic(fmt.Errorf("handshake: server %v, client %v", serr, cerr))
		}
		resumed := ""
		if c.ConnectionState().DidResume {
			resumed = " resumed"
			t.Ev("resumed sessions", 1)
		}
		what := fmt.Sprintf("TLS %x%s", ver, resumed)
		c23Verify(t, c, swant, "client "+what)
		c23Verify(t, s, cwant, "server "+what)
		t.Ev("connections", 1)
		// other sources agree
		if kps := keyprint.FromCertificate(srv); !sameList(kps, swant) {
			t.Failf("certificate", "FromCertificate returned %q, expected %q", kps, swant)
		}
		var file bytes.Buffer
		for _, b := range srv.Certificate {
			_ = pem.Encode(&file, &pem.Block{Type: "CERTIFICATE", Bytes: b})
		}
		if kps, err := keyprint.FromFile(&file); err != nil || !sameList(kps, swant) {
			t.Failf("file", "FromFile returned %q, %v, expected %q", kps, err, swant)
		}
		// an address with a keyprint pins the connection
		kp := swant[r.Intn(len(swant))]
		if r.Bool() {
			kp = nearMisses(r, swant)[r.Intn(20)]
		}
		u, err := dc.ParseAddr(mon.Pick(r, "adcs", "nmdcs") + "://hub:411/?" + mon.Pick(r, "", "x=1&") + "kp=" + url.QueryEscape(kp))
		if err != nil {
			t.Failf("address", "%v", err)
		}
		if got := keyprint.FromURL(u); got != kp {
			t.Failf("address", "FromURL returned %q, expected %q", got, kp)
		}
		if _, err := tlskp.VerifyKeyPrint(c, keyprint.FromURL(u)); (err == nil) != contains(swant, kp) {
			t.Failf("pinning", "keyprint %q of an address: %v, presented %q", kp, err, swant)
		}
		a.Close()
		b.Close()
	}
	t.Sample(func() string { return fmt.Sprintf("%x server %q client %q", ver, swant, cwant) })
}

func c23File(t *mon.T) {
	r := t.R
	pool := certs()
	var (
		file bytes.Buffer
		want []string
		desc []string
	)
	crlf := r.P(1, 4)
	for i, n := 0, gen.Count(r, 8); i < n; i++ {
		b := &pem.Block{Type: "CERTIFICATE", Bytes: pool[r.Intn(len(pool))].der}
		switch r.Intn(3) {
		case 0:
			b.Type = mon.Pick(r, "RSA PRIVATE KEY", "PRIVATE KEY", "EC PRIVATE KEY", "CERTIFICATE REQUEST", "X509 CRL", "TRUSTED CERTIFICATE", "X509 CERTIFICATE", "certificate", "CERTIFICATES", "PUBLIC KEY", "EC PARAMETERS", "DH PARAMETERS", "A CERTIFICATE B")
			if r.Bool() {
				b.Bytes = r.Bytes(1 + r.Intn(200))
			}
		default:
			want = append(want, keyprintOf(b.Bytes))
		}
		if r.P(1, 6) {
			b.Headers = map[string]string{"Proc-Type": "4,ENCRYPTED", "Key": "value"}
		}
		desc = append(desc, b.Type)
		text := string(pem.EncodeToMemory(b))
		if crlf {
			text = strings.Replace(text, "\n", "\r\n", -1)
		}
		if r.P(1, 4) {
			file.WriteString(mon.Pick(r, "\n", "some text\n", "subject=/CN=x\nissuer=/CN=y\n", "-----\n", "\n\n  \n", "Bag Attributes\n    localKeyID: 01\n"))
		}
		file.WriteString(text)
	}
	if r.P(1, 5) {
		file.WriteString(mon.Pick(r, "trailing text", "-----BEGIN CERTIFICATE-----\nabc", "\n\n", "-----BEGIN CERTIFICATE-----\n", "-----END CERTIFICATE-----\n"))
	}
	what := fmt.Sprintf("file with blocks %q", desc)
	src := gen.NewReader(r, file.Bytes())
	fail := r.P(1, 8)
	if fail {
		src.Err = gen.ErrTransport
	}
	kps, err := keyprint.FromFile(src)
	t.Eval(1)
	switch {
	case fail:
		if err == nil {
			t.Failf("read-error", "%s: a failed read gives %q", what, kps)
		} else if !errors.Is(err, gen.ErrTransport) {
			t.Failf("read-error", "%s: %v instead of the error of the reader", what, err)
		}
	case len(want) == 0:
		if err == nil {
			t.Failf("empty", "%s: no error; returned %q", what, kps)
		}
		if len(kps) != 0 {
			t.Failf("empty", "%s: returned %q", what, kps)
		}
	default:
		if err != nil || !sameList(kps, want) {
			t.Failf("list", "%s: returned %q, %v, expected %q", what, kps, err, want)
		}
		t.Ev("keyprints of files", len(kps))
		t.Seen(file.String())
	}
}

func c23Bytes(t *mon.T) {
	r := t.R
	b := r.Bytes(gen.Size(r, 5000))
	orig := string(b)
	want := keyprintOf(b)
	t.Eval(1)
	if got := keyprint.FromBytes(b); got != want {
		t.Failf("bytes", "FromBytes of %d bytes is %q, expected %q", len(b), got, want)
	}
	if string(b) != orig {
		t.Failf("modified", "FromBytes modified its input")
	}
	var (
		c     tls.Certificate
		wants []string
	)
	for i, n := 0, r.Intn(6); i < n; i++ {
		k := r.Intn(len(b) + 1)
		c.Certificate = append(c.Certificate, b[:k])
		wants = append(wants, keyprintOf(b[:k]))
	}
	c.Leaf = &x509.Certificate{Raw: []byte("other")}
	if got := keyprint.FromCertificate(c); !sameList(got, wants) {
		t.Failf("certificate", "FromCertificate is %q, expected %q", got, wants)
	}
	if string(b) != orig {
		t.Failf("modified", "FromCertificate modified its input")
	}
	t.Ev("keyprints", 1+len(wants))
	t.Seen(want)
}

func c23Addr(t *mon.T) {
	r := t.R
	kp := mon.Pick(r, keyprintOf(r.Bytes(10)), "", "SHA256/ABC", "x", "SHA256/a/b=c", "a b", "é", "=", "kp", "&", "#")
	var parts []string
	want, found := "", false
	for i, n := 0, r.Intn(5); i < n; i++ {
		k := mon.Pick(r, "kp", "kp", "KP", "k", "kpx", "xkp", "a", "kp2", "")
		v := mon.Pick(r, kp, "other", "", "1")
		if k == "kp" && !found {
			want, found = v, true
		}
		e := url.QueryEscape(v)
		if r.Bool() {
			e = strings.Replace(e, "%2F", "/", -1)
		}
		if k == "" && v == "" {
			continue
		}
		parts = append(parts, k+"="+e)
	}
	query := strings.Join(parts, "&")
	addr := mon.Pick(r, "adcs://hub.example.org:5000", "adc://1.2.3.4:411", "nmdcs://[::1]:411", "dchub://hub", "hub.example.org:411") + mon.Pick(r, "", "/", "/path") + "?" + query + mon.Pick(r, "", "#kp=frag")
	u, err := dc.ParseAddr(addr)
	if err != nil {
		t.Failf("parse", "%q: %v", addr, err)
	}
	t.Eval(1)
	if got := keyprint.FromURL(u); got != want {
		t.Failf("url", "keyprint of %q is %q, expected %q", addr, got, want)
	}
	if want != "" {
		t.Ev("addresses with a keyprint", 1)
		t.Seen(addr)
	}
	// changes nothing
	before := u.String()
	_ = keyprint.FromURL(u)
	if u.String() != before {
		t.Failf("modified", "FromURL changed the address %q to %q", before, u.String())
	}
}
