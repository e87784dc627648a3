From 5f363595aec8c4d55d5c5082f59217b5ddde1e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:59 +0000
Subject: [PATCH 01/62] fix: nmdc: marshaling an empty chat message should not
 touch the bytes before it

---
 nmdc/message.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmdc/message.go b/nmdc/message.go
index 851e3f8..8e41551 100644
--- a/nmdc/message.go
+++ b/nmdc/message.go
@@ -126,7 +126,7 @@ func MarshalTo(enc *TextEncoder, buf *bytes.Buffer, m Message) error {
 	if err := m.MarshalNMDC(enc, buf); err != nil {
 		return err
 	}
-	if n == buf.Len() {
+	if n == buf.Len() && m.Type() != "" {
 		// no payload
 		buf.Bytes()[n-1] = Delimiter // ' ' -> '|'
 		return nil
-- 
2.43.0


From 1f2b813782c9c47744718d5fcac7d88f1ef5ea17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 02/62] fix: nmdc: do not panic when calculating a key for a
 short lock

---
 nmdc/msg_lock.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nmdc/msg_lock.go b/nmdc/msg_lock.go
index 3ba3587..668fc76 100644
--- a/nmdc/msg_lock.go
+++ b/nmdc/msg_lock.go
@@ -108,6 +108,10 @@ func (m *Lock) CustomKey(magic byte, full bool) *Key {
 	lock := []byte(m.LockString(full))
 
 	n := len(lock)
+	if n < 2 {
+		// too short to calculate the key
+		return &Key{}
+	}
 	key := make([]byte, n)
 
 	key[0] = byte((lock[0] ^ lock[n-1] ^ lock[n-2] ^ magic) & 0xFF)
-- 
2.43.0


From e987658f71455bd67dcfed4a0f9dc870bed24d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:16 +0000
Subject: [PATCH 03/62] fix: tiger: do not panic or write a partial hash when
 decoding a malformed base32 value

---
 tiger/tiger.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/tiger/tiger.go b/tiger/tiger.go
index 79309ab..aa80aad 100644
--- a/tiger/tiger.go
+++ b/tiger/tiger.go
@@ -80,14 +80,7 @@ func (h Hash) MarshalBase32(buf []byte) error {
 
 // UnmarshalBase32 decodes the hash from a given buffer.
 func (h *Hash) UnmarshalBase32(buf []byte) error {
-	n, err := base32Enc.Decode((*h)[:], buf)
-	if err != nil {
-		return err
-	}
-	if n != Size {
-		return fmt.Errorf("wrong base32 encoded size: %d vs %d", n, Size)
-	}
-	return nil
+	return h.FromBase32(string(buf))
 }
 
 // FromBase32 parses hash from base32 encoding.
-- 
2.43.0


From 53be530b03316849559b785e6b822e8e27af208a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:17 +0000
Subject: [PATCH 04/62] fix: adc: return an error when positional arguments are
 missing instead of panicking

---
 adc/marshal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/adc/marshal.go b/adc/marshal.go
index b30e546..82f5b5b 100644
--- a/adc/marshal.go
+++ b/adc/marshal.go
@@ -117,6 +117,9 @@ func Unmarshal(s []byte, o interface{}) error {
 		if tag == "" || tag == "-" {
 			continue
 		} else if tag == "#" {
+			if len(sub) == 0 {
+				return fmt.Errorf("error on field %s: missing positional argument", fld.Name)
+			}
 			v := sub[0]
 			sub = sub[1:]
 			if err := unmarshalValue(v, rv.Field(i)); err != nil {
-- 
2.43.0


From 12ebb31e3c9989de49336497244d9fbef78e9556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:19 +0000
Subject: [PATCH 05/62] fix: adc: do not panic on a short feature selector

---
 adc/packets.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/adc/packets.go b/adc/packets.go
index e451eb5..3a686f0 100644
--- a/adc/packets.go
+++ b/adc/packets.go
@@ -693,7 +693,7 @@ func (p *FeaturePacket) UnmarshalPacketADC(name MsgType, data []byte) error {
 	for i := 0; i < len(data); i++ {
 		if data[i] == '+' {
 			if f := data[i:]; len(f) < 5 {
-				return fmt.Errorf("short feature: '%s'", string(data[i:i+5]))
+				return fmt.Errorf("short feature: '%s'", string(f))
 			}
 			var fea Feature
 			copy(fea[:], data[i+1:i+5])
@@ -701,7 +701,7 @@ func (p *FeaturePacket) UnmarshalPacketADC(name MsgType, data []byte) error {
 			i += 4
 		} else if data[i] == '-' {
 			if f := data[i:]; len(f) < 5 {
-				return fmt.Errorf("short feature: '%s'", string(data[i:i+5]))
+				return fmt.Errorf("short feature: '%s'", string(f))
 			}
 			var fea Feature
 			copy(fea[:], data[i+1:i+5])
-- 
2.43.0


From 253b25f350c5a741f9e04e2ccdf9798726da171d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:43 +0000
Subject: [PATCH 06/62] fix: adc: a truncated SID should not swallow the line
 delimiter

---
 adc/packets.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/adc/packets.go b/adc/packets.go
index 3a686f0..19b1576 100644
--- a/adc/packets.go
+++ b/adc/packets.go
@@ -313,7 +313,7 @@ func (p *BroadcastPacket) MarshalPacketADC(buf *bytes.Buffer) error {
 }
 
 func (p *BroadcastPacket) UnmarshalPacketADC(name MsgType, data []byte) error {
-	if len(data) < 4 {
+	if len(data) < 5 {
 		return errors.New("short broadcast command")
 	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
@@ -408,7 +408,7 @@ func (p *DirectPacket) MarshalPacketADC(buf *bytes.Buffer) error {
 }
 
 func (p *DirectPacket) UnmarshalPacketADC(name MsgType, data []byte) error {
-	if len(data) < 9 {
+	if len(data) < 10 {
 		return fmt.Errorf("short direct command")
 	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
@@ -504,7 +504,7 @@ func (p *EchoPacket) MarshalPacketADC(buf *bytes.Buffer) error {
 }
 
 func (p *EchoPacket) UnmarshalPacketADC(name MsgType, data []byte) error {
-	if len(data) < 9 {
+	if len(data) < 10 {
 		return fmt.Errorf("short echo command")
 	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
@@ -673,7 +673,7 @@ func (p *FeaturePacket) MarshalPacketADC(buf *bytes.Buffer) error {
 }
 
 func (p *FeaturePacket) UnmarshalPacketADC(name MsgType, data []byte) error {
-	if len(data) < 4 {
+	if len(data) < 5 {
 		return fmt.Errorf("short feature command")
 	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
-- 
2.43.0


From 3ee4547f16be4df864e00ca1f9303df504f7cce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 07/62] fix: adc: do not panic on an info packet without a
 delimiter

---
 adc/packets.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/adc/packets.go b/adc/packets.go
index 19b1576..b95e5c4 100644
--- a/adc/packets.go
+++ b/adc/packets.go
@@ -180,7 +180,9 @@ func (p *InfoPacket) MarshalPacketADC(buf *bytes.Buffer) error {
 }
 
 func (p *InfoPacket) UnmarshalPacketADC(name MsgType, data []byte) error {
-	if len(data) != 0 && data[len(data)-1] != lineDelim {
+	if len(data) < 1 {
+		return errors.New("short info command")
+	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
 	}
 	data = data[:len(data)-1]
-- 
2.43.0


From 39adc92f872141be7512a1a16cbc50ab1e7be615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 08/62] fix: adc: decode 0 as a false boolean value

---
 adc/marshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adc/marshal.go b/adc/marshal.go
index 82f5b5b..0a91f66 100644
--- a/adc/marshal.go
+++ b/adc/marshal.go
@@ -89,7 +89,7 @@ func unmarshalValue(s []byte, rv reflect.Value) error {
 		} else if len(s) != 1 {
 			return errors.New("invalid bool value: " + string(s))
 		}
-		rv.SetBool(s[0] != 0)
+		rv.SetBool(s[0] != '0')
 		return nil
 	}
 	return fmt.Errorf("unknown type: %v", rv.Type())
-- 
2.43.0


From 5b8a08eaf27c7e7bfd86e9a6f5403d3ac56bfea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:31 +0000
Subject: [PATCH 09/62] fix: adc: reject integers that are fractional or out of
 range instead of changing them

---
 adc/marshal.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/adc/marshal.go b/adc/marshal.go
index 0a91f66..9afa92d 100644
--- a/adc/marshal.go
+++ b/adc/marshal.go
@@ -4,7 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
-	"math"
+	"math/big"
 	"reflect"
 	"strconv"
 	"strings"
@@ -51,21 +51,21 @@ func unmarshalValue(s []byte, rv reflect.Value) error {
 	}
 	switch rv.Kind() {
 	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16:
-		bits := 64
-		switch rv.Kind() {
-		case reflect.Int32, reflect.Int16:
-			bits = 32
-		}
 		sv := string(s)
-		vi, err := strconv.ParseInt(sv, 10, bits)
+		vi, err := strconv.ParseInt(sv, 10, rv.Type().Bits())
 		if err != nil {
-			vf, err2 := strconv.ParseFloat(sv, bits)
+			// some clients send integers as floats; only accept exact values
+			if _, err2 := strconv.ParseFloat(sv, 64); err2 != nil {
+				return err
+			}
+			vf, _, err2 := big.ParseFloat(sv, 10, 256, big.ToNearestEven)
 			if err2 != nil {
 				return err
-			} else if math.Round(vf) != vf {
-				return err2
 			}
-			vi = int64(vf)
+			var acc big.Accuracy
+			if vi, acc = vf.Int64(); acc != big.Exact || rv.OverflowInt(vi) {
+				return err
+			}
 		}
 		rv.SetInt(vi)
 		return nil
-- 
2.43.0


From 3ac0e1faf38282cbe8accea13240c73ffbe8d270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:32 +0000
Subject: [PATCH 10/62] fix: adc: store unescaped values when decoding raw
 fields

---
 adc/messages.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adc/messages.go b/adc/messages.go
index 953e680..156b8b0 100644
--- a/adc/messages.go
+++ b/adc/messages.go
@@ -141,7 +141,7 @@ func (f *Fields) UnmarshalADC(data []byte) error {
 		if err := s.UnmarshalADC(v); err != nil {
 			return fmt.Errorf("cannot unmarshal field %s: %v", string(k[:]), err)
 		}
-		mp = append(mp, Field{Tag: k, Value: string(v)})
+		mp = append(mp, Field{Tag: k, Value: string(s)})
 	}
 	*f = mp
 	return nil
-- 
2.43.0


From de0181aa91c4a2b5abd2ae500b4735e56ea78531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:34 +0000
Subject: [PATCH 11/62] fix: adc: do not pad a password salt with zero bytes
 that were not received

---
 adc/hub.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/adc/hub.go b/adc/hub.go
index 68982d7..220542b 100644
--- a/adc/hub.go
+++ b/adc/hub.go
@@ -84,7 +84,8 @@ func (m GetPassword) MarshalADC(buf *bytes.Buffer) error {
 func (m *GetPassword) UnmarshalADC(data []byte) error {
 	size := base32Enc.DecodedLen(len(data))
 	m.Salt = make([]byte, size)
-	_, err := base32Enc.Decode(m.Salt, data)
+	n, err := base32Enc.Decode(m.Salt, data)
+	m.Salt = m.Salt[:n]
 	return err
 }
 
-- 
2.43.0


From cdc974dac4c68782ae4cbccb3ee885772b4d63cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 12/62] fix: tiger: compute tree hash correctly for readers
 returning partial blocks

---
 tiger/tth.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tiger/tth.go b/tiger/tth.go
index 2ce7abe..f87d3f3 100644
--- a/tiger/tth.go
+++ b/tiger/tth.go
@@ -8,13 +8,23 @@ const tthBlock = 1024
 // the single parts of a certain file.
 type Leaves []Hash
 
+// readBlock reads until the block is full or an error is encountered.
+func readBlock(r io.Reader, buf []byte) (n int, err error) {
+	for n < len(buf) && err == nil {
+		var nn int
+		nn, err = r.Read(buf[n:])
+		n += nn
+	}
+	return
+}
+
 // TreeLeaves computes the TTH leaves of a reader.
 func TreeLeaves(r io.Reader) (lvl Leaves, err error) {
 	buf := make([]byte, tthBlock+1)
 	var n int
 
 	for err != io.EOF {
-		n, err = r.Read(buf[1:])
+		n, err = readBlock(r, buf[1:])
 		if err != nil && err != io.EOF {
 			return
 		}
@@ -62,7 +72,7 @@ func TreeHash(r io.Reader) (root Hash, err error) {
 	)
 	buf := make([]byte, tthBlock+1)
 	for err != io.EOF {
-		n, err = r.Read(buf[1:])
+		n, err = readBlock(r, buf[1:])
 		if err != nil && err != io.EOF {
 			return
 		}
-- 
2.43.0


From 5b9fe6b7f0f73429785534f923a41b75f9ac2bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:59 +0000
Subject: [PATCH 13/62] fix: nmdc: decode and unescape the path in search
 results

---
 nmdc/msg_search.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmdc/msg_search.go b/nmdc/msg_search.go
index 972e42f..13bf9fa 100644
--- a/nmdc/msg_search.go
+++ b/nmdc/msg_search.go
@@ -359,7 +359,7 @@ func (m *SR) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	if err := spath.UnmarshalNMDC(dec, path); err != nil {
 		return err
 	}
-	m.Path = strings.Split(string(path), "\\")
+	m.Path = strings.Split(string(spath), "\\")
 
 	i = bytes.IndexByte(slots, '/')
 	if i < 0 {
-- 
2.43.0


From 90ce1023f532ce02c95f96262d0c0fbfb09174bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:00 +0000
Subject: [PATCH 14/62] fix: nmdc: keep a literal dollar sign in search
 patterns

---
 nmdc/msg_search.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nmdc/msg_search.go b/nmdc/msg_search.go
index 13bf9fa..4bed7b2 100644
--- a/nmdc/msg_search.go
+++ b/nmdc/msg_search.go
@@ -192,12 +192,14 @@ func (m *Search) unmarshalString(dec *TextDecoder, data []byte) error {
 			return err
 		}
 	} else {
+		// spaces are encoded as '$', while the '$' itself is escaped
+		field = bytes.Replace(field, []byte("$"), []byte(" "), -1)
 		var str String
 		err := str.UnmarshalNMDC(dec, field)
 		if err != nil {
 			return err
 		}
-		m.Pattern = strings.Replace(string(str), "$", " ", -1)
+		m.Pattern = string(str)
 	}
 	return nil
 }
-- 
2.43.0


From aaa0f54c997c2b0d9e1b1639832b198bd9054302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 15/62] fix: lineproto: failing to enable compression should
 not break the writer

---
 lineproto/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lineproto/writer.go b/lineproto/writer.go
index 6be1d9b..7e794ee 100644
--- a/lineproto/writer.go
+++ b/lineproto/writer.go
@@ -98,7 +98,6 @@ func (w *Writer) EnableZlibLevel(lvl int) error {
 	if err := w.Flush(); err != nil {
 		return err
 	}
-	w.zlibOn = true
 	if w.zlibW == nil || w.zlibLvl != lvl {
 		z, err := zlib.NewWriterLevel(w.w, lvl)
 		if err != nil {
@@ -109,6 +108,7 @@ func (w *Writer) EnableZlibLevel(lvl int) error {
 	} else {
 		w.zlibW.Reset(w.w)
 	}
+	w.zlibOn = true
 	w.cur = w.zlibW
 	w.bw.Reset(w.cur)
 	return nil
-- 
2.43.0


From e39253f6ca3df77aa0a413419b69bd5cfbbc5368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:56 +0000
Subject: [PATCH 16/62] fix: nmdc: do not announce compression to the peer when
 it cannot be enabled

---
 lineproto/writer.go | 12 ++++++++++++
 nmdc/writer.go      |  4 ++++
 2 files changed, 16 insertions(+)

diff --git a/lineproto/writer.go b/lineproto/writer.go
index 7e794ee..e2fad05 100644
--- a/lineproto/writer.go
+++ b/lineproto/writer.go
@@ -88,6 +88,18 @@ func (w *Writer) EnableZlib() error {
 	return w.EnableZlibLevel(zlib.DefaultCompression)
 }
 
+// CheckZlibLevel checks if EnableZlibLevel can be called with a given compression level.
+// It won't write anything to the connection.
+func (w *Writer) CheckZlibLevel(lvl int) error {
+	if w.err != nil {
+		return w.err
+	} else if w.zlibOn {
+		return errZlibAlreadyActive
+	}
+	_, err := zlib.NewWriterLevel(nil, lvl)
+	return err
+}
+
 // EnableZlib activates zlib deflating with a given compression level.
 func (w *Writer) EnableZlibLevel(lvl int) error {
 	if w.err != nil {
diff --git a/nmdc/writer.go b/nmdc/writer.go
index 0f9d1b7..d372bbc 100644
--- a/nmdc/writer.go
+++ b/nmdc/writer.go
@@ -90,6 +90,10 @@ func (w *Writer) ZOn() error {
 
 // ZOnLevel enables compression with a given level on this writer.
 func (w *Writer) ZOnLevel(lvl int) error {
+	// don't announce the compression if it cannot be enabled
+	if err := w.CheckZlibLevel(lvl); err != nil {
+		return err
+	}
 	if err := w.WriteLine([]byte("$" + zonName + "|")); err != nil {
 		return err
 	}
-- 
2.43.0


From 0678e33b77673d7a9505c5c8af5d2f45c2606be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:58 +0000
Subject: [PATCH 17/62] fix: lineproto: do not panic when closing a writer
 twice

---
 lineproto/writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lineproto/writer.go b/lineproto/writer.go
index e2fad05..c90a1ef 100644
--- a/lineproto/writer.go
+++ b/lineproto/writer.go
@@ -65,6 +65,9 @@ func (w *Writer) Err() error {
 
 // Close flushes the writer and frees its resources. It won't close the underlying writer.
 func (w *Writer) Close() error {
+	if w.bw == nil {
+		return w.err // already closed
+	}
 	last := w.bw.Flush()
 	if w.err == nil {
 		w.err = errWriterClosed
-- 
2.43.0


From 074aa0b63fe0a95f1eea4aa7dbb9f2e287d95b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 18/62] fix: lineproto: do not take over a buffered writer
 passed by the caller

---
 lineproto/writer.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/lineproto/writer.go b/lineproto/writer.go
index c90a1ef..eadf5c1 100644
--- a/lineproto/writer.go
+++ b/lineproto/writer.go
@@ -21,11 +21,28 @@ func NewWriter(w io.Writer) *Writer {
 }
 
 func NewWriterSize(w io.Writer, buf int) *Writer {
+	if bw, ok := w.(*bufio.Writer); ok {
+		// prevent bufio from returning the same writer, since it will be Reset later
+		w = flushWriter{bw}
+	}
 	return &Writer{
 		w: w, cur: w, bw: bufio.NewWriterSize(w, buf),
 	}
 }
 
+// flushWriter writes directly to the writer underlying the bufio.Writer.
+type flushWriter struct {
+	bw *bufio.Writer
+}
+
+func (w flushWriter) Write(p []byte) (int, error) {
+	n, err := w.bw.Write(p)
+	if err == nil {
+		err = w.bw.Flush()
+	}
+	return n, err
+}
+
 var _ LineWriter = (*Writer)(nil)
 
 // Writer is not safe for concurrent use.
-- 
2.43.0


From 39db65fc2a900b4cdf96505fd31fd59154e16e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:51 +0000
Subject: [PATCH 19/62] fix: nmdc: a dropped message should not affect the type
 of the next one

---
 nmdc/reader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nmdc/reader.go b/nmdc/reader.go
index 5cc36e3..c92c6d9 100644
--- a/nmdc/reader.go
+++ b/nmdc/reader.go
@@ -147,6 +147,7 @@ func (r *Reader) ReadMsgToAny(arr ...Message) (Message, error) {
 
 func (r *Reader) readMsgTo(ptr *Message, allowed ...Message) error {
 	dec := r.Decoder()
+	expected := *ptr
 read:
 	for {
 		line, err := r.ReadLine()
@@ -173,6 +174,7 @@ read:
 			continue // ignore
 		}
 		origLine := line
+		*ptr = expected // previous message may have been dropped
 		var (
 			out  = *ptr
 			cmd  []byte
-- 
2.43.0


From 4fab89b5a33b6f802e390dd0d32652b1f6dbb697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:53 +0000
Subject: [PATCH 20/62] fix: lineproto: enforce the line limit when the line
 arrives in a single chunk

---
 lineproto/reader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lineproto/reader.go b/lineproto/reader.go
index 153828a..b52eb12 100644
--- a/lineproto/reader.go
+++ b/lineproto/reader.go
@@ -206,6 +206,8 @@ read:
 		r.line = append(r.line, pref...)
 		if err != nil {
 			return r.line, err
+		} else if r.maxLine > 0 && len(r.line) > r.maxLine {
+			return nil, errBufferExhausted
 		} else if more {
 			continue
 		}
-- 
2.43.0


From 20a06e2c6cfdf481698a907ee65528a077303f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:57 +0000
Subject: [PATCH 21/62] fix: select the protocol by the URL scheme, not by an
 address prefix

---
 conn.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index 877da6c..953c9ef 100644
--- a/conn.go
+++ b/conn.go
@@ -8,9 +8,19 @@ import (
 	"github.com/direct-connect/go-dc/nmdc"
 )
 
+// isADC checks if the address has an ADC or ADCS scheme. URL schemes are case-insensitive.
+func isADC(addr string) bool {
+	i := strings.Index(addr, "://")
+	if i < 0 {
+		return false
+	}
+	scheme := strings.ToLower(addr[:i])
+	return scheme == adc.SchemaADC || scheme == adc.SchemaADCS
+}
+
 // ParseAddr parses an DC address as a URL.
 func ParseAddr(addr string) (*url.URL, error) {
-	if strings.HasPrefix(addr, adc.SchemaADC) {
+	if isADC(addr) {
 		return adc.ParseAddr(addr)
 	}
 	return nmdc.ParseAddr(addr)
@@ -18,7 +28,7 @@ func ParseAddr(addr string) (*url.URL, error) {
 
 // NormalizeAddr parses and normalizes the address to scheme://host[:port] format.
 func NormalizeAddr(addr string) (string, error) {
-	if strings.HasPrefix(addr, adc.SchemaADC) {
+	if isADC(addr) {
 		return adc.NormalizeAddr(addr)
 	}
 	return nmdc.NormalizeAddr(addr)
-- 
2.43.0


From 664e07a0a6e9d481fbeb78604b8952cf06088582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:59 +0000
Subject: [PATCH 22/62] fix: adc: reject addresses with an empty port, same as
 without a port

---
 adc/conn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/adc/conn.go b/adc/conn.go
index 4c5cf4e..543dbeb 100644
--- a/adc/conn.go
+++ b/adc/conn.go
@@ -34,11 +34,13 @@ func NormalizeAddr(addr string) (string, error) {
 	if err != nil {
 		return "", err
 	}
-	host, _, err := net.SplitHostPort(u.Host)
+	host, port, err := net.SplitHostPort(u.Host)
 	if err != nil {
 		return "", fmt.Errorf("failed to parse host-port pair: %v", err)
 	} else if host == "" {
 		return "", fmt.Errorf("no hostname in address: %q", addr)
+	} else if port == "" {
+		return "", fmt.Errorf("no port in address: %q", addr)
 	}
 	return u.String(), nil
 }
-- 
2.43.0


From 96bb744d25eec09831b230c2a2c9eb5c5a3d8e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:00 +0000
Subject: [PATCH 23/62] fix: nmdc: wrong name and text in chat messages ending
 with a closing token

---
 nmdc/msg_chat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmdc/msg_chat.go b/nmdc/msg_chat.go
index 25112d9..7f0ebf3 100644
--- a/nmdc/msg_chat.go
+++ b/nmdc/msg_chat.go
@@ -77,7 +77,7 @@ func (m *ChatMessage) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 				break
 			}
 			if base+j == len(data)-1 {
-				i = j
+				i = base + j
 				off = 1
 				break
 			}
-- 
2.43.0


From 1b59906e5cc734cbb9cbdaabf05a090da055a4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:01 +0000
Subject: [PATCH 24/62] fix: nmdc: an empty user IP list should not decode to a
 single empty entry

---
 nmdc/msg_user_list.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nmdc/msg_user_list.go b/nmdc/msg_user_list.go
index 85b0306..1f0ed26 100644
--- a/nmdc/msg_user_list.go
+++ b/nmdc/msg_user_list.go
@@ -110,6 +110,10 @@ func (m *UserIP) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 func (m *UserIP) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	data = bytes.TrimSuffix(data, []byte("\r"))
 	data = bytes.TrimSuffix(data, []byte("$$"))
+	if len(data) == 0 {
+		m.List = nil
+		return nil
+	}
 	sub := bytes.Split(data, []byte("$$"))
 	m.List = make([]UserAddress, 0, len(sub))
 	for _, s := range sub {
-- 
2.43.0


From 6f91f7d2eaccd08fd9e9c76f85be8f21e6c971a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:03 +0000
Subject: [PATCH 25/62] fix: nmdc: detect unknown encoding in file identifiers
 and user command paths

---
 nmdc/msg_chat.go  | 2 +-
 nmdc/msg_files.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nmdc/msg_chat.go b/nmdc/msg_chat.go
index 7f0ebf3..80deab8 100644
--- a/nmdc/msg_chat.go
+++ b/nmdc/msg_chat.go
@@ -335,7 +335,7 @@ func (m *UserCommand) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 		var s String
 		err := s.UnmarshalNMDC(dec, p)
 		if err != nil {
-			return errors.New("invalid path user command")
+			return err
 		}
 		m.Path = append(m.Path, string(s))
 	}
diff --git a/nmdc/msg_files.go b/nmdc/msg_files.go
index 3bb3432..d9f5f13 100644
--- a/nmdc/msg_files.go
+++ b/nmdc/msg_files.go
@@ -67,7 +67,7 @@ func (m *ADCGet) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	}
 	identifier, data := data[:i], data[i+1:]
 	if err := m.Identifier.UnmarshalNMDC(dec, identifier); err != nil {
-		return errors.New("ADCGet: unable to parse field 2")
+		return err
 	}
 
 	i = bytes.IndexByte(data, ' ')
@@ -170,7 +170,7 @@ func (m *ADCSnd) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	}
 	identifier, data := data[:i], data[i+1:]
 	if err := m.Identifier.UnmarshalNMDC(dec, identifier); err != nil {
-		return errors.New("ADCSnd: unable to parse field 2")
+		return err
 	}
 
 	i = bytes.IndexByte(data, ' ')
-- 
2.43.0


From b1b5a1e0d2aa0e7baf4d550af76598c01dddf436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:27 +0000
Subject: [PATCH 26/62] fix: lineproto: do not panic when the underlying reader
 returns no data

---
 lineproto/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lineproto/reader.go b/lineproto/reader.go
index b52eb12..c45f9dd 100644
--- a/lineproto/reader.go
+++ b/lineproto/reader.go
@@ -75,7 +75,7 @@ func (r *bufReader) peek() error {
 }
 
 func (r *bufReader) ReadByte() (byte, error) {
-	if r.off >= len(r.buf) {
+	for r.off >= len(r.buf) { // underlying reader may return no data
 		if err := r.peek(); err != nil {
 			return 0, err
 		}
-- 
2.43.0


From 68f8d73ea09744507ec25e297da38a17d1c2aaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 27/62] fix: lineproto: do not consider compression active if
 it failed to start

---
 lineproto/reader.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lineproto/reader.go b/lineproto/reader.go
index c45f9dd..92d9282 100644
--- a/lineproto/reader.go
+++ b/lineproto/reader.go
@@ -257,8 +257,6 @@ func (r *Reader) EnableZlib() error {
 	} else if r.zlibOn {
 		return errZlibAlreadyActive
 	}
-	r.zlibOn = true
-
 	if r.zlib != nil {
 		err := r.zlib.(zlib.Resetter).Reset(r.original, nil)
 		if err != nil {
@@ -278,6 +276,7 @@ func (r *Reader) EnableZlib() error {
 		r.compressed = newBufReader(r.zlib)
 	}
 	r.cur = r.compressed
+	r.zlibOn = true
 	return nil
 }
 
-- 
2.43.0


From f2f05f31ecefd4d0958c1e6abc0afd68079ce5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:31 +0000
Subject: [PATCH 28/62] fix: nmdc: reject ADCGET lengths that do not fit the
 field

---
 nmdc/msg_files.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nmdc/msg_files.go b/nmdc/msg_files.go
index d9f5f13..b29394d 100644
--- a/nmdc/msg_files.go
+++ b/nmdc/msg_files.go
@@ -3,6 +3,7 @@ package nmdc
 import (
 	"bytes"
 	"errors"
+	"math"
 	"strconv"
 )
 
@@ -92,7 +93,7 @@ func (m *ADCGet) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 		m.Length = -1
 	} else {
 		lengthNum, err := parseUin64Trim(length)
-		if err != nil {
+		if err != nil || lengthNum > math.MaxInt64 {
 			return errors.New("ADCGet: unable to parse field 'Lenght'")
 		}
 		m.Length = int64(lengthNum)
-- 
2.43.0


From eabc2d5b1df0825653fb07424dc6c004576ce040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:57 +0000
Subject: [PATCH 29/62] fix: nmdc: refuse to send names that are too long for
 the receiver when encoded

---
 nmdc/types.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/nmdc/types.go b/nmdc/types.go
index c893cc8..3079657 100644
--- a/nmdc/types.go
+++ b/nmdc/types.go
@@ -94,7 +94,15 @@ func (s Name) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 			return err
 		}
 	}
-	return escapeName(buf, str)
+	n := buf.Len()
+	if err := escapeName(buf, str); err != nil {
+		return err
+	}
+	if buf.Len()-n > maxName {
+		// the receiver checks an encoded name
+		return errors.New("name is too long")
+	}
+	return nil
 }
 
 func (s *Name) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
-- 
2.43.0


From ff306062f149bb7fc64aebe18b74b380bc2f7a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:49 +0000
Subject: [PATCH 30/62] fix: lineproto: direct writes should set timeouts and
 remember errors

---
 lineproto/writer.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/lineproto/writer.go b/lineproto/writer.go
index eadf5c1..ef10297 100644
--- a/lineproto/writer.go
+++ b/lineproto/writer.go
@@ -153,6 +153,14 @@ func (w *Writer) DisableZlib() error {
 	} else if !w.zlibOn {
 		return errZlibNotActive
 	}
+	if w.Timeout != nil {
+		err := w.Timeout(true)
+		if err != nil {
+			w.setError(err)
+			return err
+		}
+		defer w.Timeout(false)
+	}
 	err := w.bw.Flush()
 	if err != nil {
 		w.setError(err)
@@ -208,7 +216,19 @@ func (w *Writer) Write(p []byte) (int, error) {
 			return 0, err
 		}
 	}
-	return w.cur.Write(p)
+	if w.Timeout != nil {
+		err := w.Timeout(true)
+		if err != nil {
+			w.setError(err)
+			return 0, err
+		}
+		defer w.Timeout(false)
+	}
+	n, err := w.cur.Write(p)
+	if err != nil {
+		w.setError(err)
+	}
+	return n, err
 }
 
 // WriteLine writes a single protocol message.
-- 
2.43.0


From 1f66dbfdaf9253a92877aa509f601de8e0aed354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 31/62] fix: lineproto: set a timeout when flushing on close

---
 lineproto/writer.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/lineproto/writer.go b/lineproto/writer.go
index ef10297..5d70e5d 100644
--- a/lineproto/writer.go
+++ b/lineproto/writer.go
@@ -80,22 +80,33 @@ func (w *Writer) Err() error {
 	return w.err
 }
 
+func (w *Writer) flushAndClose() error {
+	if w.Timeout != nil {
+		if err := w.Timeout(true); err != nil {
+			return err
+		}
+		defer w.Timeout(false)
+	}
+	last := w.bw.Flush()
+	if w.zlibOn {
+		if err := w.zlibW.Close(); err != nil {
+			last = err
+		}
+	}
+	return last
+}
+
 // Close flushes the writer and frees its resources. It won't close the underlying writer.
 func (w *Writer) Close() error {
 	if w.bw == nil {
 		return w.err // already closed
 	}
-	last := w.bw.Flush()
+	last := w.flushAndClose()
 	if w.err == nil {
 		w.err = errWriterClosed
 	}
-	if w.zlibOn {
-		if err := w.zlibW.Close(); err != nil {
-			last = err
-		}
-		w.zlibOn = false
-		w.zlibW = nil
-	}
+	w.zlibOn = false
+	w.zlibW = nil
 	w.bw = nil
 	w.cur = nil
 	w.w = nil
-- 
2.43.0


From 773da5cf3e59a328e2d43b6f7dfb79688a2b2860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:25 +0000
Subject: [PATCH 32/62] fix: nmdc: parse hub names with brackets in search
 results

---
 nmdc/msg_search.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nmdc/msg_search.go b/nmdc/msg_search.go
index 4bed7b2..c878552 100644
--- a/nmdc/msg_search.go
+++ b/nmdc/msg_search.go
@@ -390,7 +390,12 @@ func (m *SR) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 			return err
 		}
 	} else {
-		i = bytes.Index(data, []byte(" ("))
+		// hub name may contain the same separator
+		hub := data
+		if i = bytes.IndexByte(hub, srSep); i >= 0 {
+			hub = hub[:i]
+		}
+		i = bytes.LastIndex(hub, []byte(" ("))
 		if i < 0 {
 			return errors.New("invalid SR command: missing TTH or hub name")
 		}
-- 
2.43.0


From cdfa1c2b3b09f7ba51b70c4c1a5162620d586078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:27 +0000
Subject: [PATCH 33/62] fix: lineproto: binary sections with a size above
 MaxInt64 should not be empty

---
 lineproto/reader.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/lineproto/reader.go b/lineproto/reader.go
index 92d9282..c595163 100644
--- a/lineproto/reader.go
+++ b/lineproto/reader.go
@@ -286,18 +286,28 @@ func (r *Reader) Binary(sz uint64) (io.ReadCloser, error) {
 	if r.original == nil {
 		return nil, errReaderClosed
 	}
-	return &binaryReader{r: io.LimitReader(r, int64(sz))}, nil
+	return &binaryReader{r: r, n: sz}, nil
 }
 
+// binaryReader is similar to io.LimitedReader, but supports any unsigned size.
 type binaryReader struct {
 	r io.Reader
+	n uint64 // bytes remaining
 }
 
 func (r *binaryReader) Read(p []byte) (int, error) {
-	return r.r.Read(p)
+	if r.n == 0 {
+		return 0, io.EOF
+	}
+	if uint64(len(p)) > r.n {
+		p = p[:r.n]
+	}
+	n, err := r.r.Read(p)
+	r.n -= uint64(n)
+	return n, err
 }
 
 func (r *binaryReader) Close() error {
-	_, err := io.Copy(ioutil.Discard, r.r)
+	_, err := io.Copy(ioutil.Discard, r)
 	return err
 }
-- 
2.43.0


From 3bb03f2a32c1f9a73f333b410ffc95ab8ce49845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 34/62] fix: nmdc: accept any message when a raw message is one
 of the expected types

---
 nmdc/reader.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/nmdc/reader.go b/nmdc/reader.go
index c92c6d9..b31a1fe 100644
--- a/nmdc/reader.go
+++ b/nmdc/reader.go
@@ -148,6 +148,13 @@ func (r *Reader) ReadMsgToAny(arr ...Message) (Message, error) {
 func (r *Reader) readMsgTo(ptr *Message, allowed ...Message) error {
 	dec := r.Decoder()
 	expected := *ptr
+	var wildcard *RawMessage // accepts any message
+	for _, m := range allowed {
+		if raw, ok := m.(*RawMessage); ok && raw.Typ == "" {
+			wildcard = raw
+			break
+		}
+	}
 read:
 	for {
 		line, err := r.ReadLine()
@@ -211,7 +218,13 @@ read:
 			if len(allowed) != 0 {
 				ok := false
 				for _, m := range allowed {
-					if _, raw := m.(*RawMessage); raw || m.Type() == typ {
+					if raw, _ := m.(*RawMessage); raw != nil && raw == wildcard {
+						raw.Typ = typ
+						ok = true
+						out = m
+						*ptr = m
+						break
+					} else if m.Type() == typ {
 						ok = true
 						out = m
 						*ptr = m
@@ -259,9 +272,15 @@ read:
 			if len(allowed) != 0 {
 				ok := false
 				for _, m := range allowed {
-					_, raw := m.(*RawMessage)
+					raw, _ := m.(*RawMessage)
 					_, chat := m.(*ChatMessage)
-					if raw || chat {
+					if raw != nil && raw == wildcard {
+						raw.Typ = ""
+						ok = true
+						out = m
+						*ptr = m
+						break
+					} else if chat {
 						ok = true
 						out = m
 						*ptr = m
@@ -280,7 +299,7 @@ read:
 			if out == nil {
 				out = &ChatMessage{}
 				*ptr = out
-			} else if _, ok := out.(*ChatMessage); !ok {
+			} else if _, ok := out.(*ChatMessage); !ok && len(allowed) == 0 {
 				return &ErrUnexpectedCommand{
 					Expected: out.Type(),
 					Received: &RawMessage{
-- 
2.43.0


From 1afad094aff6d7d72a1a43962894799b8e9149ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:29 +0000
Subject: [PATCH 35/62] fix: nmdc: do not change names of non-letter tag fields
 in MyINFO

---
 nmdc/msg_user.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmdc/msg_user.go b/nmdc/msg_user.go
index 8579128..da7b406 100644
--- a/nmdc/msg_user.go
+++ b/nmdc/msg_user.go
@@ -334,7 +334,7 @@ func (m *MyINFO) unmarshalTag(tag []byte) error {
 			continue
 		}
 		ckey := bkey[0]
-		if ckey > 'Z' {
+		if ckey >= 'a' && ckey <= 'z' {
 			ckey -= 'a' - 'A'
 		}
 		switch ckey {
-- 
2.43.0


From c630674ea76cb2cf77b8096b2b944672071ef536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:31 +0000
Subject: [PATCH 36/62] fix: nmdc: refuse user flags that break the MyINFO
 message

---
 nmdc/msg_user.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nmdc/msg_user.go b/nmdc/msg_user.go
index da7b406..2e2fc8a 100644
--- a/nmdc/msg_user.go
+++ b/nmdc/msg_user.go
@@ -172,7 +172,9 @@ func (m *MyINFO) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 		return err
 	}
 
-	if m.Flag == 0 {
+	if m.Flag == '$' || m.Flag == Delimiter {
+		return fmt.Errorf("user flag cannot be encoded: 0x%x", byte(m.Flag))
+	} else if m.Flag == 0 {
 		bi = append(bi, byte(FlagStatusNormal))
 	} else {
 		bi = append(bi, byte(m.Flag))
-- 
2.43.0


From eeba8b200a083c683ace8993d0563a63a91e981f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:32 +0000
Subject: [PATCH 37/62] fix: nmdc: user command paths in multi-byte encodings

---
 nmdc/msg_chat.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/nmdc/msg_chat.go b/nmdc/msg_chat.go
index 80deab8..82a9798 100644
--- a/nmdc/msg_chat.go
+++ b/nmdc/msg_chat.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"strconv"
+	"strings"
 	"unicode"
 	"unicode/utf8"
 )
@@ -325,22 +326,21 @@ func (m *UserCommand) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	if i < 1 {
 		return fmt.Errorf("invalid raw user command: %q", string(data))
 	}
-	path := bytes.TrimRight(val[:i], " ")
-	sub := bytes.Split(path, []byte("\\"))
+	// decode first, since multi-byte encodings may use the same byte as the separator
+	var s String
+	if err := s.UnmarshalNMDC(dec, bytes.TrimRight(val[:i], " ")); err != nil {
+		return err
+	}
+	sub := strings.Split(string(s), "\\")
 	m.Path = make([]string, 0, len(sub))
 	for _, p := range sub {
 		if len(p) == 0 {
 			continue
 		}
-		var s String
-		err := s.UnmarshalNMDC(dec, p)
-		if err != nil {
-			return err
-		}
-		m.Path = append(m.Path, string(s))
+		m.Path = append(m.Path, p)
 	}
 
-	var s String
+	s = ""
 	if err := s.UnmarshalNMDC(dec, val[i+1:]); err != nil {
 		return err
 	}
-- 
2.43.0


From c58107a5ac46aff204dde5957d7d502f017bc488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:22 +0000
Subject: [PATCH 38/62] fix: nmdc: decode a blank mode in the MyINFO tag as
 unknown

---
 nmdc/msg_user.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmdc/msg_user.go b/nmdc/msg_user.go
index 2e2fc8a..e748013 100644
--- a/nmdc/msg_user.go
+++ b/nmdc/msg_user.go
@@ -343,7 +343,7 @@ func (m *MyINFO) unmarshalTag(tag []byte) error {
 		case 'V':
 			m.Client.Version = string(val)
 		case 'M':
-			if len(val) == 1 {
+			if len(val) == 1 && val[0] != ' ' {
 				m.Mode = UserMode(val[0])
 			} else {
 				m.Mode = UserModeUnknown
-- 
2.43.0


From c723fbc45db17d04573895d8a9083cdecf96e9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:24 +0000
Subject: [PATCH 39/62] fix: nmdc: an empty failover list should not decode to
 a single empty host

---
 nmdc/msg_hub.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nmdc/msg_hub.go b/nmdc/msg_hub.go
index 935f1cd..913947d 100644
--- a/nmdc/msg_hub.go
+++ b/nmdc/msg_hub.go
@@ -96,6 +96,10 @@ func (m *FailOver) MarshalNMDC(_ *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *FailOver) UnmarshalNMDC(_ *TextDecoder, data []byte) error {
+	if len(data) == 0 {
+		m.Host = nil
+		return nil
+	}
 	hosts := bytes.Split(data, []byte(","))
 	m.Host = make([]string, 0, len(hosts))
 	for _, host := range hosts {
-- 
2.43.0


From 1fffc942a0b2f06decd1ff7bc6d6501018373432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:06 +0000
Subject: [PATCH 40/62] fix: nmdc: do not cut multi-byte characters from the
 end of user commands

---
 nmdc/msg_chat.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nmdc/msg_chat.go b/nmdc/msg_chat.go
index 82a9798..9f22c6a 100644
--- a/nmdc/msg_chat.go
+++ b/nmdc/msg_chat.go
@@ -296,7 +296,8 @@ func (m *UserCommand) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *UserCommand) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
-	arr := bytes.SplitN(bytes.TrimSpace(data), []byte(" "), 3)
+	// only trim ASCII spaces, the text is not in UTF-8 yet
+	arr := bytes.SplitN(bytes.Trim(data, " \t\r\n"), []byte(" "), 3)
 	if len(arr) < 2 {
 		return errors.New("invalid user command")
 	}
-- 
2.43.0


From 3e367824f56efa67da8cbeba3794119204a6dc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 41/62] fix: tiger: reject line breaks in base32 hashes

---
 tiger/tiger.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tiger/tiger.go b/tiger/tiger.go
index aa80aad..c5c276f 100644
--- a/tiger/tiger.go
+++ b/tiger/tiger.go
@@ -85,6 +85,10 @@ func (h *Hash) UnmarshalBase32(buf []byte) error {
 
 // FromBase32 parses hash from base32 encoding.
 func (h *Hash) FromBase32(s string) error {
+	if len(s) != Base32Size {
+		// the decoder ignores line breaks
+		return fmt.Errorf("wrong base32 size: %d vs %d", len(s), Base32Size)
+	}
 	b, err := base32Enc.DecodeString(s)
 	if err != nil {
 		return err
-- 
2.43.0


From 70e003217652cff7cbc236a8f7de96e21c76f5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:52 +0000
Subject: [PATCH 42/62] fix: nmdc: a write hook that drops a message should not
 drop the rest of the batch

---
 nmdc/writer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nmdc/writer.go b/nmdc/writer.go
index d372bbc..a92c3a0 100644
--- a/nmdc/writer.go
+++ b/nmdc/writer.go
@@ -65,10 +65,13 @@ func (w *Writer) WriteMsg(msg ...Message) error {
 		return err
 	}
 	enc := w.Encoder()
+write:
 	for _, m := range msg {
 		for _, fnc := range w.onMessage {
-			if ok, err := fnc(m); err != nil || !ok {
+			if ok, err := fnc(m); err != nil {
 				return err
+			} else if !ok {
+				continue write // drop only this message
 			}
 		}
 		w.mbuf.Reset()
-- 
2.43.0


From c1adf269f55db3930411ff41b5678b0e30ecec2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:53 +0000
Subject: [PATCH 43/62] fix: nmdc: refuse the field separator in SR texts

---
 nmdc/msg_search.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nmdc/msg_search.go b/nmdc/msg_search.go
index c878552..3cf1777 100644
--- a/nmdc/msg_search.go
+++ b/nmdc/msg_search.go
@@ -248,6 +248,9 @@ func (m *SR) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 		if i != 0 {
 			buf.WriteByte('\\')
 		}
+		if strings.IndexByte(p, srSep) >= 0 {
+			return errors.New("invalid SR command: separator in the path")
+		}
 		if err := String(p).MarshalNMDC(enc, buf); err != nil {
 			return err
 		}
@@ -273,6 +276,9 @@ func (m *SR) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 		buf.Write(b[:])
 	} else {
 		// legacy
+		if strings.IndexByte(m.HubName, srSep) >= 0 {
+			return errors.New("invalid SR command: separator in the hub name")
+		}
 		if err := String(m.HubName).MarshalNMDC(enc, buf); err != nil {
 			return err
 		}
-- 
2.43.0


From f4e78b3138d181044ac2c0fde8ba86290cb346c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:55 +0000
Subject: [PATCH 44/62] fix: lineproto: do not return the rest of a too long
 line as a line

---
 lineproto/reader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lineproto/reader.go b/lineproto/reader.go
index c595163..206e2e0 100644
--- a/lineproto/reader.go
+++ b/lineproto/reader.go
@@ -132,6 +132,7 @@ type Reader struct {
 	zlib       io.ReadCloser // resettable zlib reader stored for reuse
 	compressed *bufReader    // compressed reader; stored for reuse
 	line       []byte        // buffered line; up to maxLine bytes
+	tooLong    bool          // line was too long; the rest of it is still unread
 
 	// onLine is called each time a raw protocol line is read from the connection.
 	// The buffer will contain a delimiter and is in the connection encoding.
@@ -188,12 +189,16 @@ func (r *Reader) OnLine(fnc func(line []byte) (bool, error)) {
 func (r *Reader) ReadLine() ([]byte, error) {
 	if r.original == nil {
 		return nil, errReaderClosed
+	} else if r.tooLong {
+		// the rest of the line must not be returned as a valid line
+		return nil, errBufferExhausted
 	}
 	r.line = r.line[:0]
 
 read:
 	for {
 		if r.maxLine > 0 && len(r.line) >= r.maxLine {
+			r.tooLong = true
 			return nil, errBufferExhausted
 		}
 		pref, more, err := r.cur.Scan(r.delim)
@@ -207,6 +212,7 @@ read:
 		if err != nil {
 			return r.line, err
 		} else if r.maxLine > 0 && len(r.line) > r.maxLine {
+			r.tooLong = true
 			return nil, errBufferExhausted
 		} else if more {
 			continue
-- 
2.43.0


From f2d6b09b87bd9ba6b13071446c18cdcbb4492b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:55 +0000
Subject: [PATCH 45/62] fix: nmdc: don't keep fields of the previous message
 when decoding

A message dropped by a hook left its optional fields in the destination of
a typed read, so the next message was returned with them.
---
 nmdc/msg_chat.go   | 2 ++
 nmdc/msg_ctm.go    | 1 +
 nmdc/msg_errors.go | 2 ++
 nmdc/msg_files.go  | 2 ++
 nmdc/msg_ping.go   | 1 +
 nmdc/msg_search.go | 2 ++
 nmdc/msg_user.go   | 1 +
 7 files changed, 11 insertions(+)

diff --git a/nmdc/msg_chat.go b/nmdc/msg_chat.go
index 9f22c6a..b6ab1cb 100644
--- a/nmdc/msg_chat.go
+++ b/nmdc/msg_chat.go
@@ -50,6 +50,7 @@ func (m *ChatMessage) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *ChatMessage) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = ChatMessage{}
 	// <user> message text|
 	// or
 	// message text|
@@ -296,6 +297,7 @@ func (m *UserCommand) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *UserCommand) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = UserCommand{}
 	// only trim ASCII spaces, the text is not in UTF-8 yet
 	arr := bytes.SplitN(bytes.Trim(data, " \t\r\n"), []byte(" "), 3)
 	if len(arr) < 2 {
diff --git a/nmdc/msg_ctm.go b/nmdc/msg_ctm.go
index a5711cf..601ad39 100644
--- a/nmdc/msg_ctm.go
+++ b/nmdc/msg_ctm.go
@@ -70,6 +70,7 @@ func (m *ConnectToMe) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *ConnectToMe) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = ConnectToMe{}
 	i := bytes.IndexByte(data, ' ')
 	if i < 0 {
 		return errors.New("invalid ConnectToMe command")
diff --git a/nmdc/msg_errors.go b/nmdc/msg_errors.go
index b4ca982..f9e3f88 100644
--- a/nmdc/msg_errors.go
+++ b/nmdc/msg_errors.go
@@ -29,6 +29,7 @@ func (m *Failed) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *Failed) UnmarshalNMDC(dec *TextDecoder, text []byte) error {
+	*m = Failed{}
 	var str String
 	if err := str.UnmarshalNMDC(dec, text); err != nil {
 		return err
@@ -58,6 +59,7 @@ func (m *Error) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *Error) UnmarshalNMDC(dec *TextDecoder, text []byte) error {
+	*m = Error{}
 	var str String
 	if err := str.UnmarshalNMDC(dec, text); err != nil {
 		return err
diff --git a/nmdc/msg_files.go b/nmdc/msg_files.go
index b29394d..b0364d5 100644
--- a/nmdc/msg_files.go
+++ b/nmdc/msg_files.go
@@ -53,6 +53,7 @@ func (m *ADCGet) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *ADCGet) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = ADCGet{}
 	i := bytes.IndexByte(data, ' ')
 	if i < 0 {
 		return errors.New("ADCGet: missing separator after field 'ContentType'")
@@ -156,6 +157,7 @@ func (m *ADCSnd) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *ADCSnd) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = ADCSnd{}
 	i := bytes.IndexByte(data, ' ')
 	if i < 0 {
 		return errors.New("ADCSnd: missing separator after field 1")
diff --git a/nmdc/msg_ping.go b/nmdc/msg_ping.go
index cb05964..33da759 100644
--- a/nmdc/msg_ping.go
+++ b/nmdc/msg_ping.go
@@ -108,6 +108,7 @@ func (m *HubINFO) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *HubINFO) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = HubINFO{}
 	fields := bytes.SplitN(data, []byte("$"), 13)
 	for i, field := range fields {
 		switch i {
diff --git a/nmdc/msg_search.go b/nmdc/msg_search.go
index 3cf1777..03978fe 100644
--- a/nmdc/msg_search.go
+++ b/nmdc/msg_search.go
@@ -106,6 +106,7 @@ func (m *Search) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *Search) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = Search{}
 	i := bytes.IndexByte(data, ' ')
 	if i < 0 {
 		return errors.New("invalid search command")
@@ -297,6 +298,7 @@ func (m *SR) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *SR) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = SR{}
 	i := bytes.IndexByte(data, ' ')
 	if i < 0 {
 		return errors.New("invalid SR command: missing name")
diff --git a/nmdc/msg_user.go b/nmdc/msg_user.go
index e748013..4feface 100644
--- a/nmdc/msg_user.go
+++ b/nmdc/msg_user.go
@@ -195,6 +195,7 @@ func (m *MyINFO) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *MyINFO) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = MyINFO{}
 	const infoPref = "$ALL "
 	if !bytes.HasPrefix(data, []byte(infoPref)) {
 		return errors.New("invalid info command: wrong prefix")
-- 
2.43.0


From 83fa1a4aac91911a81a0bc57c83756b96fe22dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:34 +0000
Subject: [PATCH 46/62] fix: nmdc: don't panic when encoding Supports without
 extensions

---
 nmdc/extensions.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nmdc/extensions.go b/nmdc/extensions.go
index 23bec78..51dbecf 100644
--- a/nmdc/extensions.go
+++ b/nmdc/extensions.go
@@ -43,9 +43,9 @@ func (m *Supports) Intersect(m2 *Supports) Supports {
 }
 
 func (m *Supports) MarshalNMDC(_ *TextEncoder, buf *bytes.Buffer) error {
-	n := len(m.Ext) - 1
+	n := 0
 	for _, ext := range m.Ext {
-		n += len(ext)
+		n += len(ext) + 1
 	}
 	buf.Grow(n)
 	for i, ext := range m.Ext {
-- 
2.43.0


From ababc6979df042e095c7ff08b996eec797099332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:19 +0000
Subject: [PATCH 47/62] fix: adc: reject packets with a line delimiter inside

A datagram with several lines was decoded as one packet, with the delimiter
in the payload or even in the SID, and was relayed as several packets.
---
 adc/packets.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/adc/packets.go b/adc/packets.go
index b95e5c4..c1f85c8 100644
--- a/adc/packets.go
+++ b/adc/packets.go
@@ -92,6 +92,9 @@ func DecodePacketRaw(p []byte) (Packet, error) {
 	if bytes.IndexByte(p, 0x00) >= 0 {
 		return nil, errors.New("messages should not contain null characters")
 	}
+	if i := bytes.IndexByte(p, lineDelim); i >= 0 && i != len(p)-1 {
+		return nil, errors.New("unexpected line delimiter")
+	}
 	kind := p[0]
 	var m Packet
 	switch kind {
-- 
2.43.0


From f6eb6d48728e92ab45835f7fb35137e25b05c739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:21 +0000
Subject: [PATCH 48/62] fix: adc: don't unescape feature names

They are written without escaping, so relaying a feature with an escaped
newline or space split the message.
---
 adc/types.go | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/adc/types.go b/adc/types.go
index 086701b..e68d156 100644
--- a/adc/types.go
+++ b/adc/types.go
@@ -120,11 +120,10 @@ func (f ModFeatures) MarshalADC(buf *bytes.Buffer) error {
 }
 
 func (f *ModFeatures) UnmarshalADC(s []byte) error {
-	// TODO: will parse strings of any length; should limit to 4 bytes
-	// TODO: use bytes or Feature in slices
+	// names are not escaped on the wire
 	var out struct {
-		Add []string `adc:"AD"`
-		Rm  []string `adc:"RM"`
+		Add []Feature `adc:"AD"`
+		Rm  []Feature `adc:"RM"`
 	}
 	if err := Unmarshal(s, &out); err != nil {
 		return err
@@ -134,18 +133,10 @@ func (f *ModFeatures) UnmarshalADC(s []byte) error {
 		m = make(ModFeatures)
 		*f = m
 	}
-	for _, name := range out.Rm {
-		var fea Feature
-		if err := fea.UnmarshalADC([]byte(name)); err != nil {
-			return err
-		}
+	for _, fea := range out.Rm {
 		m[fea] = false
 	}
-	for _, name := range out.Add {
-		var fea Feature
-		if err := fea.UnmarshalADC([]byte(name)); err != nil {
-			return err
-		}
+	for _, fea := range out.Add {
 		m[fea] = true
 	}
 	return nil
-- 
2.43.0


From 49eaec2162e0ecd578ccadd176d69367be92abe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:34 +0000
Subject: [PATCH 49/62] fix: normalize addresses with escaped path and trailing
 slashes

---
 adc/conn.go  | 1 +
 nmdc/conn.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/adc/conn.go b/adc/conn.go
index 543dbeb..06f5524 100644
--- a/adc/conn.go
+++ b/adc/conn.go
@@ -25,6 +25,7 @@ func ParseAddr(addr string) (*url.URL, error) {
 		return u, fmt.Errorf("unsupported protocol: %q", u.Scheme)
 	}
 	u.Path = strings.TrimRight(u.Path, "/")
+	u.RawPath = strings.TrimRight(u.RawPath, "/")
 	return u, nil
 }
 
diff --git a/nmdc/conn.go b/nmdc/conn.go
index 8cde7b6..44e60e4 100644
--- a/nmdc/conn.go
+++ b/nmdc/conn.go
@@ -30,6 +30,7 @@ func ParseAddr(addr string) (*url.URL, error) {
 		return u, fmt.Errorf("unsupported protocol: %q", u.Scheme)
 	}
 	u.Path = strings.TrimRight(u.Path, "/")
+	u.RawPath = strings.TrimRight(u.RawPath, "/")
 	return u, nil
 }
 
-- 
2.43.0


From 97ee888bc92e1fb949608e7321bf3f6178e0cba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:53 +0000
Subject: [PATCH 50/62] fix: reject addresses that have no valid normal form

---
 adc/conn.go  | 7 ++++++-
 nmdc/conn.go | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/adc/conn.go b/adc/conn.go
index 06f5524..bc634f2 100644
--- a/adc/conn.go
+++ b/adc/conn.go
@@ -43,5 +43,10 @@ func NormalizeAddr(addr string) (string, error) {
 	} else if port == "" {
 		return "", fmt.Errorf("no port in address: %q", addr)
 	}
-	return u.String(), nil
+	norm := u.String()
+	if _, err = url.Parse(norm); err != nil {
+		// zone of an IPv6 address cannot be written back
+		return "", err
+	}
+	return norm, nil
 }
diff --git a/nmdc/conn.go b/nmdc/conn.go
index 44e60e4..3021418 100644
--- a/nmdc/conn.go
+++ b/nmdc/conn.go
@@ -52,5 +52,10 @@ func NormalizeAddr(addr string) (string, error) {
 	if host == "" {
 		return "", fmt.Errorf("no hostname in address: %q", addr)
 	}
-	return u.String(), nil
+	norm := u.String()
+	if _, err = url.Parse(norm); err != nil {
+		// zone of an IPv6 address cannot be written back
+		return "", err
+	}
+	return norm, nil
 }
-- 
2.43.0


From d09b244d1ea608712c5707ada89e354b04a50b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:10 +0000
Subject: [PATCH 51/62] fix: adc: generate complete PIDs when the random source
 returns less data

---
 adc/types/types.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/adc/types/types.go b/adc/types/types.go
index ad0a6c5..d019eac 100644
--- a/adc/types/types.go
+++ b/adc/types/types.go
@@ -5,6 +5,7 @@ import (
 	"crypto/rand"
 	"encoding"
 	"fmt"
+	"io"
 
 	"github.com/direct-connect/go-dc/tiger"
 )
@@ -147,6 +148,6 @@ type PID = CID
 
 // NewPID generates a new Private ID using a cryptographic random source.
 func NewPID() (id PID, err error) {
-	_, err = rand.Reader.Read(id[:])
+	_, err = io.ReadFull(rand.Reader, id[:])
 	return
 }
-- 
2.43.0


From 9206071d98455d3b6df59092f18791377f50a49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:11 +0000
Subject: [PATCH 52/62] fix: adc: do not panic on optional fields that cannot
 be compared

---
 adc/marshal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/adc/marshal.go b/adc/marshal.go
index 9afa92d..3c59e84 100644
--- a/adc/marshal.go
+++ b/adc/marshal.go
@@ -202,7 +202,8 @@ func isZero(v reflect.Value) bool {
 	case reflect.Ptr, reflect.Slice:
 		return v.IsNil()
 	default:
-		return v.Interface() == reflect.Zero(v.Type()).Interface()
+		// values of some types cannot be compared directly
+		return reflect.DeepEqual(v.Interface(), reflect.Zero(v.Type()).Interface())
 	}
 }
 
-- 
2.43.0


From fa40636341888b091e21b89841023148ee5e3928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:03 +0000
Subject: [PATCH 53/62] fix: do not panic when encoding a required nil pointer
 in ADC messages

---
 adc/marshal.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/adc/marshal.go b/adc/marshal.go
index 3c59e84..c48e935 100644
--- a/adc/marshal.go
+++ b/adc/marshal.go
@@ -162,11 +162,14 @@ func Unmarshal(s []byte, o interface{}) error {
 }
 
 func marshalValue(buf *bytes.Buffer, o interface{}) error {
+	rv := reflect.ValueOf(o)
+	if isNilMarshaler(rv) {
+		return nil
+	}
 	switch v := o.(type) {
 	case Marshaler:
 		return v.MarshalADC(buf)
 	}
-	rv := reflect.ValueOf(o)
 	switch rv.Kind() {
 	case reflect.String:
 		s := rv.String()
@@ -197,6 +200,13 @@ func marshalValue(buf *bytes.Buffer, o interface{}) error {
 	return fmt.Errorf("unsupported type: %T", o)
 }
 
+// isNilMarshaler checks if v is a nil pointer to a type with a value receiver of MarshalADC,
+// which cannot be called.
+func isNilMarshaler(v reflect.Value) bool {
+	return v.Kind() == reflect.Ptr && v.IsNil() &&
+		v.Type().Elem().Implements(reflect.TypeOf((*Marshaler)(nil)).Elem())
+}
+
 func isZero(v reflect.Value) bool {
 	switch v.Kind() {
 	case reflect.Ptr, reflect.Slice:
@@ -249,7 +259,7 @@ func Marshal(buf *bytes.Buffer, o Message) error {
 		if omit && isZero(rv.Field(i)) {
 			continue
 		}
-		if m, ok := rv.Field(i).Interface().(Marshaler); ok {
+		if m, ok := rv.Field(i).Interface().(Marshaler); ok && !isNilMarshaler(rv.Field(i)) {
 			writeTag(tag)
 			if err := m.MarshalADC(buf); err != nil {
 				return fmt.Errorf("cannot marshal field %s: %v", fld.Name, err)
-- 
2.43.0


From 544c3b8bac0bbebaa25a06497003985468cb7f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:16 +0000
Subject: [PATCH 54/62] fix: nmdc: do not guess the kind of a search result by
 slashes and digits in the path

---
 nmdc/msg_search.go | 45 ++++++++++++++++-----------------------------
 1 file changed, 16 insertions(+), 29 deletions(-)

diff --git a/nmdc/msg_search.go b/nmdc/msg_search.go
index 03978fe..eeb9e31 100644
--- a/nmdc/msg_search.go
+++ b/nmdc/msg_search.go
@@ -320,39 +320,16 @@ func (m *SR) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	}
 
 	// this should contain either path or path and slots
-	maybePath := data[:i]
+	path := data[:i]
 	data = data[i+1:]
 
-	// try to locate slot separator '/', scanning backward
-	hasSep := false
-	i = -1
-	for j := len(maybePath) - 1; j >= 0; j-- {
-		r := maybePath[j]
-		if r == '/' {
-			hasSep = true
-		} else if r < '0' || r > '9' {
-			i = j
-			break
-		}
-	}
-	var (
-		path  []byte
-		slots []byte
-	)
-	if hasSep && i >= 0 {
-		// directory result - slots are in the path
-		m.IsDir = true
-		m.Size = 0
-		path = maybePath[:i]
-		slots = maybePath[i+1:]
-	} else {
+	var slots []byte
+	// for files, the next field is a size and slots, while for directories it's a hub
+	// name (or TTH) with an address
+	i = bytes.IndexByte(data, srSep)
+	if i >= 0 && !bytes.Contains(data[:i], []byte(" (")) {
 		// file result - slots and size are after the next 0x05
 		m.IsDir = false
-		path = maybePath
-		i = bytes.IndexByte(data, srSep)
-		if i < 0 {
-			return errors.New("invalid SR command: missing size")
-		}
 		sizeAndSlots := data[:i]
 		data = data[i+1:]
 		i = bytes.IndexByte(sizeAndSlots, ' ')
@@ -364,6 +341,16 @@ func (m *SR) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 			return err
 		}
 		slots = sizeAndSlots[i+1:]
+	} else {
+		// directory result - slots are in the path
+		m.IsDir = true
+		m.Size = 0
+		i = bytes.LastIndexByte(path, ' ')
+		if i < 0 {
+			return errors.New("invalid SR command: missing size")
+		}
+		slots = path[i+1:]
+		path = path[:i]
 	}
 	var spath String
 	if err := spath.UnmarshalNMDC(dec, path); err != nil {
-- 
2.43.0


From 90055257bd23878a78a987e7d9e875ba8d18b918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:33 +0000
Subject: [PATCH 55/62] fix: adc: a decoded value should replace the previous
 one

---
 adc/files.go | 1 +
 adc/types.go | 9 ++++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/adc/files.go b/adc/files.go
index 9959464..fc517d9 100644
--- a/adc/files.go
+++ b/adc/files.go
@@ -57,6 +57,7 @@ func (m GetRequest) MarshalADC(buf *bytes.Buffer) error {
 }
 
 func (m *GetRequest) UnmarshalADC(data []byte) error {
+	*m = GetRequest{}
 	i := bytes.IndexByte(data, ' ')
 	if i < 0 {
 		return errors.New("ADCGET: missing separator after field 1")
diff --git a/adc/types.go b/adc/types.go
index e68d156..3fb36ce 100644
--- a/adc/types.go
+++ b/adc/types.go
@@ -217,6 +217,7 @@ func (f ExtFeatures) MarshalADC(buf *bytes.Buffer) error {
 
 func (f *ExtFeatures) UnmarshalADC(s []byte) error {
 	if len(s) < 1 {
+		*f = nil
 		return nil
 	}
 	sub := bytes.Split(s, []byte(","))
@@ -279,13 +280,15 @@ func (p Path) MarshalADC(buf *bytes.Buffer) error {
 }
 
 func (p *Path) UnmarshalADC(data []byte) error {
-	arr := bytes.Split(data, []byte("/"))
-	for _, a := range arr {
+	sub := bytes.Split(data, []byte("/"))
+	arr := make(Path, 0, len(sub))
+	for _, a := range sub {
 		var path String
 		if err := path.UnmarshalADC(a); err != nil {
 			return err
 		}
-		*p = append(*p, string(path))
+		arr = append(arr, string(path))
 	}
+	*p = arr
 	return nil
 }
-- 
2.43.0


From e8d50e2485c4ee725da9bf25420cb2ac072873fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:35 +0000
Subject: [PATCH 56/62] fix: nmdc: the message in ErrUnexpectedCommand should
 not change after the next read

---
 nmdc/reader.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nmdc/reader.go b/nmdc/reader.go
index b31a1fe..35761b5 100644
--- a/nmdc/reader.go
+++ b/nmdc/reader.go
@@ -235,7 +235,7 @@ read:
 					return &ErrUnexpectedCommand{
 						Expected: allowed[0].Type(),
 						Received: &RawMessage{
-							Typ: typ, Data: args,
+							Typ: typ, Data: append([]byte{}, args...),
 						},
 					}
 				}
@@ -248,14 +248,14 @@ read:
 				return &ErrUnexpectedCommand{
 					Expected: "", // chat
 					Received: &RawMessage{
-						Typ: typ, Data: args,
+						Typ: typ, Data: append([]byte{}, args...),
 					},
 				}
 			} else if out.Type() != typ {
 				return &ErrUnexpectedCommand{
 					Expected: out.Type(),
 					Received: &RawMessage{
-						Typ: typ, Data: args,
+						Typ: typ, Data: append([]byte{}, args...),
 					},
 				}
 			}
@@ -291,7 +291,7 @@ read:
 					return &ErrUnexpectedCommand{
 						Expected: allowed[0].Type(),
 						Received: &RawMessage{
-							Data: args,
+							Data: append([]byte{}, args...),
 						},
 					}
 				}
@@ -304,7 +304,7 @@ read:
 					Expected: out.Type(),
 					Received: &RawMessage{
 						// chat
-						Data: args,
+						Data: append([]byte{}, args...),
 					},
 				}
 			}
-- 
2.43.0


From a72ada96a5cacc43b0c3bd98a1167bd261ba4771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:29 +0000
Subject: [PATCH 57/62] fix: nmdc: use an encoding that was set by a hook

---
 nmdc/reader.go | 2 +-
 nmdc/writer.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nmdc/reader.go b/nmdc/reader.go
index 35761b5..8a5c6f0 100644
--- a/nmdc/reader.go
+++ b/nmdc/reader.go
@@ -146,7 +146,6 @@ func (r *Reader) ReadMsgToAny(arr ...Message) (Message, error) {
 }
 
 func (r *Reader) readMsgTo(ptr *Message, allowed ...Message) error {
-	dec := r.Decoder()
 	expected := *ptr
 	var wildcard *RawMessage // accepts any message
 	for _, m := range allowed {
@@ -309,6 +308,7 @@ read:
 				}
 			}
 		}
+		dec := r.Decoder() // may be changed by hooks
 		err = out.UnmarshalNMDC(dec, args)
 		if r.OnUnknownEncoding != nil {
 			if e, ok := err.(*errUnknownEncoding); ok {
diff --git a/nmdc/writer.go b/nmdc/writer.go
index a92c3a0..687a0b1 100644
--- a/nmdc/writer.go
+++ b/nmdc/writer.go
@@ -64,7 +64,6 @@ func (w *Writer) WriteMsg(msg ...Message) error {
 	if err := w.Writer.Err(); err != nil {
 		return err
 	}
-	enc := w.Encoder()
 write:
 	for _, m := range msg {
 		for _, fnc := range w.onMessage {
@@ -75,7 +74,8 @@ write:
 			}
 		}
 		w.mbuf.Reset()
-		err := MarshalTo(enc, &w.mbuf, m)
+		// the encoder may be changed by hooks
+		err := MarshalTo(w.Encoder(), &w.mbuf, m)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 9238980c46d3ef0967119cfa8fbe9eccaac3ab8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:30 +0000
Subject: [PATCH 58/62] fix: nmdc: limit the length of a name in the connection
 encoding

---
 nmdc/types.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/nmdc/types.go b/nmdc/types.go
index 3079657..8d1e45d 100644
--- a/nmdc/types.go
+++ b/nmdc/types.go
@@ -83,9 +83,6 @@ func (*NoArgs) UnmarshalNMDC(_ *TextDecoder, data []byte) error {
 type Name string
 
 func (s Name) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
-	if len(s) > maxName {
-		return errors.New("name is too long")
-	}
 	str := string(s)
 	if enc != nil {
 		var err error
-- 
2.43.0


From 684544e59fc91225f24d2cb203c599bc7a7eee91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:31 +0000
Subject: [PATCH 59/62] fix: adc: refuse a salt of a wrong form

---
 adc/hub.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/adc/hub.go b/adc/hub.go
index 220542b..222926a 100644
--- a/adc/hub.go
+++ b/adc/hub.go
@@ -3,6 +3,7 @@ package adc
 import (
 	"bytes"
 	"encoding/base32"
+	"errors"
 
 	"github.com/direct-connect/go-dc/tiger"
 )
@@ -86,6 +87,10 @@ func (m *GetPassword) UnmarshalADC(data []byte) error {
 	m.Salt = make([]byte, size)
 	n, err := base32Enc.Decode(m.Salt, data)
 	m.Salt = m.Salt[:n]
+	if err == nil && base32Enc.EncodedLen(n) != len(data) {
+		// the decoder ignores line breaks and a tail that is too short
+		return errors.New("invalid base32 size of the salt")
+	}
 	return err
 }
 
-- 
2.43.0


From dc5221077083b5d198ac5eaaa50572e2ce1cced4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:33 +0000
Subject: [PATCH 60/62] fix: adc: parameters of a status are not a part of its
 text

---
 adc/messages.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/adc/messages.go b/adc/messages.go
index 156b8b0..2d374ed 100644
--- a/adc/messages.go
+++ b/adc/messages.go
@@ -216,7 +216,8 @@ func (st Status) MarshalADC(buf *bytes.Buffer) error {
 }
 
 func (st *Status) UnmarshalADC(s []byte) error {
-	sub := bytes.SplitN(s, []byte(" "), 2)
+	// description may be followed by named parameters
+	sub := bytes.SplitN(s, []byte(" "), 3)
 	code, err := strconv.Atoi(string(sub[0]))
 	if err != nil {
 		return fmt.Errorf("wrong status code: %v", err)
-- 
2.43.0


From 4035442874a95b05eef3c847fe4ccba6f2f0d8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:23 +0000
Subject: [PATCH 61/62] fix: nmdc: refuse messages with raw delimiters or null
 characters

---
 nmdc/message.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nmdc/message.go b/nmdc/message.go
index 8e41551..0da124c 100644
--- a/nmdc/message.go
+++ b/nmdc/message.go
@@ -2,6 +2,7 @@ package nmdc
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"io"
 	"reflect"
@@ -116,6 +117,7 @@ func (m *RawMessage) UnmarshalNMDC(_ *TextDecoder, data []byte) error {
 // MarshalTo encodes NMDC message into a buffer. It will write a command name,
 // a payload and '|' delimiter.
 func MarshalTo(enc *TextEncoder, buf *bytes.Buffer, m Message) error {
+	start := buf.Len()
 	if typ := m.Type(); typ != "" {
 		buf.Grow(1 + len(typ) + 2)
 		buf.WriteByte('$')
@@ -126,6 +128,9 @@ func MarshalTo(enc *TextEncoder, buf *bytes.Buffer, m Message) error {
 	if err := m.MarshalNMDC(enc, buf); err != nil {
 		return err
 	}
+	if raw := buf.Bytes()[start:]; bytes.IndexByte(raw, Delimiter) >= 0 || bytes.IndexByte(raw, 0x00) >= 0 {
+		return errors.New("message should not contain raw delimiters or null characters")
+	}
 	if n == buf.Len() && m.Type() != "" {
 		// no payload
 		buf.Bytes()[n-1] = Delimiter // ' ' -> '|'
-- 
2.43.0


From a6e8b9ac4dc21c6afb4686cbdaee2b2986c39285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:25 +0000
Subject: [PATCH 62/62] fix: adc: refuse packets with raw line breaks or null
 characters

---
 adc/writer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/adc/writer.go b/adc/writer.go
index 6291cc9..33ab138 100644
--- a/adc/writer.go
+++ b/adc/writer.go
@@ -2,6 +2,7 @@ package adc
 
 import (
 	"bytes"
+	"errors"
 	"io"
 
 	"github.com/direct-connect/go-dc/lineproto"
@@ -46,7 +47,11 @@ func (w *Writer) WritePacket(p Packet) error {
 	if err != nil {
 		return err
 	}
-	return w.WriteLine(w.mbuf.Bytes())
+	data := w.mbuf.Bytes()
+	if bytes.IndexByte(data, lineDelim) != len(data)-1 || bytes.IndexByte(data, 0x00) >= 0 {
+		return errors.New("packet should not contain raw line breaks or null characters")
+	}
+	return w.WriteLine(data)
 }
 
 // Flush the underlying buffer. Should be called after each WritePacket batch.
-- 
2.43.0

