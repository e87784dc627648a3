package ref

import (
	"bytes"
	"compress/zlib"
	"io/ioutil"
	"testing"

	"verif/harness/mon"
)

func TestZlib(t *testing.T) {
	for i := 0; i < 3000; i++ {
		r := mon.NewRand(uint64(i))
		data := r.Bytes(r.Intn(3000))
		if r.Bool() {
			for i := range data {
				data[i] = "abc"[data[i]%3]
			}
		}
		enc := ZlibEncode(r, data)
		zr, err := zlib.NewReader(bytes.NewReader(enc))
		if err != nil {
			t.Fatal(i, err)
		}
		got, err := ioutil.ReadAll(zr)
		if err != nil || !bytes.Equal(got, data) {
			t.Fatal(i, err, len(got), len(data))
		}
		res, err := Zlib(append(enc, 1, 2, 3))
		if err != nil || !bytes.Equal(res.Out, data) || res.Consumed != len(enc) {
			t.Fatal(i, err)
		}
		var buf bytes.Buffer
		zw, _ := zlib.NewWriterLevel(&buf, r.Intn(12)-2)
		zw.Write(data)
		zw.Flush()
		res, err = Zlib(buf.Bytes())
		if err != ErrTruncated || !bytes.Equal(res.Out, data) {
			t.Fatal(i, err)
		}
		zw.Close()
		res, err = Zlib(buf.Bytes())
		if err != nil || !bytes.Equal(res.Out, data) || res.Consumed != buf.Len() {
			t.Fatal(i, err)
		}
	}
}
