package codec

import (
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

// image is a record of n bytes, of which every few are free.
func image(name string, n, step int) []byte {
	raw := make([]byte, n)
	k := (n + step - 1) / step
	s := vrt.Bytes(name, k, k, 1, 127)
	for i := range raw {
		raw[i] = byte(1 + (i*7+n)%100)
		if i%step == 0 {
			raw[i] = s[i/step]
		}
	}
	return raw
}

// apart encodes two records: neither encoding may change when the other one is made or written to, nor
// may writing to the bytes a record was read from change the record.
func apart(n, step int, input bool, open func([]byte) func() []byte) {
	r1, r2 := image("a", n, step), image("b", n, step)
	e1 := open(r1)
	if input {
		want := string(e1())
		for i := range r1 {
			r1[i] ^= 0x55
		}
		vrt.Assert(string(e1()) == want, "record-apart-from-the-bytes-read")
	}
	e2 := open(r2)
	b1 := e1()
	w1 := string(b1)
	b2 := e2()
	w2 := string(b2)
	vrt.Assert(string(b1) == w1, "first-encoding-kept")
	for i := range b1 {
		b1[i] = 0xff
	}
	vrt.Assert(string(b2) == w2, "encodings-apart")
	vrt.Assert(string(e2()) == w2 && string(e1()) == w1, "encodes-the-same-again")
}

func must(b []byte, err error) []byte {
	vrt.Assert(err == nil, "encodes")
	return b
}

// HUserecApart: accounts and their encodings do not share memory.
//
//verif:prop C01
func HUserecApart() {
	apart(512, 5, true, func(b []byte) func() []byte {
		u, err := pttbbs.UnmarshalUserec(b)
		vrt.Assert(err == nil, "decodes")
		return func() []byte { return must(u.MarshalBinary()) }
	})
}

// HBoardApart: boards and their encodings do not share memory.
//
//verif:prop C02
func HBoardApart() {
	apart(256, 3, true, func(b []byte) func() []byte {
		u, err := pttbbs.UnmarshalBoardHeader(b)
		vrt.Assert(err == nil, "decodes")
		return func() []byte { return must(u.MarshalBinary()) }
	})
}

// HFileHeaderApart: article headers and their encodings do not share memory.
//
//verif:prop C03
func HFileHeaderApart() {
	apart(128, 3, true, func(b []byte) func() []byte {
		u, err := pttbbs.NewFileHeaderWithByte(b)
		vrt.Assert(err == nil, "decodes")
		return func() []byte { return must(u.MarshalToByte()) }
	})
}

// HUserInfoApart: the encodings of online users do not share memory. (The messages of a decoded user are
// those in the memory it was read from.)
//
//verif:prop C04
func HUserInfoApart() {
	apart(3484, 61, false, func(b []byte) func() []byte {
		u := pttbbs.UnmarshalUserInfo(b)
		vrt.Assert(u != nil, "decodes")
		return func() []byte { return u.MarshalBinary() }
	})
}

// HFavApart: favorites and their encodings do not share memory.
//
//verif:prop C05
func HFavApart() {
	apart(2+4+14+3+52+4+14, 3, true, func(b []byte) func() []byte {
		copy(b[2:], []byte{1, 0, 1, 1})
		b[6] = 1
		b[20] = 3
		b[23] = 2
		copy(b[75:], []byte{1, 0, 0, 0})
		b[79] = 1
		f, err := pttbbs.UnmarshalFavFile(b)
		vrt.Assert(err == nil, "decodes")
		return func() []byte { return must(f.MarshalBinary()) }
	})
}
