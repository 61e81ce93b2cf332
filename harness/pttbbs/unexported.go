package pttbbs

import (
	"github.com/Ptt-official-app/go-bbs/zzh/h"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

// HUserInfoPrivate: the fields of an online-user record without accessors are read from their own places.
//
//verif:prop C04
func HUserInfoPrivate() {
	big := vrt.Case("big5", 0, 1)
	texts := []h.Span{{16, 13}, {29, 24}, {53, 27}, {3422, 11}, {3435, 13}}
	raw := h.Raw("r", 3484, texts)
	if big == 1 {
		h.Put(raw, 29, h.BigB)
	}
	nick := h.Text(raw, texts[1])
	if big == 1 {
		nick = h.BigU + nick[len(h.BigB):]
	}
	u := UnmarshalUserInfo(raw)
	vrt.Assert(uint32(u.uid) == h.U32(raw, 0), "uid")
	vrt.Assert(uint32(u.pid) == h.U32(raw, 4), "pid")
	vrt.Assert(u.userID == h.Text(raw, texts[0]), "userid")
	vrt.Assert(u.nickname == nick, "nickname")
	vrt.Assert(u.from == h.Text(raw, texts[2]), "from")
	vrt.Assert(u.fromIP == h.U32(raw, 80), "fromip")
	vrt.Assert(u.brcID == h.U32(raw, 3476), "brcid")
	vrt.Assert(u.wbTime.Unix() == int64(h.U32(raw, 3480)), "wbtime")
	vrt.Observe("nick", u.nickname)
}

// HUserecFirstLogin: the first login time, which has no accessor, is read from its own place.
//
//verif:prop C01
func HUserecFirstLogin() {
	raw := make([]byte, 512)
	copy(raw[88:], vrt.Bytes("a", 16, 16, 0, 255))
	u, err := UnmarshalUserec(raw)
	vrt.Assert(err == nil, "decodes")
	vrt.Assert(u.firstLogin.Unix() == int64(h.U32(raw, 96)), "firstlogin")
	vrt.Observe("first", u.firstLogin.Unix())
}
