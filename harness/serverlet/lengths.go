package main

import (
	"time"

	bbs "github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/zzverif/vhttp"
	"github.com/Ptt-official-app/go-bbs/zzverif/vjson"
	"github.com/Ptt-official-app/go-bbs/zzverif/vjwt"
	"github.com/Ptt-official-app/go-bbs/zzverif/vos"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
	"github.com/Ptt-official-app/go-bbs/zzverif/vtime"
)

// HTokenLengths: user names and passwords of any length count in full.
//
//verif:prop C24
func HTokenLengths() {
	n, m := 3, 3
	part := vrt.Case("part", 0, 1)
	if part == 0 {
		n = vrt.Case("length", 1, 24)
	} else {
		m = vrt.Case("length", 1, 80)
	}
	a := &account{id: string(vrt.Bytes("id", n, n, 1, 127)), pw: string(vrt.Bytes("pw", m, m, 1, 127))}
	zzInstall([]*account{{n: 1, id: "someone"}, a})
	vrt.Assume(a.id != "someone")
	user, pw := a.id, a.pw
	c := string([]byte{vrt.U8R("c", 1, 127)})
	p := &user
	if part == 1 {
		p = &pw
	}
	switch vrt.Case("change", 0, 4) {
	case 1:
		*p += c
	case 2:
		*p = (*p)[:len(*p)-1]
	case 3:
		*p = (*p)[:len(*p)-1] + c
	case 4:
		*p = c + (*p)[1:]
	}
	vrt.Assume(user != "someone")
	vtime.Fn = func() time.Time { return time.Unix(1600000000, 0) }
	w := &vhttp.Recorder{}
	zzServe(w, vhttp.NewRequest("POST", "/v1/token", nil, map[string][]string{"username": {user}, "password": {pw}}))
	good := user == a.id && pw == a.pw
	vrt.Assert((len(vjwt.Issued) == 1) == good, "token-for-the-right-password")
	body, ok := vjson.Value(w.Body)
	vrt.Assert(ok, "answer-is-one-object")
	if !vjson.Known(body) {
		return
	}
	tok, has := vjson.Text(body, "access_token")
	vrt.Assert(has == good, "token-for-the-right-password")
	if has {
		c, ok := vjwt.Standard(tok)
		vrt.Assert(ok && c.Subject == a.id, "token-names-the-account")
	}
}

// HServerLengths: user names and board names of any length.
//
//verif:prop C34
func HServerLengths() {
	vjson.Reset()
	vos.PutDir("../home/bbs")
	n := vrt.Case("length", 1, 12)
	id := string(vrt.Bytes("id", n, n, '0', 'z'))
	data := make([]byte, 3*512)
	copy(data[4:], "someone")
	copy(data[512+4:], id)
	copy(data[1024+4:], "else")
	vos.Put("../home/bbs/.PASSWDS", data)
	brd := make([]byte, 2*256)
	copy(brd, "aboard")
	copy(brd[256:], id)
	vos.Put("../home/bbs/.BRD", brd)
	zzStart()
	vrt.Assert(vhttp.Served != nil, "serves")
	got, ok := zzData(zzAsk("GET", "/v1/boards"))
	vrt.Assert(ok, "board-list")
	if l, ok := got.([]interface{}); ok {
		vrt.Assert(len(l) == 2, "all-boards")
		b, ok := l[1].(bbs.BoardRecord)
		vrt.Assert(!ok || b.BoardID() == id, "boards-in-order")
	}
	user := id
	c := string([]byte{vrt.U8R("c", '0', 'z')})
	switch vrt.Case("change", 0, 3) {
	case 1:
		user += c
	case 2:
		user = user[:n-1]
	case 3:
		user = user[:n-1] + c
	}
	vrt.Assume(user != "someone" && user != "else")
	w := zzAsk("GET", "/v1/users/"+user+"/information")
	got, ok = zzData(w)
	vrt.Assert(ok == (user == id) && (w.Code < 300) == ok, "information-of-known-users")
	if ok {
		u, ok := vjson.Text(got, "user_id")
		vrt.Assert(!ok || u == id, "information-is-the-users")
	}
}
