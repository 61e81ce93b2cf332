package main

import (
	"strconv"
	"time"

	"github.com/Ptt-official-app/go-bbs/zzverif/vhttp"
	"github.com/Ptt-official-app/go-bbs/zzverif/vjson"
	"github.com/Ptt-official-app/go-bbs/zzverif/vjwt"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
	"github.com/Ptt-official-app/go-bbs/zzverif/vtime"
)

// zzLogin sends a login and checks that it is answered by what it holds alone.
func zzLogin(l []*account, user, pw string, now time.Time) {
	vtime.Fn = func() time.Time { return now }
	had := len(vjwt.Issued)
	w := &vhttp.Recorder{}
	zzServe(w, vhttp.NewRequest("POST", "/v1/token", nil, map[string][]string{"username": {user}, "password": {pw}}))
	good := false
	for _, a := range l {
		if a.id == user && a.pw == pw && !a.broken {
			good = true
		}
	}
	body, ok := vjson.Value(w.Body)
	vrt.Assert(ok, "answer-is-one-object")
	if !vjson.Known(body) {
		return
	}
	tok, has := vjson.Text(body, "access_token")
	if !good {
		vrt.Assert(!has && len(vjwt.Issued) == had, "no-token-without-the-right-password")
		return
	}
	vrt.Assert(has, "token-for-the-right-password")
	c, ok := vjwt.Standard(tok)
	vrt.Assert(ok && c.Subject == user, "token-names-the-account")
	left := c.ExpiresAt - now.Unix()
	vrt.Assert(left > 29*60 && left <= 30*60, "token-lasts-about-thirty-minutes")
}

// HTokenTwice: a login does not change what a later one is answered, of the same or another account, with the
// same or another password.
//
//verif:prop C24
func HTokenTwice() {
	var l []*account
	for i := 0; i < 2; i++ {
		k := strconv.Itoa(i)
		a := &account{n: i, id: zzText("id"+k, 1, 2)}
		m := vrt.Case("pwlen"+k, 1, 2)
		a.pw = string(vrt.Bytes("pw"+k, m, m, 1, 127))
		l = append(l, a)
	}
	vrt.Assume(l[0].id != l[1].id)
	zzInstall(l)
	// the first login is a good one or a bad one
	u, p := l[0].id, l[0].pw
	switch vrt.Case("first", 0, 2) {
	case 1:
		p = string(vrt.Bytes("bad", 1, 1, 1, 127))
	case 2:
		u = zzText("who", 0, 2)
	}
	zzLogin(l, u, p, time.Unix(1600000000, 0))
	m := vrt.Case("trylen", 0, 2)
	zzLogin(l, []string{l[0].id, l[1].id}[vrt.Case("second", 0, 1)], string(vrt.Bytes("try", m, m, 1, 127)), time.Unix(1600000000+int64(vrt.Case("later", 0, 1))*100000, 0))
}

// HTokenOften: however many logins there were before, right or wrong, each one is answered by what it holds.
//
//verif:prop C24
func HTokenOften() {
	l := []*account{{n: 0, id: "ab", pw: string(vrt.Bytes("pw0", 2, 2, 1, 127))}, {n: 1, id: "cd", pw: string(vrt.Bytes("pw1", 2, 2, 1, 127))}}
	vrt.Assume(l[0].pw != l[1].pw && l[0].pw != "xx" && l[1].pw != "xx")
	zzInstall(l)
	n := vrt.Case("before", 0, vrt.Bound(12, 40))
	how := vrt.Case("how", 0, 3)
	now := int64(1600000000)
	for i := 0; i < n; i++ {
		now += 7
		u, p := "ab", "xx"
		switch {
		case how == 1:
			p = l[0].pw
		case how == 2:
			u = []string{"ab", "cd", "ef"}[i%3]
		case how == 3 && i%2 == 0:
			u, p = "cd", l[1].pw
		}
		zzLogin(l, u, p, time.Unix(now, 0))
		if len(vjwt.Issued) > 5 {
			vjwt.Reset()
		}
	}
	now += 3600
	zzLogin(l, "ab", l[0].pw, time.Unix(now, 0))
	zzLogin(l, "cd", l[0].pw, time.Unix(now, 0))
	zzLogin(l, "cd", l[1].pw, time.Unix(now, 0))
	zzLogin(l, "ab", "xx", time.Unix(now, 0))
}

// HInformationTwice: what was asked before does not change what is given of a user, who is there or not.
//
//verif:prop C24
func HInformationTwice() {
	ids := []string{"ab", "AB", "cd"}
	for k := 0; k < 3; k++ {
		n := strconv.Itoa(k)
		var l []*account
		for i, id := range ids {
			if vrt.Case("has"+id+strconv.Itoa(k%2), 0, 1) == 1 {
				l = append(l, &account{n: i, id: id, pw: "p", nick: string(vrt.Bytes("nick"+id+n, 1, 1, 1, 127)), add: 10 * k})
			}
		}
		zzInstall(l)
		user := ids[vrt.Case("asked"+n, 0, 2)]
		w := &vhttp.Recorder{}
		zzServe(w, vhttp.NewRequest("GET", "/v1/users/"+user+"/information", nil, nil))
		body, ok := vjson.Value(w.Body)
		vrt.Assert(ok, "answer-is-one-object")
		if !vjson.Known(body) {
			return
		}
		data, has := vjson.Field(body, "data")
		var acc *account
		for _, a := range l {
			if a.id == user {
				acc = a
			}
		}
		vrt.Assert(has == (acc != nil), "information-of-who-is-there-now")
		if acc == nil || !has || !vjson.Known(data) {
			continue
		}
		got, ok := vjson.Text(data, "user_id")
		vrt.Assert(ok && got == user, "information-is-the-users-user_id")
		got, ok = vjson.Text(data, "nickname")
		vrt.Assert(ok && got == acc.nick, "information-is-the-users-nickname")
		got, ok = vjson.Text(data, "money")
		vrt.Assert(ok && got == strconv.Itoa(acc.Money()), "information-is-the-users-money")
	}
}
