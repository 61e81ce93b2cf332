package main

import (
	"errors"
	"strconv"
	"time"

	bbs "github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/zzverif/vhttp"
	"github.com/Ptt-official-app/go-bbs/zzverif/vjson"
	"github.com/Ptt-official-app/go-bbs/zzverif/vjwt"
	"github.com/Ptt-official-app/go-bbs/zzverif/vos"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
	"github.com/Ptt-official-app/go-bbs/zzverif/vtime"
)

// account is a user with a password that is kept as it is.
type account struct {
	n              int
	id, pw         string
	nick, real, ip string
	add            int  // what is added to the numbers
	broken         bool // has no usable hash
	tried          []string
}

var errWrong = errors.New("wrong password")

func (a *account) UserID() string         { return a.id }
func (a *account) HashedPassword() string { return "hash of " + strconv.Itoa(a.n) }
func (a *account) VerifyPassword(p string) error {
	a.tried = append(a.tried, p)
	if a.broken || p != a.pw {
		return errWrong
	}
	return nil
}
func (a *account) Nickname() string     { return a.nick }
func (a *account) RealName() string     { return a.real }
func (a *account) NumLoginDays() int    { return 100 + a.n + a.add }
func (a *account) NumPosts() int        { return 200 + a.n + 2*a.add }
func (a *account) Money() int           { return 300 + a.n - a.add }
func (a *account) LastLogin() time.Time { return time.Unix(1500000000+int64(86400*a.n), 0) }
func (a *account) LastHost() string     { return a.ip }
func (a *account) UserFlag() uint32     { return 0 }

func zzText(nm string, min, max int) string {
	n := vrt.Case(nm+"len", min, max)
	return string(vrt.Bytes(nm, n, n, 0, 255))
}

// zzAccounts makes accounts with different names.
func zzAccounts(min, max int) []*account {
	var out []*account
	for i, n := 0, vrt.Case("accounts", min, max); i < n; i++ {
		k := strconv.Itoa(i)
		a := &account{n: i, id: zzText("id"+k, 0, 2)}
		for _, o := range out {
			vrt.Assume(o.id != a.id)
		}
		out = append(out, a)
	}
	return out
}

// zzHome is a home with these accounts.
type zzHome struct {
	bbs.Connector
	users []bbs.UserRecord
}

func (d *zzHome) Open(string) error                                      { return nil }
func (d *zzHome) GetUserRecordsPath() (string, error)                    { return "users", nil }
func (d *zzHome) ReadUserRecordsFile(string) ([]bbs.UserRecord, error)   { return d.users, nil }
func (d *zzHome) GetBoardRecordsPath() (string, error)                   { return "boards", nil }
func (d *zzHome) ReadBoardRecordsFile(string) ([]bbs.BoardRecord, error) { return nil, nil }

// zzInstall starts the server on a home with the accounts.
func zzInstall(l []*account) {
	vjson.Reset()
	vjwt.Reset()
	d := &zzHome{}
	for _, a := range l {
		d.users = append(d.users, bbs.UserRecord(a))
	}
	bbs.Register("pttbbs", d)
	vhttp.Served = nil
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(vos.ExitPanic); !ok {
					panic(r)
				}
			}
		}()
		main()
	}()
	vrt.Assert(vhttp.Served != nil, "serves")
}

func zzServe(w *vhttp.Recorder, r *vhttp.Request) { vhttp.Served.ServeHTTP(w, r) }

// HToken: a token is given exactly when the account exists and the password is right.
//
//verif:prop C24
func HToken() {
	l := zzAccounts(0, 2)
	for i, a := range l {
		a.pw = string(vrt.Bytes("pw"+strconv.Itoa(i), 1, 1, 0, 255))
		a.broken = vrt.Bool("broken" + strconv.Itoa(i))
	}
	user, pw := zzText("user", 0, 2), zzText("try", 0, 2)
	zzInstall(l)
	now := time.Unix(1600000000, 0)
	if vrt.Case("clock", 0, 1) == 1 {
		now = time.Unix(4000000000, 5e8)
	}
	vtime.Fn = func() time.Time { return now }
	r := vhttp.NewRequest("POST", "/v1/token", nil, map[string][]string{"username": {user}, "password": {pw}, "x": {"y"}})
	w := &vhttp.Recorder{}
	zzServe(w, r)

	var acc *account
	for _, a := range l {
		if a.id == user {
			acc = a
		}
		for _, p := range a.tried {
			vrt.Assert(a.id == user && p == pw, "verifies-the-password-given-for-the-account")
		}
	}
	good := acc != nil && !acc.broken && acc.pw == pw
	body, ok := vjson.Value(w.Body)
	vrt.Assert(ok, "answer-is-one-object")
	if !vjson.Known(body) {
		return
	}
	tok, has := vjson.Text(body, "access_token")
	if !good {
		vrt.Assert(!has && len(vjwt.Issued) == 0, "no-token-without-the-right-password")
		e, is := vjson.Text(body, "error")
		vrt.Assert(is && e != "", "refusal-is-an-error")
		return
	}
	vrt.Assert(has, "token-for-the-right-password")
	_, is := vjson.Field(body, "error")
	vrt.Assert(!is, "token-or-error")
	kind, _ := vjson.Text(body, "token_type")
	vrt.Assert(kind == "bearer", "bearer-token")
	c, ok := vjwt.Standard(tok)
	vrt.Assert(ok, "the-signed-token")
	vrt.Assert(c.Subject == user, "token-names-the-account")
	left := c.ExpiresAt - now.Unix()
	vrt.Assert(left > 0 && left <= 30*60, "token-lasts-thirty-minutes-at-most")
	vrt.Assert(left >= 29*60, "token-lasts-about-thirty-minutes")
	vrt.Assert(c.NotBefore <= now.Unix(), "token-is-valid-now")
}

// HTokenMethod: only a POST gives tokens.
//
//verif:prop C24
func HTokenMethod() {
	l := []*account{{id: "ab", pw: "cd"}}
	zzInstall(l)
	m := []string{"GET", "HEAD", "PUT", "PATCH", "DELETE", "OPTIONS", "post", ""}[vrt.Case("method", 0, 7)]
	q := map[string][]string{"username": {"ab"}, "password": {"cd"}}
	w := &vhttp.Recorder{}
	vrt.NoPanic(func() { zzServe(w, vhttp.NewRequest(m, "/v1/token", q, q)) }, "no-crash")
	vrt.Assert(len(vjwt.Issued) == 0, "no-token-but-for-a-post")
}

// HTokenMissing: a login without its fields gets no token, even when an account without name exists.
//
//verif:prop C24
func HTokenMissing() {
	l := []*account{{id: "", broken: true}, {id: "ab", pw: "cd"}}
	if vrt.Case("empty", 0, 1) == 1 {
		l = l[1:]
	}
	zzInstall(l)
	q := map[string][]string{}
	k := vrt.Case("fields", 0, 3)
	if k&1 != 0 {
		q["username"] = [][]string{{"ab"}, {}, {"", "ab"}}[vrt.Case("u", 0, 2)]
	}
	if k&2 != 0 {
		q["password"] = [][]string{{"cd"}, {}, {"", "cd"}}[vrt.Case("p", 0, 2)]
	}
	w := &vhttp.Recorder{}
	vrt.NoPanic(func() { zzServe(w, vhttp.NewRequest("POST", "/v1/token", nil, q)) }, "no-crash")
	first := func(n string) string {
		if len(q[n]) > 0 {
			return q[n][0]
		}
		return ""
	}
	vrt.Assert((len(vjwt.Issued) == 1) == (first("username") == "ab" && first("password") == "cd"), "no-token-without-the-right-password")
}

// HInformation: the information given is the requested user's.
//
//verif:prop C24
func HInformation() {
	l := zzAccounts(0, vrt.Bound(2, 3))
	for i, a := range l {
		k := strconv.Itoa(i)
		a.add = []int{0, 1000000, 2000000000, -200}[vrt.Case("numbers", 0, 3)]
		a.nick, a.real, a.ip = string(vrt.Bytes("nick"+k, 1, 1, 0, 255)), string(vrt.Bytes("real"+k, 1, 1, 0, 255)), string(vrt.Bytes("ip"+k, 1, 1, 0, 255))
	}
	n := vrt.Case("userlen", 0, 2)
	b := vrt.Bytes("user", n, n, 0, 255)
	for _, c := range b {
		vrt.Assume(c != '/')
	}
	user := string(b)
	// whose account it is, if it is one, is a case
	var acc *account
	which := vrt.Case("which", -1, len(l)-1)
	for i, a := range l {
		vrt.Assume((a.id == user) == (i == which))
		if i == which {
			acc = a
		}
	}
	zzInstall(l)
	r := vhttp.NewRequest("GET", "/v1/users/"+user+"/information", nil, nil)
	if vrt.Case("token", 0, 1) == 1 {
		r.Header.Set("Authorization", "bearer token#0")
	}
	w := &vhttp.Recorder{}
	zzServe(w, r)

	body, ok := vjson.Value(w.Body)
	vrt.Assert(ok, "answer-is-one-object")
	if !vjson.Known(body) {
		return
	}
	data, has := vjson.Field(body, "data")
	if acc == nil {
		vrt.Assert(w.Code >= 400 && !has, "unknown-user-is-an-error")
		return
	}
	vrt.Assert(w.Code == 200 && has, "information-of-a-known-user")
	if !vjson.Known(data) {
		return
	}
	is := func(name, want string) {
		got, ok := vjson.Text(data, name)
		vrt.Assert(ok && got == want, "information-is-the-users-"+name)
	}
	is("user_id", acc.id)
	is("nickname", acc.nick)
	is("realname", acc.real)
	is("number_of_login_days", strconv.Itoa(acc.NumLoginDays()))
	is("number_of_posts", strconv.Itoa(acc.NumPosts()))
	is("money", strconv.Itoa(acc.Money()))
	is("last_login_ip", acc.ip)
	is("last_login_ipv4", acc.ip)
	is("last_login_time", acc.LastLogin().Format(time.RFC3339))
}

// HPaths: no path below the users' and no Authorization header crashes the server or gives information of
// someone else.
//
//verif:prop C24
func HPaths() {
	l := []*account{{id: "a", nick: "n"}}
	zzInstall(l)
	n := vrt.Case("rest", 0, vrt.Bound(4, 6))
	path := "/v1/users/" + string(vrt.Bytes("path", n, n, 0, 255))
	if vrt.Case("info", 0, 1) == 1 {
		path += "/information"
	}
	r := vhttp.NewRequest("GET", path, nil, nil)
	if h := vrt.Case("header", 0, 4); h > 0 {
		r.Header.Set("Authorization", string(vrt.Bytes("h", h-1, h-1, 0, 255)))
	}
	w := &vhttp.Recorder{}
	vrt.NoPanic(func() { zzServe(w, r) }, "no-crash")
	named := len(path) >= 12 && path[10] == 'a' && path[11] == '/'
	if body, ok := vjson.Value(w.Body); ok {
		_, has := vjson.Field(body, "data")
		vrt.Assert(!has || named, "no-information-of-someone-else")
	}
}

// HAccountsLarge: among many accounts with names that start alike, the token and the information are those of the
// account asked for, and the whole password counts.
//
//verif:prop C24
func HAccountsLarge() {
	const n = 300
	var l []*account
	for i := 0; i < n; i++ {
		k := strconv.Itoa(i)
		l = append(l, &account{n: i, id: "account" + k, pw: "a password longer than eight " + k, nick: "n" + k, real: "r" + k, ip: "i" + k})
	}
	i := []int{0, 1, 25, 127, 128, 255, 256, 298, 299}[vrt.Case("index", 0, 8)]
	a := l[i]
	a.id = "account" + strconv.Itoa(i) + string(vrt.Bytes("id", 2, 2, 'a', 'z'))
	c := vrt.U8R("c", 1, 127)
	a.pw = "a password longer than any field of a record can be, 0123456789" + string([]byte{c})
	zzInstall(l)
	user, pw := a.id, a.pw
	change := vrt.Case("change", 0, 5)
	last := vrt.U8R("last", 1, 127)
	switch change {
	case 1: // the last character of the password
		pw = pw[:len(pw)-1] + string([]byte{last})
	case 2:
		pw = pw[:len(pw)-1]
	case 3:
		user = user[:len(user)-1] + string([]byte{last})
	case 4:
		user += string([]byte{last})
	case 5:
		user = user[:len(user)-1]
	}
	vtime.Fn = func() time.Time { return time.Unix(1600000000, 0) }
	w := &vhttp.Recorder{}
	zzServe(w, vhttp.NewRequest("POST", "/v1/token", nil, map[string][]string{"username": {user}, "password": {pw}}))
	good := user == a.id && pw == a.pw
	vrt.Assert((len(vjwt.Issued) == 1) == good, "token-for-the-right-password")
	if body, ok := vjson.Value(w.Body); ok && vjson.Known(body) {
		tok, has := vjson.Text(body, "access_token")
		vrt.Assert(has == good, "token-for-the-right-password")
		if c, ok := vjwt.Standard(tok); has && ok {
			vrt.Assert(c.Subject == user, "token-names-the-account")
		}
	}
	if change == 1 || change == 2 {
		return
	}
	for j := 0; j < len(user); j++ {
		vrt.Assume(user[j] != '/')
	}
	w = &vhttp.Recorder{}
	zzServe(w, vhttp.NewRequest("GET", "/v1/users/"+user+"/information", nil, nil))
	body, _ := vjson.Value(w.Body)
	data, has := vjson.Field(body, "data")
	vrt.Assert(has == (user == a.id), "information-of-known-users")
	if has {
		nick, ok := vjson.Text(data, "nickname")
		vrt.Assert(!ok || nick == a.nick, "information-is-the-users")
	}
}
