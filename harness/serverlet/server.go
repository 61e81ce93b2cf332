package main

import (
	bbs "github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/zzverif/vhttp"
	"github.com/Ptt-official-app/go-bbs/zzverif/vjson"
	"github.com/Ptt-official-app/go-bbs/zzverif/vos"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

func zzRecords(path string, n, size, off int, nm string) (ids []string) {
	var data []byte
	for i := 0; i < n; i++ {
		b := make([]byte, size)
		id := string(vrt.Bytes(nm+string([]byte{byte('0' + i)}), 2, 2, '0', 'z'))
		copy(b[off:], id)
		ids = append(ids, id)
		data = append(data, b...)
	}
	vos.Put(path, data)
	return ids
}

// zzStart runs the server; it may end when it stops listening.
func zzStart() {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(vos.ExitPanic); !ok {
				panic(r)
			}
		}
	}()
	main()
}

func zzAsk(method, path string) *vhttp.Recorder {
	w := &vhttp.Recorder{}
	vrt.NoPanic(func() { vhttp.Served.ServeHTTP(w, vhttp.NewRequest(method, path, nil, nil)) }, "no-crash")
	return w
}

func zzData(w *vhttp.Recorder) (interface{}, bool) {
	body, ok := vjson.Value(w.Body)
	if !ok {
		return nil, false
	}
	return vjson.Field(body, "data")
}

// HServerBoards: the board list is that of the home, in order.
//
//verif:prop C34
func HServerBoards() {
	vjson.Reset()
	vos.PutDir("../home/bbs")
	if vrt.Case("users", 0, 1) == 1 {
		zzRecords("../home/bbs/.PASSWDS", 1, 512, 4, "user")
	}
	n := vrt.Case("boards", -1, vrt.Bound(3, 5))
	var ids []string
	if n >= 0 {
		ids = zzRecords("../home/bbs/.BRD", n, 256, 0, "board")
	}
	zzStart()
	vrt.Assert(vhttp.Served != nil, "serves")
	for k := 0; k < 2; k++ {
		w := zzAsk("GET", "/v1/boards")
		data, ok := zzData(w)
		vrt.Assert(w.Code < 300 && ok, "board-list")
		l, ok := data.([]interface{})
		if !ok {
			return
		}
		vrt.Assert(len(l) == len(ids), "all-boards")
		for i, x := range l {
			b, ok := x.(bbs.BoardRecord)
			if !ok {
				return
			}
			vrt.Assert(b.BoardID() == ids[i], "boards-in-order")
		}
	}
}

// HServerUsers: users are those of the home.
//
//verif:prop C34
func HServerUsers() {
	vjson.Reset()
	vos.PutDir("../home/bbs")
	if vrt.Case("boards", 0, 1) == 1 {
		zzRecords("../home/bbs/.BRD", 1, 256, 0, "board")
	}
	n := vrt.Case("users", -1, vrt.Bound(2, 4))
	var ids []string
	if n >= 0 {
		ids = zzRecords("../home/bbs/.PASSWDS", n, 512, 4, "user")
	}
	zzStart()
	vrt.Assert(vhttp.Served != nil, "serves")
	user := string(vrt.Bytes("asked", 2, 2, '0', 'z'))
	known := false
	for _, id := range ids {
		known = known || id == user
	}
	w := zzAsk("GET", "/v1/users/"+user+"/information")
	data, ok := zzData(w)
	vrt.Assert(ok == known, "information-of-known-users")
	vrt.Assert((w.Code < 300) == known, "status-of-answer")
	if known {
		id, ok := vjson.Text(data, "user_id")
		vrt.Assert(!ok || id == user, "information-is-the-users")
	}
}

// HServerPaths: what is not there is answered with an error, whatever the path and the method, and nothing crashes.
//
//verif:prop C34
func HServerPaths() {
	vjson.Reset()
	vos.PutDir("../home/bbs")
	zzRecords("../home/bbs/.PASSWDS", 1, 512, 4, "user")
	zzRecords("../home/bbs/.BRD", 1, 256, 0, "board")
	zzStart()
	vrt.Assert(vhttp.Served != nil, "serves")
	base := []string{"/", "/v1", "/v1/boards/", "/v1/users/", "/v1/users/ab/", "/v1/users/ab/favorites", "/v1/classes/", "/v1/boardsx", "/v1/token/", "/v2/boards"}
	k := vrt.Case("base", 0, len(base)-1)
	m := []string{"GET", "POST", "PUT", "DELETE", "HEAD"}[vrt.Case("method", 0, 4)]
	n := vrt.Case("n", 0, vrt.Bound(3, 5))
	path := base[k] + string(vrt.Bytes("rest", n, n, 33, 126))
	if k == 0 || k == 1 {
		vrt.Assume(path != "/v1/boards" && path != "/v1/token")
	}
	w := zzAsk(m, path)
	_, has := zzData(w)
	vrt.Assert(!has, "no-data-elsewhere")
	if m == "GET" {
		vrt.Assert(w.Code >= 400, "error-elsewhere")
	}
}

// HServerItems: only the information of a user is given, whatever else is asked for.
//
//verif:prop C34
func HServerItems() {
	vjson.Reset()
	vos.PutDir("../home/bbs")
	ids := zzRecords("../home/bbs/.PASSWDS", 1, 512, 4, "user")
	zzRecords("../home/bbs/.BRD", 1, 256, 0, "board")
	zzStart()
	vrt.Assert(vhttp.Served != nil, "serves")
	n := []int{0, 1, 5, 10, 11, 12}[vrt.Case("n", 0, 5)]
	item := string(vrt.Bytes("item", n, n, 33, 126))
	vrt.Assume(item != "information")
	for i := 0; i < len(item); i++ {
		vrt.Assume(item[i] != '/')
	}
	w := zzAsk("GET", "/v1/users/"+ids[0]+"/"+item)
	_, has := zzData(w)
	vrt.Assert(!has && w.Code >= 400, "no-other-item")
}

// HServerMethods: data is only given to a GET.
//
//verif:prop C34
func HServerMethods() {
	vjson.Reset()
	vos.PutDir("../home/bbs")
	zzRecords("../home/bbs/.PASSWDS", 1, 512, 4, "user")
	zzRecords("../home/bbs/.BRD", 1, 256, 0, "board")
	zzStart()
	vrt.Assert(vhttp.Served != nil, "serves")
	m := []string{"POST", "PUT", "DELETE", "PATCH", "OPTIONS", "get", ""}[vrt.Case("method", 0, 6)]
	user := string(vrt.Bytes("user0", 2, 2, '0', 'z'))
	w := zzAsk(m, []string{"/v1/boards", "/v1/users/" + user + "/information"}[vrt.Case("path", 0, 1)])
	_, has := zzData(w)
	vrt.Assert(!has, "no-data-without-get")
}

// HServerLarge: a home of many users and boards.
//
//verif:prop C34
func HServerLarge() {
	vjson.Reset()
	vos.PutDir("../home/bbs")
	nu, nb := []int{60, 300}[vrt.Case("size", 0, 1)], []int{120, 700}[vrt.Case("size", 0, 1)]
	num := func(i int) string {
		return string([]byte{byte('0' + i/100), byte('0' + i/10%10), byte('0' + i%10)})
	}
	users, boards := make([]byte, nu*512), make([]byte, nb*256)
	for i := 0; i < nu; i++ {
		copy(users[i*512+4:], "user"+num(i))
	}
	var ids []string
	for i := 0; i < nb; i++ {
		ids = append(ids, "board"+num(i))
		copy(boards[i*256:], ids[i])
	}
	free := string(vrt.Bytes("user", 2, 2, '0', 'z'))
	at := []int{0, nu / 2, nu - 1}[vrt.Case("at", 0, 2)]
	copy(users[at*512+4:], "free"+free+"\x00")
	vos.Put("../home/bbs/.PASSWDS", users)
	vos.Put("../home/bbs/.BRD", boards)
	vos.MaxOps = 20000
	zzStart()
	vrt.Assert(vhttp.Served != nil, "serves")
	w := zzAsk("GET", "/v1/boards")
	data, ok := zzData(w)
	vrt.Assert(w.Code < 300 && ok, "board-list")
	if l, ok := data.([]interface{}); ok {
		vrt.Assert(len(l) == nb, "all-boards")
		for i, x := range l {
			b, ok := x.(bbs.BoardRecord)
			if !ok {
				return
			}
			vrt.Assert(b.BoardID() == ids[i], "boards-in-order")
		}
	}
	for k, user := range []string{"free" + free, "user" + num(1), "user" + num(nu-2), "user" + num(nu), "user", "board001"} {
		w = zzAsk("GET", "/v1/users/"+user+"/information")
		data, ok = zzData(w)
		vrt.Assert(ok == (k < 3) && (w.Code < 300) == (k < 3), "information-of-known-users")
		if k < 3 {
			id, ok := vjson.Text(data, "user_id")
			vrt.Assert(!ok || id == user, "information-is-the-users")
		}
	}
}

// HServerNumbers: the numbers given of a user are those of the record, whatever their sign.
//
//verif:prop C34
func HServerNumbers() {
	vjson.Reset()
	vos.PutDir("../home/bbs")
	ids := zzRecords("../home/bbs/.PASSWDS", 1, 512, 4, "user")
	numbers := []int32{0, 7, -1, -2147483648, 2147483647, 65536}
	texts := []string{"0", "7", "-1", "-2147483648", "2147483647", "65536"}
	k := vrt.Case("number", 0, len(numbers)-1)
	posts := vrt.Case("posts", 0, 1)
	raw, _ := vos.Get("../home/bbs/.PASSWDS")
	b := append([]byte(nil), raw...)
	v := uint32(numbers[k])
	at := 120
	if posts == 1 {
		at = 92
	}
	b[at], b[at+1], b[at+2], b[at+3] = byte(v), byte(v>>8), byte(v>>16), byte(v>>24)
	vos.Put("../home/bbs/.PASSWDS", b)
	zzStart()
	vrt.Assert(vhttp.Served != nil, "serves")
	data, ok := zzData(zzAsk("GET", "/v1/users/"+ids[0]+"/information"))
	vrt.Assert(ok, "information-of-known-users")
	if !ok || !vjson.Known(data) {
		return
	}
	if posts == 1 {
		got, has := vjson.Text(data, "number_of_posts")
		want := texts[k]
		if numbers[k] < 0 { // the count has no sign
			want = []string{"4294967295", "2147483648"}[k-2]
		}
		vrt.Assert(!has || got == want, "number-of-posts")
		return
	}
	got, has := vjson.Text(data, "money")
	vrt.Assert(!has || got == texts[k], "money")
}
