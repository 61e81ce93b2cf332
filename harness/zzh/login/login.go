// Package login checks the login histories.
package login

import (
	"syscall"
	"time"

	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"github.com/Ptt-official-app/go-bbs/zzverif/vos"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

func two(n int) string { return string([]byte{byte('0' + n/10), byte('0' + n%10)}) }

// moment is a date and time: the field under test is free, the rest fixed.
type moment struct{ y, mo, d, h, mi, s int }

func when() moment {
	m := moment{2021, 1, 9, 10, 8, 56}
	k := vrt.Case("field", 0, 5)
	switch k {
	case 0:
		m.mo = vrt.Case("month", 1, 12)
	case 1:
		m.d = vrt.Int("day", 1, 31)
	case 2:
		m.h = vrt.Int("hour", 0, 23)
	case 3:
		m.mi = vrt.Int("minute", 0, 59)
	case 4:
		m.s = vrt.Int("second", 0, 59)
	case 5:
		m.y = []int{1999, 2000, 2024, 2038, 2100}[vrt.Case("year", 0, 4)]
		m.mo = 2
		m.d = vrt.Int("day", 1, 28)
	}
	return m
}

func (m moment) text() string {
	return two(m.mo) + "/" + two(m.d) + "/" + two(m.y/100) + two(m.y%100) + " " + two(m.h) + ":" + two(m.mi) + ":" + two(m.s)
}

func (m moment) is(t time.Time) bool {
	y, mo, d := t.Date()
	h, mi, s := t.Clock()
	return y == m.y && int(mo) == m.mo && d == m.d && h == m.h && mi == m.mi && s == m.s
}

func pad(s string) string {
	for len(s) < 12 {
		s += " "
	}
	return s
}

func kind(k int) string { return []string{"[", " ", "-"}[k] }

// line writes a history line: kind 0 has no user, 1 succeeded, 2 failed.
func line(k int, id, clock, host string) string {
	if k == 0 {
		return "[" + clock + " Sat] " + host
	}
	return kind(k) + pad(id) + "[" + clock + " Sat] ?@" + host
}

// HBadTime: the time of a login attempt is the one the line holds, and is written back.
//
//verif:prop C07
func HBadTime() {
	m := when()
	k := vrt.Case("kind", 0, 2)
	a := &pttbbs.LoginAttempt{}
	err := a.UnmarshalText([]byte(line(k, "pichu", m.text(), "10.0.0.1")))
	vrt.Assert(err == nil, "reads")
	vrt.Assert(m.is(a.LoginStartTime), "time")
}

// HBadTimeAgain: the time of a login attempt is written as it was read.
//
//verif:prop C07
func HBadTimeAgain() {
	m := when()
	a := &pttbbs.LoginAttempt{FromHost: "h", LoginStartTime: time.Date(m.y, time.Month(m.mo), m.d, m.h, m.mi, m.s, 0, time.UTC)}
	out, err := a.MarshalText()
	vrt.Assert(err == nil && len(out) >= 20, "writes")
	vrt.Assert(string(out[1:20]) == m.text(), "time-written")
}

const clock = "01/09/2021 10:08:56"

// HBadFields: the user, the outcome and the host are those the line holds, and are written back.
//
//verif:prop C07
func HBadFields() {
	k := vrt.Case("kind", 0, 2)
	n := vrt.Case("idlen", 1, 12)
	id := string(vrt.Bytes("id", n, n, 33, 126))
	hn := []int{0, 1, 2, 3, 7, 15, 30}[vrt.Case("hostlen", 0, vrt.Bound(4, 6))]
	host := string(vrt.Bytes("host", hn, hn, 32, 126))
	text := line(k, id, clock, host)
	a := &pttbbs.LoginAttempt{}
	err := a.UnmarshalText([]byte(text))
	vrt.Assert(err == nil, "reads")
	vrt.Assert(a.Success == (k == 1), "success")
	if k == 0 {
		vrt.Assert(a.UserID == "", "no-user")
	} else {
		vrt.Assert(a.UserID == id, "user")
	}
	vrt.Assert(a.FromHost == host, "host")
	vrt.Assert(a.IsUnderBbsHome() == (k != 0), "has-user")
	vrt.Assert((moment{2021, 1, 9, 10, 8, 56}).is(a.LoginStartTime), "time")
	out, err := a.MarshalText()
	vrt.Assert(err == nil && string(out) == text, "line-again")
}

// HBadEncode: an entry written and read back is the same entry.
//
//verif:prop C07
func HBadEncode() {
	n := vrt.Case("idlen", 0, 12)
	id := string(vrt.Bytes("id", n, n, 33, 126))
	hn := vrt.Case("hostlen", 0, vrt.Bound(4, 15))
	host := string(vrt.Bytes("host", hn, hn, 33, 126))
	a := &pttbbs.LoginAttempt{UserID: id, FromHost: host, LoginStartTime: time.Date(2021, 5, 4, 3, 2, 1, 0, time.UTC)}
	if n > 0 {
		a.Success = vrt.Bool("success")
	}
	out, err := a.MarshalText()
	vrt.Assert(err == nil, "writes")
	b := &pttbbs.LoginAttempt{}
	err = b.UnmarshalText(out)
	vrt.Assert(err == nil, "reads")
	vrt.Assert(b.UserID == id && b.FromHost == host && b.Success == a.Success, "entry-again")
	vrt.Assert(b.LoginStartTime.Unix() == a.LoginStartTime.Unix(), "time-again")
}

// HBadCut: a line cut short anywhere never crashes the reader, and is refused unless only the host is cut.
//
//verif:prop C07
func HBadCut() {
	k := vrt.Case("kind", 0, 2)
	text := line(k, "pichu", clock, "h")
	cut := vrt.Case("cut", 0, 44)
	vrt.Assume(cut < len(text))
	a := &pttbbs.LoginAttempt{}
	err := a.UnmarshalText([]byte(text[:cut]))
	vrt.Observe("err", err != nil)
	if cut <= len(text)-5 {
		vrt.Assert(err != nil || cut >= 26, "cut-reported")
	}
}

// HBadJunk: a line with a foreign byte anywhere never crashes the reader; no line starts with another byte.
//
//verif:prop C07
func HBadJunk() {
	k := vrt.Case("kind", 0, 2)
	text := []byte(line(k, "pichu", clock, "h"))
	at := vrt.Case("at", 0, 44)
	vrt.Assume(at < len(text))
	c := vrt.U8("c")
	text[at] = c
	a := &pttbbs.LoginAttempt{}
	err := a.UnmarshalText(text)
	vrt.Observe("err", err != nil)
	if at == 0 && c != ' ' && c != '-' && c != '[' {
		vrt.Assert(err != nil, "kind-refused")
	}
}

// HBadShort: short lines of any bytes never crash the reader.
//
//verif:prop C07
func HBadShort() {
	n := vrt.Case("n", 0, vrt.Bound(8, 14))
	a := &pttbbs.LoginAttempt{}
	err := a.UnmarshalText(vrt.Bytes("t", n, n, 0, 255))
	vrt.Assert(err != nil, "short-refused")
}

const path = "/bbs/logins"

// HBadFile: the entries of a file come in file order, and whatever fails is reported.
//
//verif:prop C07
func HBadFile() {
	n := vrt.Case("lines", 0, vrt.Bound(2, 3))
	text := ""
	var ids []string
	var wins [4]bool
	bad := false
	for i := 0; i < n; i++ {
		nm := two(i)
		id := string(vrt.Bytes("id"+nm, 3, 3, 48, 126))
		ids = append(ids, id)
		switch vrt.Case("form"+nm, 0, 4) {
		case 4:
			text += line(0, "", clock, "h") + "\n"
			ids[i] = ""
		case 0:
			text += line(1, id, clock, "h") + "\n"
			wins[i] = true
		case 1:
			text += line(2, id, clock, "h") + "\r\n"
		case 2:
			text += "\n"
			bad = true
		case 3:
			text += line(1, id, clock, "h")[:vrt.Case("cut"+nm, 1, 3)*7] + "\n"
			bad = true
		}
	}
	if n > 0 && vrt.Case("eof", 0, 1) == 1 {
		text = text[:len(text)-1]
	}
	vos.Put(path, []byte(text))
	faults := vrt.Case("fault", 0, 3)
	nr := 0
	fired := false
	vos.OnRead = func(p string, m int) (int, error) {
		nr++
		if nr == faults {
			fired = true
			return 0, syscall.EIO
		}
		if faults == 3 && m > 5 {
			// short reads
			return 5, nil
		}
		return m, nil
	}
	got, err := pttbbs.OpenBadLoginFile(path)
	vos.OnRead = nil
	vrt.Observe("err", err != nil)
	if fired {
		vrt.Assert(err != nil, "failure-reported")
	}
	if !fired && !bad {
		vrt.Assert(err == nil, "no-spurious-error")
	}
	if err == nil && !bad {
		vrt.Assert(len(got) == n, "one-entry-per-line")
		for i := range got {
			vrt.Assert(got[i].UserID == ids[i] && got[i].FromHost == "h" && got[i].Success == wins[i], "entries-in-order")
			vrt.Assert(got[i].LoginStartTime.Minute() == 8, "times-in-order")
		}
	}
	vrt.Assert(vos.DescriptorsClosed(), "file-closed")
}

// HRecentLine: a recent login has the time and the host its line holds.
//
//verif:prop C07
func HRecentLine() {
	hn := vrt.Case("hostlen", 0, vrt.Bound(8, 40))
	host := string(vrt.Bytes("host", hn, hn, 33, 126))
	tail := []string{" ", "", " x"}[vrt.Case("tail", 0, 2)]
	r, err := pttbbs.NewLoginRecentRecord(clock + " " + host + tail)
	vrt.Assert(err == nil, "reads")
	vrt.Assert((moment{2021, 1, 9, 10, 8, 56}).is(r.LoginStartTime), "time")
	vrt.Assert(r.FromHost == host, "host")
}

// HRecentTime: the time of a recent login is the one its line holds.
//
//verif:prop C07
func HRecentTime() {
	m := when()
	r, err := pttbbs.NewLoginRecentRecord(m.text() + " h ")
	vrt.Assert(err == nil, "reads")
	vrt.Assert(m.is(r.LoginStartTime), "time")
}

// HRecentJunk: malformed lines never crash the reader.
//
//verif:prop C07
func HRecentJunk() {
	text := []byte(clock + " h ")
	if vrt.Case("how", 0, 1) == 0 {
		cut := vrt.Case("at", 0, 22)
		vrt.Assume(cut < len(text))
		_, err := pttbbs.NewLoginRecentRecord(string(text[:cut]))
		if cut < 20 {
			vrt.Assert(err != nil, "cut-reported")
		}
		return
	}
	at := vrt.Case("at", 0, 22)
	vrt.Assume(at < len(text))
	text[at] = vrt.U8("c")
	_, err := pttbbs.NewLoginRecentRecord(string(text))
	vrt.Observe("err", err != nil)
}

// HRecentFile: the entries of a file come in file order, and whatever fails is reported.
//
//verif:prop C07
func HRecentFile() {
	n := vrt.Case("lines", 0, vrt.Bound(2, 3))
	text := ""
	var hosts []string
	bad := false
	for i := 0; i < n; i++ {
		nm := two(i)
		host := string(vrt.Bytes("h"+nm, 3, 3, 48, 126))
		hosts = append(hosts, host)
		switch vrt.Case("form"+nm, 0, 3) {
		case 0:
			text += clock + " " + host + " \n"
		case 1:
			text += clock + " " + host + "\n"
		case 2:
			text += "\n"
			bad = true
		case 3:
			text += (clock + " " + host)[:vrt.Case("cut"+nm, 1, 2)*7] + "\n"
			bad = true
		}
	}
	vos.Put(path, []byte(text))
	faults := vrt.Case("fault", 0, 3)
	nr := 0
	fired := false
	vos.OnRead = func(p string, m int) (int, error) {
		nr++
		if nr == faults {
			fired = true
			return 0, syscall.EIO
		}
		if faults == 3 && m > 5 {
			return 5, nil
		}
		return m, nil
	}
	exited := false
	var got []*pttbbs.LoginRecentRecord
	var err error
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(vos.ExitPanic); !ok {
					panic(r)
				}
				exited = true
			}
		}()
		got, err = pttbbs.OpenLoginRecentFile(path)
	}()
	vos.OnRead = nil
	vrt.Assert(!exited, "process-survives")
	vrt.Observe("err", err != nil)
	if fired {
		vrt.Assert(err != nil, "failure-reported")
	}
	if !fired && !bad {
		vrt.Assert(err == nil, "no-spurious-error")
	}
	if err == nil && !bad {
		vrt.Assert(len(got) == n, "one-entry-per-line")
		for i := range got {
			vrt.Assert(got[i].FromHost == hosts[i], "entries-in-order")
		}
	}
	vrt.Assert(vos.DescriptorsClosed(), "file-closed")
}

// HLoginOpenFaults: a history that cannot be opened is an error.
//
//verif:prop C07
func HLoginOpenFaults() {
	if vrt.Case("have", 0, 1) == 1 {
		vos.Put(path, []byte("x"))
		vos.Before = func(op, p string) error {
			if op == "open" {
				return syscall.EACCES
			}
			return nil
		}
	}
	_, err := pttbbs.OpenBadLoginFile(path)
	vrt.Assert(err != nil, "open-failure-reported")
	_, err = pttbbs.OpenLoginRecentFile(path)
	vrt.Assert(err != nil, "open-failure-reported")
}
