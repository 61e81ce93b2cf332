package shm

import (
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"github.com/Ptt-official-app/go-bbs/zzverif/vos"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

// layout is SHM_t of pttstruct.h as far as the accessors go.
type layout struct {
	version, userid, nextInHash, money, cooldown, hashHead, number, loaded, uinfo int
}

func place(s *pttbbs.MemoryMappingSetting) (l layout) {
	at := 8 // version, size
	l.userid = at
	at += s.MaxUsers*(s.IDLen+1) + s.IDLen + 1
	if a := s.AlignmentBytes; a > 1 {
		for at%a != 0 {
			at++
		}
	}
	l.nextInHash = at
	at += 4*s.MaxUsers + 4
	l.money = at
	at += 4*s.MaxUsers + 4
	if s.UseCoolDown {
		l.cooldown = at
		at += 4 * s.MaxUsers
	}
	at += 4
	l.hashHead = at
	for i := 0; i < 1<<uint(s.HashBits); i++ {
		at += 4
	}
	at += 4
	l.number = at
	l.loaded = at + 4
	l.uinfo = at + 8
	return
}

const uinfoSize = 3484

func setting() *pttbbs.MemoryMappingSetting {
	size := [][3]int{ // users, length of a name, bits of the hash
		{3, 12, 0}, {1, 1, 9}, {2, 12, 2}, {20, 7, 1},
		{50, 12, 16}, {7, 13, 5}, {0, 12, 4}, {100, 4, 0},
	}[vrt.Case("size", 0, vrt.Bound(3, 7))]
	return &pttbbs.MemoryMappingSetting{
		AlignmentBytes: []int{0, 1, 2, 4, 8}[vrt.Case("align", 0, 4)],
		MaxUsers:       size[0],
		IDLen:          size[1],
		HashBits:       size[2],
		UseCoolDown:    vrt.Case("cooldown", 0, 1) == 1,
	}
}

func le(b []byte, i int) uint32 {
	return uint32(b[i]) | uint32(b[i+1])<<8 | uint32(b[i+2])<<16 | uint32(b[i+3])<<24
}

// open makes a segment of n bytes, free from the places the accessors could reach, and opens it.
func open(s *pttbbs.MemoryMappingSetting, n int) (*pttbbs.Cache, []byte) {
	l := place(s)
	raw := make([]byte, n)
	free := func(name string, a, b int) {
		if b > n {
			b = n
		}
		if a < b {
			copy(raw[a:], vrt.Bytes(name, b-a, b-a, 0, 255))
		}
	}
	head := l.hashHead + 4
	free("head", 0, head)
	if l.number > head {
		free("number", l.number, l.uinfo)
	}
	for i := 0; l.uinfo+i*uinfoSize < n; i++ { // the numbers only: the texts stay empty
		p := l.uinfo + i*uinfoSize
		k := string(rune('a' + i))
		free("uid"+k, p, p+16)
		free("last"+k, p+uinfoSize-16, p+uinfoSize)
	}
	keep := append([]byte(nil), raw...)
	vos.Put("/m/shm", raw)
	c, err := pttbbs.NewCache("file:/m/shm", s)
	vrt.Assert(err == nil, "opens")
	vrt.Assume(err == nil)
	return c, keep
}

// HViews: every index in a whole segment, and outside.
//
//verif:prop C21
func HViews() {
	s := setting()
	l := place(s)
	c, raw := open(s, l.uinfo+vrt.Case("rest", 0, 1)*17)
	vrt.Assert(c.Version() == le(raw, 0), "version")
	uid := int(vrt.U64("uid"))
	if vrt.Case("inside", 0, 1) == 0 {
		vrt.Assume(uid < 0 || uid >= s.MaxUsers)
		vrt.Assert(c.UserID(uid) == "", "userid-outside")
		vrt.Assert(c.Money(uid) == 0, "money-outside")
		return
	}
	vrt.Assume(uid >= 0 && uid < s.MaxUsers)
	p := l.userid + uid*(s.IDLen+1)
	want := raw[p : p+s.IDLen+1]
	for i, ch := range want {
		if ch == 0 {
			want = want[:i]
			break
		}
	}
	vrt.Assert(c.UserID(uid) == string(want), "userid")
	vrt.Assert(c.Money(uid) == int32(le(raw, l.money+4*uid)), "money")
}

// HInfos: the entries of the table of sessions in the segment, and no other.
//
//verif:prop C21
func HInfos() {
	s := setting()
	l := place(s)
	k := vrt.Case("infos", 0, 2)
	c, raw := open(s, l.uinfo+k*uinfoSize+vrt.Case("rest", 0, 1)*17)
	if vrt.Case("inside", 0, 1) == 0 {
		uid := int(vrt.U64("uid"))
		vrt.Assume(uid < 0 || uid >= k)
		vrt.Assert(c.UserInfo(uid) == nil, "info-outside")
		return
	}
	for uid := 0; uid < k; uid++ {
		u := c.UserInfo(uid)
		vrt.Assert(u != nil, "info-inside")
		if u == nil {
			return
		}
		p := l.uinfo + uid*uinfoSize
		vrt.Assert(uint32(u.SockAddr) == le(raw, p+8) && u.UserLevel == le(raw, p+12), "info-start")
		vrt.Assert(u.WithMe == le(raw, p+uinfoSize-12), "info-end")
	}
}

// HShort: a segment shorter than the settings say has no entries behind its end.
//
//verif:prop C21
func HShort() {
	s := &pttbbs.MemoryMappingSetting{AlignmentBytes: 4, MaxUsers: 3, IDLen: 4}
	if vrt.Thorough() {
		s.IDLen, s.UseCoolDown = 12, true
	}
	l := place(s)
	n := vrt.Case("n", 1, vrt.Bound(80, 124))
	vrt.Assert(n <= l.uinfo, "bound-inside-the-layout")
	c, raw := open(s, n)
	if n >= 4 {
		vrt.Assert(c.Version() == le(raw, 0), "version")
	} else {
		vrt.Assert(c.Version() == 0, "version-outside")
	}
	for uid := 0; uid < s.MaxUsers; uid++ {
		got := c.UserID(uid)
		p := l.userid + uid*(s.IDLen+1)
		if p+s.IDLen+1 > n {
			vrt.Assert(got == "", "userid-outside")
		} else {
			want := raw[p : p+s.IDLen+1]
			for i, ch := range want {
				if ch == 0 {
					want = want[:i]
					break
				}
			}
			vrt.Assert(got == string(want), "userid")
		}
		m := c.Money(uid)
		if q := l.money + 4*uid; q+4 > n {
			vrt.Assert(m == 0, "money-outside")
		} else {
			vrt.Assert(m == int32(le(raw, q)), "money")
		}
	}
	vrt.Assert(c.UserInfo(int(vrt.U64("uid"))) == nil, "info-outside")
}

// HOpenError: a segment which cannot be opened is an error.
//
//verif:prop C21
func HOpenError() {
	conn := []string{"", "file:/m/no", "/m/no", "shmkey:x", "shmkey:77", "redis:/m/shm"}[vrt.Case("conn", 0, 5)]
	vos.Put("/m/shm", []byte("abcdefgh"))
	_, err := pttbbs.NewCache(conn, &pttbbs.MemoryMappingSetting{MaxUsers: 2, IDLen: 12})
	vrt.Assert(err != nil, "error-reported")
}

// HViewsLarge: the same in segments as large as those of a BBS, whose numbers do not fit into 16 bits.
//
//verif:prop C21
//verif:opts loop=6000000
func HViewsLarge() {
	size := [][3]int{{3000, 12, 0}, {12, 12, 16}, {6000, 12, 16}, {40000, 12, 16}, {150000, 12, 16}}[vrt.Case("size", 0, vrt.Bound(2, 4))]
	s := &pttbbs.MemoryMappingSetting{
		AlignmentBytes: []int{1, 2, 4, 8}[vrt.Case("align", 0, 3)],
		MaxUsers:       size[0],
		IDLen:          size[1],
		HashBits:       size[2],
		UseCoolDown:    vrt.Case("cooldown", 0, 1) == 1,
	}
	l := place(s)
	n := l.uinfo + 2*uinfoSize
	raw := make([]byte, n)
	uid := []int{0, s.MaxUsers / 2, s.MaxUsers - 1}[vrt.Case("uid", 0, 2)]
	p := l.userid + uid*(s.IDLen+1)
	id := vrt.Str("id", 3, 3, 'a', 'z')
	copy(raw[p:], id)
	copy(raw[l.money+4*uid:], vrt.Bytes("money", 4, 4, 0, 255))
	copy(raw[l.uinfo+uinfoSize+12:], vrt.Bytes("level", 4, 4, 0, 255))
	money, level := le(raw, l.money+4*uid), le(raw, l.uinfo+uinfoSize+12)
	vos.Put("/m/shm", raw)
	c, err := pttbbs.NewCache("file:/m/shm", s)
	vrt.Assert(err == nil, "opens")
	if err != nil {
		return
	}
	vrt.Assert(c.UserID(uid) == id, "userid")
	vrt.Assert(c.UserID(s.MaxUsers) == "" && c.UserID(-1) == "", "userid-outside")
	vrt.Assert(c.Money(uid) == int32(money), "money")
	vrt.Assert(c.Money(s.MaxUsers) == 0 && c.Money(-1) == 0, "money-outside")
	u := c.UserInfo(1)
	vrt.Assert(u != nil, "info-inside")
	if u != nil {
		vrt.Assert(u.UserLevel == level, "info")
	}
	vrt.Assert(c.UserInfo(2) == nil && c.UserInfo(-1) == nil, "info-outside")
}
