// Package board checks the queries of a board.
package board

import (
	bbs "github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"github.com/Ptt-official-app/go-bbs/zzh/h"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

func dec(n uint32) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for n > 0 {
		s = string([]byte{byte('0' + n%10)}) + s
		n /= 10
	}
	return s
}

func header(attr uint32) *pttbbs.BoardHeader {
	raw := make([]byte, 256)
	raw[104], raw[105], raw[106], raw[107] = byte(attr), byte(attr>>8), byte(attr>>16), byte(attr>>24)
	b, err := pttbbs.UnmarshalBoardHeader(raw)
	vrt.Assert(err == nil, "decodes")
	return b
}

// HBoardAttr: every attribute of a board is exactly its own bit.
//
//verif:prop C06
func HBoardAttr() {
	a := vrt.U32("attr")
	b := header(a)
	chk := func(got bool, bit uint, label string) {
		vrt.Assert(got == (a>>bit&1 == 1), label)
	}
	chk(b.IsNoCount(), 1, "no-count")
	chk(b.IsGroupBoard(), 3, "group-board")
	chk(b.IsHide(), 4, "hide")
	chk(b.IsPostMask(), 5, "post-mask")
	chk(b.IsAnonymous(), 6, "anonymous")
	chk(b.IsDefaultAnonymous(), 7, "default-anonymous")
	chk(b.IsNoCredit(), 8, "no-credit")
	chk(b.IsVoteBoard(), 9, "vote-board")
	chk(b.IsWarnEL(), 10, "warn-el")
	chk(b.IsTop(), 11, "top")
	chk(b.IsNoRecommend(), 12, "no-recommend")
	chk(b.IsAngelAnonymous(), 13, "angel-anonymous")
	chk(b.IsBMCount(), 14, "bm-count")
	chk(b.IsIsSymbolic(), 15, "symbolic")
	chk(b.IsNoBoo(), 16, "no-boo")
	chk(b.IsRestrictedPost(), 18, "restricted-post")
	chk(b.IsGuestPost(), 19, "guest-post")
	chk(b.IsCooldown(), 20, "cooldown")
	chk(b.IsCPLog(), 21, "cplog")
	chk(b.IsNoFastRecommend(), 22, "no-fast-recommend")
	chk(b.IsIPLogRecommend(), 23, "iplog-recommend")
	chk(b.IsOver18(), 24, "over18")
	chk(b.IsNoReply(), 25, "no-reply")
	chk(b.IsAlignedComment(), 26, "aligned-comment")
	chk(b.IsNoSelfDeletePost(), 27, "no-self-delete-post")
	chk(b.IsBMMaskContent(), 28, "bm-mask-content")
	chk(b.IsClass(), 3, "is-class")
}

// HBoardInfo: the limits, the class and the moderators of a board are those stored.
//
//verif:prop C06
func HBoardInfo() {
	raw := make([]byte, 256)
	n := vrt.Case("bm", 0, vrt.Bound(6, 9))
	bm := vrt.Bytes("m", n, n, 32, 126)
	copy(raw[62:], bm)
	posts, logins, bad := vrt.U8("posts"), vrt.U8("logins"), vrt.U8("bad")
	raw[116], raw[117], raw[208] = posts, logins, bad
	// the vote limits lie next to the post limits
	copy(raw[109:], vrt.Bytes("v", 2, 2, 0, 255))
	raw[207] = vrt.U8("vbad")
	b, err := pttbbs.UnmarshalBoardHeader(raw)
	vrt.Assert(err == nil, "decodes")
	vrt.Assert(b.GetPostLimitPosts() == posts && b.GetPostLimitLogins() == logins && b.GetPostLimitBadPost() == bad, "post-limits")
	var i bbs.BoardRecordInfo = b
	vrt.Assert(i.GetPostLimitPosts() == posts, "post-limits")
	got := b.BM()
	if n == 0 {
		vrt.Assert(len(got) == 0, "moderators")
		return
	}
	// joining the moderators with the separator gives the stored text and none contains it
	joined := ""
	clean := true
	for k, m := range got {
		if k > 0 {
			joined += "/"
		}
		joined += m
		for j := 0; j < len(m); j++ {
			if m[j] == '/' {
				clean = false
			}
		}
	}
	vrt.Assert(joined == string(bm) && clean, "moderators")
}

// HBoardModerators: moderators of every length are listed in order.
//
//verif:prop C06
func HBoardModerators() {
	raw := make([]byte, 256)
	k := vrt.Case("count", 1, vrt.Bound(3, 5))
	var want []string
	bm := ""
	for i := 0; i < k; i++ {
		nm := string([]byte{byte('0' + i)})
		n := []int{1, 12, 4, 2, 7, 0}[vrt.Case("len"+nm, 0, vrt.Bound(3, 5))]
		s := string(vrt.Bytes("m"+nm, n, n, 48, 126))
		if i > 0 {
			bm += "/"
		}
		bm += s
		want = append(want, s)
	}
	vrt.Assume(len(bm) > 0 && len(bm) <= 38)
	copy(raw[62:], bm)
	b, err := pttbbs.UnmarshalBoardHeader(raw)
	vrt.Assert(err == nil, "decodes")
	got := b.BM()
	vrt.Assert(len(got) == len(want), "moderators")
	for i := range want {
		vrt.Assert(got[i] == want[i], "moderators")
	}
}

// HBoardClass: the class id of a board is its group number.
//
//verif:prop C06
func HBoardClass() {
	g := []uint32{0, 1, 9, 10, 255, 256, 4095, 65536, 123456789, 0x7fffffff}[vrt.Case("gid", 0, 9)]
	raw := make([]byte, 256)
	raw[132], raw[133], raw[134], raw[135] = byte(g), byte(g>>8), byte(g>>16), byte(g>>24)
	copy(raw[136:], vrt.Bytes("n", 24, 24, 0, 255))
	b, err := pttbbs.UnmarshalBoardHeader(raw)
	vrt.Assert(err == nil, "decodes")
	vrt.Assert(b.ClassID() == dec(g), "class-id")
	var r bbs.BoardRecord = b
	vrt.Assert(r.ClassID() == dec(g), "class-id")
}

var _ = h.Cstr
