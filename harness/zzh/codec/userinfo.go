package codec

import (
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"github.com/Ptt-official-app/go-bbs/zzh/h"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

var uinTexts = []h.Span{{16, 13}, {29, 24}, {53, 27}, {3422, 11}, {3435, 13}}

func uinNums() []h.Span {
	l := []h.Span{{0, 4}, {4, 4}, {8, 4}, {12, 4}, {80, 4}, {84, 2}, {86, 2}, {89, 1}, {90, 2}, {92, 4}, {96, 2},
		{100, 1024}, {1128, 1024}, {2156, 128}, {2288, 1}, {2292, 1000}, {3395, 1}, {3398, 2}, {3400, 4}, {3404, 1}, {3406, 2},
		{3409, 1}, {3410, 2}, {3412, 4}, {3416, 4}, {3420, 1}, {3421, 1}, {3433, 1}, {3448, 1}, {3450, 2}, {3452, 2}, {3454, 2},
		{3456, 2}, {3458, 2}, {3460, 2}, {3462, 2}, {3464, 2}, {3466, 2}, {3468, 2}, {3472, 4}, {3476, 4}, {3480, 4}}
	return l
}

var uinBools = []int{3392, 3393, 3394, 3396, 3434}

func uinCompare(u *pttbbs.UserInfoCache, raw []byte, txt []string) {
	vrt.Assert(uint32(u.SockAddr) == h.U32(raw, 8), "sockaddr")
	vrt.Assert(u.UserLevel == h.U32(raw, 12), "userlevel")
	vrt.Assert(gs(u.DarkChess, raw, 84, 86, 90), "dark")
	vrt.Assert(u.AngelPause == raw[89], "angelpause")
	vrt.Assert(uint32(u.FriendTotal) == h.U32(raw, 92), "friendtotal")
	vrt.Assert(uint16(u.NumFriends) == h.U16(raw, 96), "numfriends")
	ok := true
	for i := range u.MyFriend {
		if uint32(u.MyFriend[i]) != h.U32(raw, 100+4*i) {
			ok = false
		}
	}
	vrt.Assert(ok && len(u.MyFriend) == 256, "myfriend")
	ok = true
	for i := range u.FriendOnline {
		if u.FriendOnline[i] != h.U32(raw, 1128+4*i) {
			ok = false
		}
	}
	vrt.Assert(ok && len(u.FriendOnline) == 256, "friendonline")
	ok = true
	for i := range u.Reject {
		if uint32(u.Reject[i]) != h.U32(raw, 2156+4*i) {
			ok = false
		}
	}
	vrt.Assert(ok && len(u.Reject) == 32, "reject")
	vrt.Assert(u.MsgCount == raw[2288], "msgcount")
	ok = true
	for i := range u.Msgs {
		if string(u.Msgs[i]) != string(raw[2292+100*i:2392+100*i]) {
			ok = false
		}
	}
	vrt.Assert(ok && len(u.Msgs) == 10, "msgs")
	vrt.Assert(u.Birth == (raw[3392] != 0), "birth")
	vrt.Assert(u.Active == (raw[3393] != 0), "active")
	vrt.Assert(u.Invisible == (raw[3394] != 0), "invisible")
	vrt.Assert(u.Mode == raw[3395], "mode")
	vrt.Assert(u.Pager == (raw[3396] != 0), "pager")
	vrt.Assert(gs(u.Conn6, raw, 3398, 3406, 3410), "conn6")
	vrt.Assert(u.LastAct.Unix() == int64(h.U32(raw, 3400)), "lastact")
	vrt.Assert(u.Alerts == raw[3404], "alerts")
	vrt.Assert(u.Signature == raw[3409], "signature")
	vrt.Assert(uint32(u.DestUID) == h.U32(raw, 3412), "destuid")
	vrt.Assert(uint32(u.DestUIP) == h.U32(raw, 3416), "destuip")
	vrt.Assert(u.SockActive == raw[3420], "sockactive")
	vrt.Assert(u.InChat == raw[3421], "inchat")
	vrt.Assert(u.ChatID == txt[3], "chatid")
	vrt.Assert(u.LockMode == raw[3433], "lockmode")
	vrt.Assert(u.Turn == (raw[3434] != 0), "turn")
	vrt.Assert(u.MateID == txt[4], "mateid")
	vrt.Assert(u.Color == raw[3448], "color")
	vrt.Assert(gs(u.Five, raw, 3450, 3452, 3454), "five")
	vrt.Assert(gs(u.ChineseChess, raw, 3456, 3458, 3460), "chinesechess")
	vrt.Assert(u.ChessEloRating == h.U16(raw, 3462), "elo")
	vrt.Assert(gs(u.GoChess, raw, 3464, 3466, 3468), "go")
	vrt.Assert(u.WithMe == h.U32(raw, 3472), "withme")
}

// HUserInfoCodec: every field of an online-user record is read from and written to its own place in
// userinfo_t, and nothing else is written.
//
//verif:prop C04
func HUserInfoCodec() {
	big := vrt.Case("big5", 0, 1)
	raw := h.Raw("r", 3484, uinTexts)
	if big == 1 {
		h.Put(raw, 29, h.BigB)
	}
	txt := []string{}
	for _, s := range uinTexts {
		txt = append(txt, h.Text(raw, s))
	}
	u := pttbbs.UnmarshalUserInfo(raw)
	vrt.Assert(u != nil, "decodes")
	uinCompare(u, raw, txt)
	vrt.Observe("elo", u.ChessEloRating)
	vrt.Observe("mate", u.MateID)
	out := u.MarshalBinary()
	vrt.Assert(len(out) == 3484, "length")
	nums := uinNums()
	want := h.Canon(raw, uinTexts, nums, uinBools)
	h.Same(out, want, uinTexts, "enc-text")
	h.Same(out, want, nums, "enc")
	bools := []h.Span{}
	for _, o := range uinBools {
		bools = append(bools, h.Span{Off: o, N: 1})
	}
	h.Same(out, want, bools, "enc-bool")
	h.Gaps(out, want, uinTexts, nums, bools)
	u2 := pttbbs.UnmarshalUserInfo(out)
	uinCompare(u2, raw, txt)
}
