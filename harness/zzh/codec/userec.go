package codec

import (
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"github.com/Ptt-official-app/go-bbs/zzh/h"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

var usrTexts = []h.Span{{4, 13}, {17, 20}, {37, 24}, {61, 14}, {104, 16}, {128, 50}, {178, 50}, {228, 39}, {284, 40}, {456, 14}}
var usrBig = []int{0, 1, 2, 5, 6, 7, 8}

var usrNums = []h.Span{{0, 4}, {76, 4}, {84, 4}, {88, 4}, {92, 4}, {96, 4}, {100, 4}, {120, 4}, {271, 1}, {272, 1}, {276, 4},
	{392, 4}, {396, 4}, {400, 4}, {404, 4}, {408, 4}, {412, 4}, {418, 2}, {420, 2}, {422, 2}, {424, 2}, {426, 2}, {428, 2},
	{430, 2}, {432, 2}, {434, 2}, {436, 2}, {440, 2}, {442, 2}, {444, 2}, {446, 2}, {448, 2}, {450, 1}, {451, 1}, {453, 1},
	{454, 2}, {470, 2}, {472, 4}, {476, 4}, {480, 4}}
var usrBools = []int{270, 273}

func gs(g pttbbs.GameScore, raw []byte, w, l, t int) bool {
	return g.Win == h.U16(raw, w) && g.Lose == h.U16(raw, l) && g.Tie == h.U16(raw, t)
}

func usrCompare(u *pttbbs.Userec, raw []byte, txt []string) {
	vrt.Assert(u.UserID() == txt[0], "userid")
	vrt.Assert(u.RealName() == txt[1], "realname")
	vrt.Assert(u.Nickname() == txt[2], "nickname")
	vrt.Assert(u.HashedPassword() == txt[3], "password")
	vrt.Assert(u.LastHost() == txt[4], "lasthost")
	vrt.Assert(u.Email == txt[5], "email")
	vrt.Assert(u.Address == txt[6], "address")
	vrt.Assert(u.Justify == txt[7], "justify")
	vrt.Assert(u.Career == txt[8], "career")
	vrt.Assert(u.MyAngel == txt[9], "myangel")
	vrt.Assert(u.Version == h.U32(raw, 0), "version")
	vrt.Assert(u.UserFlag() == h.U32(raw, 76), "userflag")
	vrt.Assert(u.UserLevel == h.U32(raw, 84), "userlevel")
	vrt.Assert(u.NumLoginDays() == int(h.U32(raw, 88)), "numlogindays")
	vrt.Assert(u.NumPosts() == int(h.U32(raw, 92)), "numposts")
	vrt.Assert(u.LastLogin().Unix() == int64(h.U32(raw, 100)), "lastlogin")
	vrt.Assert(u.Money() == int(int32(h.U32(raw, 120))), "money")
	vrt.Assert(u.Over18 == (raw[270] != 0), "over18")
	vrt.Assert(u.PagerUIType == raw[271], "pageruitype")
	vrt.Assert(u.Pager == raw[272], "pager")
	vrt.Assert(u.Invisible == (raw[273] != 0), "invisible")
	vrt.Assert(u.ExMailBox == h.U32(raw, 276), "exmailbox")
	vrt.Assert(u.Role == h.U32(raw, 392), "role")
	vrt.Assert(u.LastSeen.Unix() == int64(h.U32(raw, 396)), "lastseen")
	vrt.Assert(u.TimeSetAngel.Unix() == int64(h.U32(raw, 400)), "timesetangel")
	vrt.Assert(u.TimePlayAngel.Unix() == int64(h.U32(raw, 404)), "timeplayangel")
	vrt.Assert(u.LastSong.Unix() == int64(h.U32(raw, 408)), "lastsong")
	vrt.Assert(u.LoginView == h.U32(raw, 412), "loginview")
	vrt.Assert(u.ViolateLaw == h.U16(raw, 418), "violatelaw")
	vrt.Assert(gs(u.Five, raw, 420, 422, 424), "five")
	vrt.Assert(gs(u.ChineseChess, raw, 426, 428, 430), "chinesechess")
	vrt.Assert(gs(u.Conn6, raw, 432, 434, 436), "conn6")
	vrt.Assert(gs(u.GoChess, raw, 440, 442, 444), "go")
	vrt.Assert(gs(u.DarkChess, raw, 446, 448, 454), "dark")
	vrt.Assert(u.UaVersion == raw[450], "uaversion")
	vrt.Assert(u.Signature == raw[451], "signature")
	vrt.Assert(u.BadPost == raw[453], "badpost")
	vrt.Assert(u.ChessEloRating == h.U16(raw, 470), "elo")
	vrt.Assert(u.WithMe == h.U32(raw, 472), "withme")
	vrt.Assert(u.TimeRemoveBadPost.Unix() == int64(h.U32(raw, 476)), "timeremovebadpost")
	vrt.Assert(u.TimeViolateLaw.Unix() == int64(h.U32(raw, 480)), "timeviolatelaw")
}

// HUserecCodec: every field of an account is read from and written to its own place in userec_t, and
// nothing else is written.
//
//verif:prop C01
func HUserecCodec() {
	big := vrt.Case("big5", 0, 6)
	raw := h.Raw("r", 512, usrTexts)
	k := usrBig[big]
	if big > 0 {
		h.Put(raw, usrTexts[k].Off, h.BigB)
	}
	txt := []string{}
	for _, s := range usrTexts {
		txt = append(txt, h.Text(raw, s))
	}
	if big > 0 {
		txt[k] = h.BigU + txt[k][len(h.BigB):]
	}
	u, err := pttbbs.UnmarshalUserec(raw)
	vrt.Assert(err == nil && u != nil, "decodes")
	usrCompare(u, raw, txt)
	vrt.Observe("nick", u.Nickname())
	vrt.Observe("money", u.Money())
	out, err := u.MarshalBinary()
	vrt.Assert(err == nil && len(out) == 512, "length")
	want := h.Canon(raw, usrTexts, usrNums, usrBools)
	h.Same(out, want, usrTexts, "enc-text")
	h.Same(out, want, usrNums, "enc")
	bools := []h.Span{{270, 1}, {273, 1}}
	h.Same(out, want, bools, "enc-bool")
	h.Gaps(out, want, usrTexts, usrNums, bools)
	u2, err := pttbbs.UnmarshalUserec(out)
	vrt.Assert(err == nil, "decodes-again")
	usrCompare(u2, raw, txt)
}
