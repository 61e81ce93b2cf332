// Package codec holds the checks of the record codecs.
package codec

import (
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"github.com/Ptt-official-app/go-bbs/zzh/h"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

var brdTexts = []h.Span{{0, 13}, {13, 49}, {62, 39}, {108, 1}, {172, 33}, {205, 1}}

var brdNums = []h.Span{{104, 4}, {109, 1}, {110, 1}, {112, 4}, {116, 1}, {117, 1}, {119, 1}, {120, 4}, {124, 4},
	{128, 4}, {132, 4}, {136, 8}, {144, 8}, {152, 4}, {156, 4}, {160, 4}, {164, 4}, {168, 4}, {206, 1}, {207, 1},
	{208, 1}, {212, 4}}

func split(s string) []string {
	if s == "" {
		return []string{}
	}
	out := []string{""}
	for i := 0; i < len(s); i++ {
		if s[i] == '/' {
			out = append(out, "")
		} else {
			out[len(out)-1] += string([]byte{s[i]})
		}
	}
	return out
}

func brdCompare(b *pttbbs.BoardHeader, raw []byte, txt []string) {
	vrt.Assert(b.BoardID() == txt[0], "name")
	vrt.Assert(b.Title() == txt[1], "title")
	vrt.Assert(b.ChessCountry == txt[3], "chesscountry")
	vrt.Assert(b.PostType == txt[4], "posttype")
	vrt.Assert(b.PostTypeF == txt[5], "posttypef")
	vrt.Assert(b.Brdattr == h.U32(raw, 104), "attr")
	vrt.Assert(b.VoteLimitPosts == raw[109], "vote-limit-posts")
	vrt.Assert(b.VoteLimitLogins == raw[110], "vote-limit-logins")
	vrt.Assert(b.BUpdate.Unix() == int64(h.U32(raw, 112)), "bupdate")
	vrt.Assert(b.PostLimitPosts == raw[116], "post-limit-posts")
	vrt.Assert(b.PostLimitLogins == raw[117], "post-limit-logins")
	vrt.Assert(b.BVote == raw[119], "bvote")
	vrt.Assert(b.VTime.Unix() == int64(h.U32(raw, 120)), "vtime")
	vrt.Assert(b.Level == h.U32(raw, 124), "level")
	vrt.Assert(b.PermReload.Unix() == int64(h.U32(raw, 128)), "permreload")
	vrt.Assert(uint32(b.Gid) == h.U32(raw, 132), "gid")
	vrt.Assert(len(b.Next) == 2 && uint32(b.Next[0]) == h.U32(raw, 136) && uint32(b.Next[1]) == h.U32(raw, 140), "next")
	vrt.Assert(len(b.FirstChild) == 2 && uint32(b.FirstChild[0]) == h.U32(raw, 144) && uint32(b.FirstChild[1]) == h.U32(raw, 148), "firstchild")
	vrt.Assert(uint32(b.Parent) == h.U32(raw, 152), "parent")
	vrt.Assert(uint32(b.ChildCount) == h.U32(raw, 156), "childcount")
	vrt.Assert(uint32(b.Nuser) == h.U32(raw, 160), "nuser")
	vrt.Assert(uint32(b.PostExpire) == h.U32(raw, 164), "postexpire")
	vrt.Assert(b.EndGamble.Unix() == int64(h.U32(raw, 168)), "endgamble")
	vrt.Assert(b.FastRecommendPause == raw[206], "fastrecommendpause")
	vrt.Assert(b.VoteLimitBadPost == raw[207], "vote-limit-badpost")
	vrt.Assert(b.PostLimitBadPost == raw[208], "post-limit-badpost")
	vrt.Assert(b.SRexpire.Unix() == int64(h.U32(raw, 212)), "srexpire")
}

func brdTxt(raw []byte) []string {
	txt := []string{}
	for _, s := range brdTexts {
		txt = append(txt, h.Text(raw, s))
	}
	return txt
}

// HBoardCodec: every field of a board header is read from and written to its own place in
// boardheader_t, and an encoder writes nothing else.
//
//verif:prop C02
func HBoardCodec() {
	big := vrt.Case("big5", 0, 3)
	raw := h.Raw("r", 256, brdTexts)
	pos := []int{-1, 0, 13, 172}[big]
	idx := []int{-1, 0, 1, 4}[big]
	if pos >= 0 {
		h.Put(raw, pos, h.BigB)
	}
	txt := brdTxt(raw)
	if pos >= 0 {
		txt[idx] = h.BigU + txt[idx][len(h.BigB):]
	}
	b, err := pttbbs.UnmarshalBoardHeader(raw)
	vrt.Assert(err == nil && b != nil, "decodes")
	brdCompare(b, raw, txt)
	vrt.Observe("title", b.Title())
	vrt.Observe("upd", b.BUpdate.Unix())
	out, err := b.MarshalBinary()
	vrt.Assert(err == nil && len(out) == 256, "length")
	want := h.Canon(raw, brdTexts, brdNums, nil)
	h.Same(out, want, brdTexts, "enc-text")
	h.Same(out, want, brdNums, "enc")
	h.Gaps(out, want, brdTexts, brdNums)
	b2, err := pttbbs.UnmarshalBoardHeader(out)
	vrt.Assert(err == nil, "decodes-again")
	brdCompare(b2, raw, txt)
}

// HBoardEncodeLong: encoding a header whose texts do not fit writes nothing outside the text fields.
//
//verif:prop C02
func HBoardEncodeLong() {
	b := pttbbs.NewBoardHeader()
	name := vrt.Str("name", 0, 20, 1, 127)
	title := vrt.Str("title", 0, 60, 1, 127)
	pt := vrt.Str("pt", 0, 40, 1, 127)
	b.SetBoardID(name)
	b.SetTitle(title)
	b.PostType = pt
	b.Brdattr = vrt.U32("attr")
	out, err := b.MarshalBinary()
	vrt.Assert(err == nil && len(out) == 256, "length")
	chk := func(s h.Span, t string, label string) {
		ok := true
		for i := 0; i < s.N; i++ {
			c := byte(0)
			if i < len(t) {
				c = t[i]
			}
			if out[s.Off+i] != c {
				ok = false
			}
		}
		vrt.Assert(ok, label)
	}
	chk(brdTexts[0], name, "name-field")
	chk(brdTexts[1], title, "title-field")
	chk(brdTexts[4], pt, "posttype-field")
	chk(brdTexts[2], "", "bm-field")
	vrt.Assert(h.U32(out, 104) == b.Brdattr, "attr")
	vrt.Assert(out[205] == 0 && out[206] == 0 && out[207] == 0 && out[208] == 0, "after-posttype")
}
