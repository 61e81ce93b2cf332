package codec

import (
	"time"

	bbs "github.com/Ptt-official-app/go-bbs/formosabbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"github.com/Ptt-official-app/go-bbs/zzh/h"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

var filTexts = []h.Span{{0, 28}, {34, 14}, {48, 6}, {54, 65}}
var filNums = []h.Span{{28, 4}, {33, 1}, {120, 4}, {124, 1}}

func filCompare(f *pttbbs.FileHeader, raw []byte, txt []string) {
	vrt.Assert(f.Filename() == txt[0], "filename")
	vrt.Assert(f.Owner() == txt[1], "owner")
	vrt.Assert(f.Date() == txt[2], "date")
	vrt.Assert(f.Title() == txt[3], "title")
	vrt.Assert(f.Modified().Unix() == int64(h.U32(raw, 28)), "modified")
	vrt.Assert(f.Recommend() == int(int8(raw[33])), "recommend")
	vrt.Assert(f.Filemode == raw[124], "filemode")
	vrt.Assert(f.IsVotePost() == (raw[124]&0x40 != 0), "isvotepost")
	if raw[124]&0x40 != 0 {
		vrt.Assert(f.Posts == raw[120] && f.Logins == raw[121] && f.Regtime == raw[122] && f.Badpost == raw[123], "votelimits")
	} else {
		vrt.Assert(uint32(f.Money()) == h.U32(raw, 120), "money")
		vrt.Assert(uint32(f.AnnoUID) == h.U32(raw, 120), "annouid")
	}
}

// HFileHeaderCodec: every field of an article header is read from and written to its own place in
// fileheader_t, and nothing else is written.
//
//verif:prop C03
func HFileHeaderCodec() {
	big := vrt.Case("big5", 0, 1)
	raw := h.Raw("r", 128, filTexts)
	if big == 1 {
		h.Put(raw, 54, h.BigB)
	}
	txt := []string{}
	for _, s := range filTexts {
		txt = append(txt, h.Text(raw, s))
	}
	if big == 1 {
		txt[3] = h.BigU + txt[3][len(h.BigB):]
	}
	f, err := pttbbs.NewFileHeaderWithByte(raw)
	vrt.Assert(err == nil && f != nil, "decodes")
	filCompare(f, raw, txt)
	vrt.Observe("title", f.Title())
	vrt.Observe("modified", f.Modified().Unix())
	vrt.Observe("money", f.Money())
	out, err := f.MarshalToByte()
	vrt.Assert(err == nil && len(out) == 128, "length")
	want := h.Canon(raw, filTexts, filNums, nil)
	h.Same(out, want, filTexts, "enc-text")
	h.Same(out, want, filNums, "enc")
	h.Gaps(out, want, filTexts, filNums)
	f2, err := pttbbs.NewFileHeaderWithByte(out)
	vrt.Assert(err == nil, "decodes-again")
	filCompare(f2, raw, txt)
}

// HFileHeaderSetters: a header built through its setters is stored field by field; texts that do not
// fit stay inside their fields.
//
//verif:prop C03
func HFileHeaderSetters() {
	f := pttbbs.NewFileHeader()
	name := vrt.Str("name", 0, 36, 1, 127)
	owner := vrt.Str("owner", 0, 18, 1, 127)
	date := vrt.Str("date", 0, 9, 1, 127)
	title := vrt.Str("title", 0, 72, 1, 127)
	t := vrt.U32("time")
	rec := vrt.U8("rec")
	f.SetFilename(name)
	f.SetOwner(owner)
	f.SetDate(date)
	f.SetTitle(title)
	f.SetModified(time.Unix(int64(t), 0))
	f.AddRecommend(int8(rec))
	vrt.Assert(f.Filename() == name && f.Owner() == owner && f.Date() == date && f.Title() == title, "set-get")
	vrt.Assert(f.Modified().Unix() == int64(t), "set-modified")
	vrt.Assert(f.Recommend() == int(int8(rec)), "set-recommend")
	out, err := f.MarshalToByte()
	vrt.Assert(err == nil && len(out) == 128, "length")
	for k, s := range []string{name, owner, date, title} {
		sp := filTexts[k]
		ok := true
		for i := 0; i < sp.N; i++ {
			c := byte(0)
			if i < len(s) {
				c = s[i]
			}
			if out[sp.Off+i] != c {
				ok = false
			}
		}
		vrt.Assert(ok, []string{"filename-field", "owner-field", "date-field", "title-field"}[k])
	}
	vrt.Assert(h.U32(out, 28) == t && out[33] == rec, "numbers")
	for _, o := range []int{32, 119, 120, 121, 122, 123, 124, 125, 126, 127} {
		vrt.Assert(out[o] == 0, "gap")
	}
}

// HFormosaHeader: every field of a FormosaBBS article header is read at its own place.
//
//verif:prop C28
func HFormosaHeader() {
	texts := []h.Span{{0, 44}, {80, 72}, {160, 67}}
	big := vrt.Case("big5", 0, 1)
	raw := h.Raw("r", 248, texts)
	if big == 1 {
		h.Put(raw, 160, h.BigB)
	}
	title := h.Text(raw, texts[2])
	if big == 1 {
		title = h.BigU + title[len(h.BigB):]
	}
	f, err := bbs.NewFomosaBBSFileHeaderWithByte(raw)
	vrt.Assert(err == nil && f != nil, "decodes")
	vrt.Assert(f.Filename == h.Text(raw, texts[0]), "filename")
	vrt.Assert(f.Owner == h.Text(raw, texts[1]), "owner")
	vrt.Assert(f.Title == title, "title")
	vrt.Assert(f.Modified.Unix() == int64(h.U32(raw, 152)), "modified")
	vrt.Assert(uint32(f.Postno) == h.U32(raw, 72), "postno")
	vrt.Observe("title", f.Title)
	vrt.Observe("postno", f.Postno)
}
