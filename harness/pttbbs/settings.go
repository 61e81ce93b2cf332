package pttbbs

import (
	"github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

// HUserSettings: every setting of a user is the documented bit of that user's flags.
//
//verif:prop C06
func HUserSettings() {
	n := vrt.Case("users", 1, vrt.Bound(2, 3))
	var ids []string
	var flags []uint32
	userRecs = nil
	for i := 0; i < n; i++ {
		k := string([]byte{byte('0' + i)})
		id := vrt.Str("id"+k, 1, 3, 33, 126)
		for _, o := range ids {
			vrt.Assume(o != id)
		}
		f := vrt.U32("flags" + k)
		raw := make([]byte, 512)
		copy(raw[4:], id)
		raw[76], raw[77], raw[78], raw[79] = byte(f), byte(f>>8), byte(f>>16), byte(f>>24)
		u, err := UnmarshalUserec(raw)
		vrt.Assert(err == nil, "decodes")
		ids = append(ids, id)
		flags = append(flags, f)
		userRecs = append(userRecs, bbs.UserRecord(u))
	}
	k := vrt.Case("of", 0, 2)
	vrt.Assume(k < n)
	f := flags[k]
	g, err := getUserFlagAllByID(ids[k])
	vrt.Assert(err == nil, "found")
	on := func(bit uint) bool { return f>>bit&1 == 1 }
	vrt.Assert(g.favNohilight == on(0), "fav-no-hilight")
	vrt.Assert(g.favAddnew == on(1), "fav-add-new")
	vrt.Assert(g.dbanner == on(6), "adbanner")
	vrt.Assert(g.dbannerUsong == on(7), "adbanner-usong")
	vrt.Assert(g.dbcsAware == on(9), "dbcs-aware")
	vrt.Assert(g.dbcsNointresc == on(10), "dbcs-nointresc")
	vrt.Assert(g.dbcsDropRepeat == on(11), "dbcs-drop-repeat")
	vrt.Assert(g.noModmark == on(12), "no-modmark")
	vrt.Assert(g.coloredModmark == on(13), "colored-modmark")
	vrt.Assert(g.defBackup == on(16), "def-backup")
	vrt.Assert(g.newAngelPager == on(17), "new-angel-pager")
	vrt.Assert(g.rejOuttamail == on(18), "rej-outtamail")
	vrt.Assert(g.secureLogin == on(19), "secure-login")
	vrt.Assert(g.menuLightbar == on(24), "menu-lightbar")
	vrt.Assert(g.cursorASCII == on(25), "cursor-ascii")
	other := vrt.Str("other", 0, 3, 33, 126)
	for _, o := range ids {
		vrt.Assume(o != other)
	}
	_, err = getUserFlagAllByID(other)
	vrt.Assert(err != nil, "unknown-user-reported")
}

// HUserSettingEach: so does the getter of each single setting.
//
//verif:prop C06
func HUserSettingEach() {
	f := vrt.U32("flags")
	raw := make([]byte, 512)
	raw[76], raw[77], raw[78], raw[79] = byte(f), byte(f>>8), byte(f>>16), byte(f>>24)
	u, err := UnmarshalUserec(raw)
	vrt.Assert(err == nil, "decodes")
	chk := func(got bool, bit uint, label string) { vrt.Assert(got == (f>>bit&1 == 1), label) }
	chk(getFavNoHilightByUserrec(u), 0, "fav-no-hilight")
	chk(getFavAddNewByUserrec(u), 1, "fav-add-new")
	chk(getAdbannerByUserrec(u), 6, "adbanner")
	chk(getAdbannerUsongByUserrec(u), 7, "adbanner-usong")
	chk(getDbcsAwareByUserrec(u), 9, "dbcs-aware")
	chk(getDbcsNointrescByUserrec(u), 10, "dbcs-nointresc")
	chk(getDbcsDropRepeatByUserrec(u), 11, "dbcs-drop-repeat")
	chk(getFavNoModMarkByUserrec(u), 12, "no-modmark")
	chk(getColoredModMarkByUserrec(u), 13, "colored-modmark")
	chk(getDefBackupByUserrec(u), 16, "def-backup")
	chk(getNewAngelPagerByUserrec(u), 17, "new-angel-pager")
	chk(getRejOuttamailByUserrec(u), 18, "rej-outtamail")
	chk(getSecureLoginByUserrec(u), 19, "secure-login")
	chk(getMenuLightBarByUserrec(u), 24, "menu-lightbar")
	chk(getCursorASCIIByUserrec(u), 25, "cursor-ascii")
}
