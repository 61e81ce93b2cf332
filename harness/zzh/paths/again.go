package paths

import (
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

// HPathsAgain: what a path was before does not matter to the next, also where both are made of the same letters.
//
//verif:prop C14
func HPathsAgain() {
	n := vrt.Bound(4, 6)
	s := string(vrt.Bytes("s", n, n, 33, 126))
	for k := 0; k < 3; k++ {
		nm := string([]byte{byte('0' + k%2)})
		i := vrt.Case("home"+nm, 0, n-1)
		j := vrt.Case("id"+nm, 1, n)
		if j <= i {
			vrt.Assume(false)
		}
		home, id, file := s[:i], s[i:j], s[j:]
		dir := "/" + first(id) + "/" + id + "/"
		p, err := pttbbs.GetUserFavoritePath(home, id)
		same(p, err, home+"/home"+dir+".fav", "favorites")
		p, err = pttbbs.GetUserDraftPath(home, id, file)
		same(p, err, home+"/home"+dir+"buf."+file, "draft")
		p, err = pttbbs.GetUserMailPath(home, id, file)
		same(p, err, home+"/home"+dir+file, "mail")
		p, err = pttbbs.GetLoginRecentPath(home, id)
		same(p, err, home+"/home"+dir+"logins.recent", "recent")
		p, err = pttbbs.GetPasswdsPath(home)
		same(p, err, home+"/.PASSWDS", "passwds")
		p, err = pttbbs.GetBoardPath(home)
		same(p, err, home+"/.BRD", "boards")
		p, err = pttbbs.GetBoardArticlesDirectoryPath(home, id)
		same(p, err, home+"/boards"+dir+".DIR", "articles")
		p, err = pttbbs.GetBoardArticleFilePath(home, id, file)
		same(p, err, home+"/boards"+dir+file, "article")
		p, err = pttbbs.GetBoardNameFilePath(home, id)
		same(p, err, home+"/boards"+dir+".Name", "name")
		ids, sub := []string{}, ""
		if file != "" {
			ids, sub = []string{file}, file+"/"
		}
		if len(file) > 1 && k == 1 {
			ids, sub = []string{file[:1], file[1:]}, file[:1]+"/"+file[1:]+"/"
		}
		p, err = pttbbs.GetBoardTreasuresDirectoryPath(home, id, ids)
		same(p, err, home+"/man/boards"+dir+sub+".DIR", "treasures")
		p, err = pttbbs.GetBoardTreasureFilePath(home, id, ids, "f")
		same(p, err, home+"/man/boards"+dir+sub+"f", "treasure")
	}
}
