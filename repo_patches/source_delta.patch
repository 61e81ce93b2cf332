From 80ab12cc454c90c248a488375377d788361ddeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:38 +0000
Subject: [PATCH 01/51] fix: encode the role and the whole justify field of a
 user record

---
 pttbbs/passwd.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pttbbs/passwd.go b/pttbbs/passwd.go
index e0a365e..ed53623 100644
--- a/pttbbs/passwd.go
+++ b/pttbbs/passwd.go
@@ -322,7 +322,7 @@ func (u *Userec) MarshalBinary() ([]byte, error) {
 
 	copy(ret[PosOfPasswdEmail:PosOfPasswdEmail+EmailSize], utf8ToBig5UAOString(u.Email))
 	copy(ret[PosOfPasswdAddress:PosOfPasswdAddress+AddressSize], utf8ToBig5UAOString(u.Address))
-	copy(ret[PosOfPasswdJustify:PosOfPasswdJustify+RegistrationLength], utf8ToBig5UAOString(u.Justify))
+	copy(ret[PosOfPasswdJustify:PosOfPasswdJustify+RegistrationLength+1], utf8ToBig5UAOString(u.Justify))
 
 	if u.Over18 {
 		ret[PosOfPasswdOver18] = 1
@@ -342,7 +342,7 @@ func (u *Userec) MarshalBinary() ([]byte, error) {
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdExMailBox:PosOfPasswdExMailBox+4], u.ExMailBox)
 
 	copy(ret[PosOfPasswdCareer:PosOfPasswdCareer+CareerSize], utf8ToBig5UAOString(u.Career))
-
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdRole:PosOfPasswdRole+4], u.Role)
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastSeen:PosOfPasswdLastSeen+4], uint32(u.LastSeen.Unix()))
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeSetAngel:PosOfPasswdTimeSetAngel+4], uint32(u.TimeSetAngel.Unix()))
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimePlayAngel:PosOfPasswdTimePlayAngel+4], uint32(u.TimePlayAngel.Unix()))
-- 
2.43.0


From 47661221654fd510fa23ffe827132be21eef7524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:38 +0000
Subject: [PATCH 02/51] fix: place the game record of userinfo_t at its own
 bytes

---
 pttbbs/userinfo.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pttbbs/userinfo.go b/pttbbs/userinfo.go
index 156452a..82c8bcf 100644
--- a/pttbbs/userinfo.go
+++ b/pttbbs/userinfo.go
@@ -58,18 +58,18 @@ const (
 	PosOfUserInfoMateID   = PosOfUserInfoTurn + 1
 	PosOfUserInfoColor    = PosOfUserInfoMateID + IDLength + 1
 
-	PosOfUserInfoFiveWin        = PosOfUserInfoColor + 1
+	PosOfUserInfoFiveWin        = PosOfUserInfoColor + 1 + 1 // alignment
 	PosOfUserInfoFiveLose       = PosOfUserInfoFiveWin + 2
 	PosOfUserInfoFiveTie        = PosOfUserInfoFiveLose + 2
 	PosOfUserInfoChcWin         = PosOfUserInfoFiveTie + 2
 	PosOfUserInfoChcLose        = PosOfUserInfoChcWin + 2
-	PosOfUserInfoChcTie         = PosOfUserInfoFiveLose + 2
+	PosOfUserInfoChcTie         = PosOfUserInfoChcLose + 2
 	PosOfUserInfoChessEloRating = PosOfUserInfoChcTie + 2
 	PosOfUserInfoGoWin          = PosOfUserInfoChessEloRating + 2
 	PosOfUserInfoGoLose         = PosOfUserInfoGoWin + 2
 	PosOfUserInfoGoTie          = PosOfUserInfoGoLose + 2
 
-	PosOfUserInfoWithMe = PosOfUserInfoGoTie + 2
+	PosOfUserInfoWithMe = PosOfUserInfoGoTie + 2 + 2 // alignment
 	PosOfUserInfoBrcID  = PosOfUserInfoWithMe + 4
 
 	PosOfUserInfoWBTime = PosOfUserInfoBrcID + 4
-- 
2.43.0


From 55cb22fa681e66c9a2343901744c23c579aee013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:38 +0000
Subject: [PATCH 03/51] fix: end the moderators and post types of a board
 header at their first NUL

---
 pttbbs/board.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pttbbs/board.go b/pttbbs/board.go
index 4c6b1ea..d5054d6 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -275,11 +275,11 @@ func UnmarshalBoardHeader(data []byte) (*BoardHeader, error) {
 
 	ret.BrdName = big5uaoToUTF8String(bytes.Split(data[PosOfBoardName:PosOfBoardName+IDLength+1], []byte("\x00"))[0])
 	ret.title = big5uaoToUTF8String(bytes.Split(data[PosOfBoardTitle:PosOfBoardTitle+BoardTitleLength+1], []byte("\x00"))[0]) // Be careful about C-string end char \0
-	ret.bm = string(bytes.Trim(data[PosOfBM:PosOfBM+IDLength*3+3], "\x00"))
+	ret.bm = newStringFormCString(data[PosOfBM : PosOfBM+IDLength*3+3])
 	ret.Brdattr = binary.LittleEndian.Uint32(data[PosOfBrdAttr : PosOfBrdAttr+4])
 	ret.VoteLimitPosts = uint8(data[PosOfVoteLimitPosts])
 	ret.VoteLimitLogins = uint8(data[PosOfVoteLimitLogins])
-	ret.ChessCountry = string(bytes.Trim(data[PosOfChessCountry:PosOfChessCountry+1], "\x00"))
+	ret.ChessCountry = newStringFormCString(data[PosOfChessCountry : PosOfChessCountry+1])
 	bUpdateInt := binary.LittleEndian.Uint32(data[PosOfBUpdate : PosOfBUpdate+4])
 	ret.BUpdate = time.Unix(int64(bUpdateInt), 0)
 	ret.PostLimitPosts = uint8(data[PosOfPostLimitPosts])
@@ -302,8 +302,8 @@ func UnmarshalBoardHeader(data []byte) (*BoardHeader, error) {
 	ret.PostExpire = int32(binary.LittleEndian.Uint32(data[PosOfPostExpire : PosOfPostExpire+4]))
 	endGamble := binary.LittleEndian.Uint32(data[PosOfEndGamble : PosOfEndGamble+4])
 	ret.EndGamble = time.Unix(int64(endGamble), 0)
-	ret.PostType = big5uaoToUTF8String(bytes.Trim(data[PosOfPostType:PosOfPostType+33], "\x00"))
-	ret.PostTypeF = big5uaoToUTF8String(bytes.Trim(data[PosOfPostTypeF:PosOfPostTypeF+1], "\x00"))
+	ret.PostType = newStringFormBig5UAOCString(data[PosOfPostType : PosOfPostType+33])
+	ret.PostTypeF = newStringFormBig5UAOCString(data[PosOfPostTypeF : PosOfPostTypeF+1])
 
 	ret.FastRecommendPause = uint8(data[PosOfFastRecommendPause])
 	ret.VoteLimitBadPost = uint8(data[PosOfVoteLimitBadPost])
-- 
2.43.0


From 0c47edc89f01470edc9e527bb0cceb1a350e8390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:38 +0000
Subject: [PATCH 04/51] fix: end the texts of an article header at their first
 NUL

---
 pttbbs/file.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pttbbs/file.go b/pttbbs/file.go
index 98c5931..9750e37 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -27,7 +27,6 @@
 package pttbbs
 
 import (
-	"bytes"
 	"encoding/binary"
 	"io"
 	"log"
@@ -199,15 +198,15 @@ func UpdateFileHeaderFileRecord(filename string, index uint, fileHeader *FileHea
 func NewFileHeaderWithByte(data []byte) (*FileHeader, error) {
 
 	ret := FileHeader{}
-	ret.filename = string(bytes.Trim(data[PosOfFileHeaderFilename:+PosOfFileHeaderFilename+FileNameLength], "\x00"))
+	ret.filename = newStringFormCString(data[PosOfFileHeaderFilename : PosOfFileHeaderFilename+FileNameLength])
 
 	modifiedInt := binary.LittleEndian.Uint32(data[PosOfFileHeaderModified : PosOfFileHeaderModified+4])
 	ret.modified = time.Unix(int64(modifiedInt), 0)
 
 	ret.recommend = int8(data[PosOfFileHeaderRecommend])
-	ret.owner = string(bytes.Trim(data[PosOfFileHeaderOwner:PosOfFileHeaderOwner+IDLength+2], "\x00"))
-	ret.date = string(bytes.Trim(data[PosOfFileHeaderDate:PosOfFileHeaderDate+6], "\x00"))
-	ret.title = big5uaoToUTF8String(bytes.Trim(data[PosOfFileHeaderTitle:PosOfFileHeaderTitle+TitleLength+1], "\x00"))
+	ret.owner = newStringFormCString(data[PosOfFileHeaderOwner : PosOfFileHeaderOwner+IDLength+2])
+	ret.date = newStringFormCString(data[PosOfFileHeaderDate : PosOfFileHeaderDate+6])
+	ret.title = newStringFormBig5UAOCString(data[PosOfFileHeaderTitle : PosOfFileHeaderTitle+TitleLength+1])
 	// log.Println("PosOfUnionMulti:", PosOfUnionMulti, data[PosOfUnionMulti])
 
 	ret.money = int(binary.LittleEndian.Uint32(data[PosOfFileHeaderUnionMulti : PosOfFileHeaderUnionMulti+4]))
-- 
2.43.0


From 5d935e680d686b119de267bd8e2e5e0d3e4d9ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:38 +0000
Subject: [PATCH 05/51] fix: encode the mode and the money, vote limits or
 anonymous uid of an article header

---
 pttbbs/file.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pttbbs/file.go b/pttbbs/file.go
index 9750e37..a6e14ba 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -237,7 +237,19 @@ func (f *FileHeader) MarshalToByte() ([]byte, error) {
 	copy(ret[PosOfFileHeaderDate:PosOfFileHeaderDate+6], f.date)
 	copy(ret[PosOfFileHeaderTitle:PosOfFileHeaderTitle+TitleLength+1], utf8ToBig5UAOString(f.title))
 
-	// TODO: Check file mode for set Money or AnnoUID ... etc
+	switch {
+	case f.IsVotePost():
+		ret[PosOfFileHeaderUnionMulti+0] = f.VoteLimits.Posts
+		ret[PosOfFileHeaderUnionMulti+1] = f.VoteLimits.Logins
+		ret[PosOfFileHeaderUnionMulti+2] = f.VoteLimits.Regtime
+		ret[PosOfFileHeaderUnionMulti+3] = f.VoteLimits.Badpost
+	case f.Filemode&FileAnonymous != 0:
+		binary.LittleEndian.PutUint32(ret[PosOfFileHeaderUnionMulti:PosOfFileHeaderUnionMulti+4], uint32(f.AnnoUID))
+	default:
+		binary.LittleEndian.PutUint32(ret[PosOfFileHeaderUnionMulti:PosOfFileHeaderUnionMulti+4], uint32(f.money))
+	}
+
+	ret[PosOfFileHeaderFilemode] = f.Filemode
 
 	return ret, nil
 }
-- 
2.43.0


From 5521bee3a5a7b271c74d75964445b797a7a15194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:39 +0000
Subject: [PATCH 06/51] fix: end the texts of a FormosaBBS article header at
 their first NUL

---
 formosabbs/file.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/formosabbs/file.go b/formosabbs/file.go
index 3933660..02cfc2b 100644
--- a/formosabbs/file.go
+++ b/formosabbs/file.go
@@ -3,7 +3,6 @@ package bbs
 import (
 	"github.com/Ptt-official-app/go-bbs"
 
-	"bytes"
 	"encoding/binary"
 	"io"
 	"log"
@@ -73,16 +72,16 @@ func OpenFormosaBBSFileHeaderFile(filename string) ([]*FileHeader, error) {
 func NewFomosaBBSFileHeaderWithByte(data []byte) (*FileHeader, error) {
 
 	ret := FileHeader{}
-	ret.Filename = string(bytes.Trim(data[PosOfFileHeaderFilename:+PosOfFileHeaderFilename+44], "\x00"))
+	ret.Filename = bbs.CstrToString(data[PosOfFileHeaderFilename : PosOfFileHeaderFilename+44])
 
 	modifiedInt := binary.LittleEndian.Uint32(data[PosOfFileHeaderModified : PosOfFileHeaderModified+4])
 	// log.Println("modifiedInt:", modifiedInt, PosOfModified)
 	ret.Modified = time.Unix(int64(modifiedInt), 0)
 
 	// ret.Recommend = int8(data[PosOfRecommend])
-	ret.Owner = string(bytes.Trim(data[PosOfFileHeaderOwner:PosOfFileHeaderOwner+72], "\x00"))
+	ret.Owner = bbs.CstrToString(data[PosOfFileHeaderOwner : PosOfFileHeaderOwner+72])
 	// ret.Date = string(bytes.Trim(data[PosOfDate:PosOfDate+6], "\x00"))
-	ret.Title = bbs.Big5ToUtf8(bytes.Trim(data[PosOfFileHeaderTitle:PosOfFileHeaderTitle+67], "\x00"))
+	ret.Title = bbs.Big5ToUtf8(bbs.CstrToBytes(data[PosOfFileHeaderTitle : PosOfFileHeaderTitle+67]))
 	// // log.Println("PosOfUnionMulti:", PosOfUnionMulti, data[PosOfUnionMulti])
 
 	// ret.Money = int(binary.LittleEndian.Uint32(data[PosOfUnionMulti : PosOfUnionMulti+4]))
-- 
2.43.0


From 20815a361a4e711edd03c817d1ebcb1d752927fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:46 +0000
Subject: [PATCH 07/51] fix: report failed and truncated reads of record files
 instead of looping or inventing records

---
 formosabbs/file.go | 4 +++-
 pttbbs/board.go    | 4 +++-
 pttbbs/file.go     | 4 +++-
 pttbbs/passwd.go   | 4 +++-
 pttbbs/userinfo.go | 2 +-
 5 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/formosabbs/file.go b/formosabbs/file.go
index 02cfc2b..6a76230 100644
--- a/formosabbs/file.go
+++ b/formosabbs/file.go
@@ -50,10 +50,12 @@ func OpenFormosaBBSFileHeaderFile(filename string) ([]*FileHeader, error) {
 
 	for {
 		hdr := make([]byte, 248)
-		_, err := file.Read(hdr)
+		_, err := io.ReadFull(file, hdr)
 		// log.Println(len, err)
 		if err == io.EOF {
 			break
+		} else if err != nil {
+			return nil, err
 		}
 
 		f, err := NewFomosaBBSFileHeaderWithByte(hdr)
diff --git a/pttbbs/board.go b/pttbbs/board.go
index d5054d6..66afafa 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -179,10 +179,12 @@ func OpenBoardHeaderFile(filename string) ([]*BoardHeader, error) {
 
 	for {
 		hdr := make([]byte, BoardHeaderRecordLength)
-		_, err := file.Read(hdr)
+		_, err := io.ReadFull(file, hdr)
 		// log.Println(len, err)
 		if err == io.EOF {
 			break
+		} else if err != nil {
+			return nil, err
 		}
 
 		f, err := UnmarshalBoardHeader(hdr)
diff --git a/pttbbs/file.go b/pttbbs/file.go
index a6e14ba..18a079e 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -112,10 +112,12 @@ func OpenFileHeaderFile(filename string) ([]*FileHeader, error) {
 
 	for {
 		hdr := make([]byte, 128)
-		_, err := file.Read(hdr)
+		_, err := io.ReadFull(file, hdr)
 		// log.Println(len, err)
 		if err == io.EOF {
 			break
+		} else if err != nil {
+			return nil, err
 		}
 
 		f, err := NewFileHeaderWithByte(hdr)
diff --git a/pttbbs/passwd.go b/pttbbs/passwd.go
index ed53623..d751021 100644
--- a/pttbbs/passwd.go
+++ b/pttbbs/passwd.go
@@ -211,10 +211,12 @@ func OpenUserecFile(filename string) ([]*Userec, error) {
 
 	for {
 		buf := make([]byte, 512)
-		_, err := file.Read(buf)
+		_, err := io.ReadFull(file, buf)
 		// log.Println(len, buf, err)
 		if err == io.EOF {
 			break
+		} else if err != nil {
+			return nil, err
 		}
 
 		f, err := UnmarshalUserec(buf)
diff --git a/pttbbs/userinfo.go b/pttbbs/userinfo.go
index 82c8bcf..5a1191c 100644
--- a/pttbbs/userinfo.go
+++ b/pttbbs/userinfo.go
@@ -149,7 +149,7 @@ func OpenUserInfoCache(filename string) ([]*UserInfoCache, error) {
 	for {
 		buf := make([]byte, 3484)
 
-		_, err := file.Read(buf)
+		_, err := io.ReadFull(file, buf)
 		if err == io.EOF {
 			break
 		} else if err != nil {
-- 
2.43.0


From 2e56fcf8cbfdb59ecf43a8a7699516d119354d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:47 +0000
Subject: [PATCH 08/51] fix: close record files after reading them

---
 formosabbs/file.go | 1 +
 pttbbs/board.go    | 1 +
 pttbbs/passwd.go   | 1 +
 pttbbs/userinfo.go | 1 +
 4 files changed, 4 insertions(+)

diff --git a/formosabbs/file.go b/formosabbs/file.go
index 6a76230..6aab520 100644
--- a/formosabbs/file.go
+++ b/formosabbs/file.go
@@ -45,6 +45,7 @@ func OpenFormosaBBSFileHeaderFile(filename string) ([]*FileHeader, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
 
 	ret := []*FileHeader{}
 
diff --git a/pttbbs/board.go b/pttbbs/board.go
index 66afafa..dcdfa75 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -174,6 +174,7 @@ func OpenBoardHeaderFile(filename string) ([]*BoardHeader, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
 
 	ret := []*BoardHeader{}
 
diff --git a/pttbbs/passwd.go b/pttbbs/passwd.go
index d751021..ddd6827 100644
--- a/pttbbs/passwd.go
+++ b/pttbbs/passwd.go
@@ -206,6 +206,7 @@ func OpenUserecFile(filename string) ([]*Userec, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
 
 	ret := []*Userec{}
 
diff --git a/pttbbs/userinfo.go b/pttbbs/userinfo.go
index 5a1191c..f7476bd 100644
--- a/pttbbs/userinfo.go
+++ b/pttbbs/userinfo.go
@@ -143,6 +143,7 @@ func OpenUserInfoCache(filename string) ([]*UserInfoCache, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
 
 	ret := []*UserInfoCache{}
 
-- 
2.43.0


From bd022cad59b948c093ea2bc6a63c5f9905f3cc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:17 +0000
Subject: [PATCH 09/51] fix: refuse to remove a board record that does not
 exist

---
 pttbbs/board.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pttbbs/board.go b/pttbbs/board.go
index dcdfa75..e41e1d2 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -242,6 +242,14 @@ func RemoveBoardHeaderFileRecord(filename string, index int) error {
 		return err
 	}
 
+	info, err := fi.Stat()
+	if err != nil {
+		return fmt.Errorf("fi.Stat error: %v", err)
+	}
+	if index < 0 || int64(index) >= info.Size()/BoardHeaderRecordLength {
+		return fmt.Errorf("index %v out of range", index)
+	}
+
 	fo, err := os.OpenFile(filename, os.O_WRONLY, 0644)
 	if err != nil {
 		return fmt.Errorf("fo.OpenFile error: %v", err)
-- 
2.43.0


From 5198bc8d968a212ae051b9eb3f1d703563ff821a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:18 +0000
Subject: [PATCH 10/51] fix: report a failed truncation when removing a board
 record

---
 pttbbs/board.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pttbbs/board.go b/pttbbs/board.go
index e41e1d2..42eedb0 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -275,7 +275,10 @@ func RemoveBoardHeaderFileRecord(filename string, index int) error {
 		return fmt.Errorf("fo.Seek for SEEK_CUR error: %v", err)
 	}
 
-	fo.Truncate(size)
+	err = fo.Truncate(size)
+	if err != nil {
+		return fmt.Errorf("fo.Truncate error: %v", err)
+	}
 	filelock.Unlock(fi)
 	return nil
 
-- 
2.43.0


From 2b459b2228f796e4da3c43a1df92b1dd0bf807f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:11 +0000
Subject: [PATCH 11/51] fix: do not keep the tail of the previous content when
 writing an article

---
 pttbbs/pttbbs_write_article_connector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pttbbs/pttbbs_write_article_connector.go b/pttbbs/pttbbs_write_article_connector.go
index f1ae447..ed81b21 100644
--- a/pttbbs/pttbbs_write_article_connector.go
+++ b/pttbbs/pttbbs_write_article_connector.go
@@ -50,7 +50,7 @@ func (c *Connector) NewArticleRecord(filename, owner, date, title string) (bbs.A
 
 func (c *Connector) WriteBoardArticleFile(path string, content []byte) error {
 
-	f, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE, 0644)
+	f, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
 	if err != nil {
 		return fmt.Errorf("openfile: %w", err)
 
-- 
2.43.0


From af0cd9397b2d61c05774871a3b1f6961072144d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:12 +0000
Subject: [PATCH 12/51] fix: stop looking for an article file name when the
 file cannot be created

---
 pttbbs/pttbbs_write_article_connector.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pttbbs/pttbbs_write_article_connector.go b/pttbbs/pttbbs_write_article_connector.go
index ed81b21..b52378c 100644
--- a/pttbbs/pttbbs_write_article_connector.go
+++ b/pttbbs/pttbbs_write_article_connector.go
@@ -28,6 +28,9 @@ func (c *Connector) CreateBoardArticleFilename(boardID string) (filename string,
 		if err == nil {
 			break
 		}
+		if !os.IsExist(err) {
+			return filename, err
+		}
 
 		// TODO: Should log if can not lock file in first time, is system loading too heavy?
 
@@ -113,6 +116,9 @@ func (c *Connector) NewArticleRecordWithMap(args map[string]interface{}) (bbs.Ar
 		if err == nil {
 			break
 		}
+		if !os.IsExist(err) {
+			return nil, err
+		}
 	}
 	defer f.Close()
 
-- 
2.43.0


From 80ffb4f0316e1fe137bc9890c266d0490d341c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:13 +0000
Subject: [PATCH 13/51] fix: report a draft that cannot be read instead of
 returning an empty one

---
 pttbbs/draft.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pttbbs/draft.go b/pttbbs/draft.go
index 28b9c39..0a481d3 100644
--- a/pttbbs/draft.go
+++ b/pttbbs/draft.go
@@ -7,7 +7,10 @@ import (
 
 func (c *Connector) ReadUserDraft(filename string) ([]byte, error) {
 	if _, err := os.Stat(filename); err != nil {
-		return []byte{}, nil
+		if os.IsNotExist(err) {
+			return []byte{}, nil
+		}
+		return nil, err
 	}
 	return ioutil.ReadFile(filename)
 }
-- 
2.43.0


From ebfd6091820e4f39e4133d90931734d44e9d4a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:30 +0000
Subject: [PATCH 14/51] fix: report a favorites file too short for its version
 instead of panicking

---
 pttbbs/fav.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pttbbs/fav.go b/pttbbs/fav.go
index dbbe4d1..16960c5 100644
--- a/pttbbs/fav.go
+++ b/pttbbs/fav.go
@@ -202,6 +202,10 @@ func OpenFavFile(filename string) (*FavFile, error) {
 
 // UnmarshalFavFile parse data and return FavFile
 func UnmarshalFavFile(data []byte) (*FavFile, error) {
+	// data must at least has 2 bytes for Version
+	if len(data) < 2 {
+		return nil, ErrIndexOutOfBound
+	}
 	ret := &FavFile{}
 	size := 2
 	ret.Version = binary.LittleEndian.Uint16(data[0:size])
-- 
2.43.0


From e190e044aee5f4bdb0e135a8f203a6c71bc6445a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:32 +0000
Subject: [PATCH 15/51] fix: count the items of a favorites folder without
 wrapping around

---
 pttbbs/fav.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pttbbs/fav.go b/pttbbs/fav.go
index 16960c5..ce73dbe 100644
--- a/pttbbs/fav.go
+++ b/pttbbs/fav.go
@@ -250,13 +250,14 @@ func UnmarshalFavFolder(data []byte, startIndex int) (*FavFolder, int, error) {
 	ret.LineID = 0
 	ret.FolderID = 0
 
-	itemCount := ret.DataTail
+	// a sum of more than 65535 items does not fit in DataTail
+	itemCount := int(ret.NBoards) + int(ret.NFolders) + int(ret.NLines)
 	ret.FavItems = make([]*FavItem, itemCount)
 	var err error
 
 	// There are itemCount items, parse and insert them one by one
 	for itemCount > 0 {
-		n := len(ret.FavItems) - int(itemCount) // calculate index
+		n := len(ret.FavItems) - itemCount // calculate index
 		ret.FavItems[n], c, err = UnmarshalFavItem(data, c)
 		if err != nil {
 			return nil, 0, err
-- 
2.43.0


From 28a58aaf62b919ba969000660cb03ef84584633f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:34 +0000
Subject: [PATCH 16/51] fix: leave a favorite that points to no board unnamed
 instead of panicking

---
 pttbbs/pttbbs.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pttbbs/pttbbs.go b/pttbbs/pttbbs.go
index c979d26..2f8fec0 100644
--- a/pttbbs/pttbbs.go
+++ b/pttbbs/pttbbs.go
@@ -84,8 +84,12 @@ func appendBoardID(folder *FavFolder, brd []*BoardHeader) {
 
 		switch item.Item.(type) {
 		case *FavBoardItem:
-			bid := item.Item.(*FavBoardItem).BoardID - 1
-			item.Item.(*FavBoardItem).boardID = brd[bid].BrdName
+			// BoardID is the 1-based position of the board, it may point to no board at all
+			bid := item.Item.(*FavBoardItem).BoardID
+			if bid == 0 || uint64(bid) > uint64(len(brd)) {
+				continue
+			}
+			item.Item.(*FavBoardItem).boardID = brd[bid-1].BrdName
 		case *FavFolderItem:
 			appendBoardID(item.Item.(*FavFolderItem).ThisFolder, brd)
 		case *FavLineItem:
-- 
2.43.0


From bf119a82b0a0e8c860d87e487dc10ec58f47c157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:36 +0000
Subject: [PATCH 17/51] fix: report favorites that cannot be read instead of
 returning none

---
 pttbbs/pttbbs.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pttbbs/pttbbs.go b/pttbbs/pttbbs.go
index 2f8fec0..b1a9121 100644
--- a/pttbbs/pttbbs.go
+++ b/pttbbs/pttbbs.go
@@ -55,7 +55,10 @@ func (c *Connector) GetUserFavoriteRecordsPath(userID string) (string, error) {
 
 func (c *Connector) ReadUserFavoriteRecordsFile(filename string) ([]bbs.FavoriteRecord, error) {
 	if _, err := os.Stat(filename); err != nil {
-		return []bbs.FavoriteRecord{}, nil
+		if os.IsNotExist(err) {
+			return []bbs.FavoriteRecord{}, nil
+		}
+		return nil, fmt.Errorf("pttbbs: stat favorite file error: %w", err)
 	}
 
 	rec, err := OpenFavFile(filename)
-- 
2.43.0


From b9d6d48e9355c8a0b33a33d4533b357095bee3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:51 +0000
Subject: [PATCH 18/51] fix: report a bad login line that is too short instead
 of panicking

---
 pttbbs/bad_logins.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pttbbs/bad_logins.go b/pttbbs/bad_logins.go
index 9f3cf12..0db3434 100644
--- a/pttbbs/bad_logins.go
+++ b/pttbbs/bad_logins.go
@@ -108,18 +108,27 @@ func OpenBadLoginFile(filename string) ([]*LoginAttempt, error) {
 // UnmarshalText implements encoding.TextUnmarshaler to unmarshal text to the receiver
 func (l *LoginAttempt) UnmarshalText(text []byte) error {
 	str := string(text)
+	if len(str) == 0 {
+		return ErrInvalidLoginsBadFormat
+	}
 
 	idx := 0 // current index of str
 	// Handle Success and UserID
 	switch str[idx] {
 	case ' ':
 		idx++
+		if len(str) < idx+UserIDLength {
+			return ErrInvalidLoginsBadFormat
+		}
 		l.Success = true
 		// Next 12 is UserID
 		l.UserID = str[idx : idx+UserIDLength]
 		idx += UserIDLength
 	case '-':
 		idx++
+		if len(str) < idx+UserIDLength {
+			return ErrInvalidLoginsBadFormat
+		}
 		l.Success = false
 		l.UserID = str[idx : idx+UserIDLength]
 		idx += UserIDLength
@@ -132,6 +141,10 @@ func (l *LoginAttempt) UnmarshalText(text []byte) error {
 	}
 	l.UserID = strings.TrimSpace(l.UserID)
 	// Now idx points to the start of time
+	// which is followed by a space and the host
+	if len(str) < idx+len(loginStartTimeFormatString)+1 {
+		return ErrInvalidLoginsBadFormat
+	}
 	// TODO: do we need to consider timezone? This Parse returns UTC
 	t, err := time.Parse(loginStartTimeFormatString, str[idx:idx+len(loginStartTimeFormatString)])
 	if err != nil {
-- 
2.43.0


From 58f075152d288f1a8b2eaa1ba5718e58b32e5d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:53 +0000
Subject: [PATCH 19/51] fix: remove only the prefix of the host of a bad login,
 not every ? and @ it starts with

---
 pttbbs/bad_logins.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pttbbs/bad_logins.go b/pttbbs/bad_logins.go
index 0db3434..a9ac132 100644
--- a/pttbbs/bad_logins.go
+++ b/pttbbs/bad_logins.go
@@ -153,7 +153,7 @@ func (l *LoginAttempt) UnmarshalText(text []byte) error {
 	l.LoginStartTime = t
 	idx += len(loginStartTimeFormatString)
 
-	l.FromHost = strings.TrimLeft(str[idx+1:], fromHostPrefix)
+	l.FromHost = strings.TrimPrefix(str[idx+1:], fromHostPrefix)
 	return nil
 }
 
-- 
2.43.0


From 4ec6fc3a967d732c7ee9a0ef8c0e7d62ea2910f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:55 +0000
Subject: [PATCH 20/51] fix: write the user of a bad login whose id is one
 character long

---
 pttbbs/bad_logins.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pttbbs/bad_logins.go b/pttbbs/bad_logins.go
index a9ac132..fba182d 100644
--- a/pttbbs/bad_logins.go
+++ b/pttbbs/bad_logins.go
@@ -188,5 +188,5 @@ func (l *LoginAttempt) MarshalText() ([]byte, error) {
 // The difference between logins.bad between under BBSHOME and under User Dir is whether it contains
 // UserID
 func (l *LoginAttempt) IsUnderBbsHome() bool {
-	return len(l.UserID) > 1
+	return len(l.UserID) > 0
 }
-- 
2.43.0


From 7d89ef8b5d51622b18d5f7b7c838ead0ba6135d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:57 +0000
Subject: [PATCH 21/51] fix: report failed reads of login histories and close
 the files

---
 pttbbs/bad_logins.go   | 4 ++++
 pttbbs/login_recent.go | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/pttbbs/bad_logins.go b/pttbbs/bad_logins.go
index fba182d..12b510b 100644
--- a/pttbbs/bad_logins.go
+++ b/pttbbs/bad_logins.go
@@ -89,6 +89,7 @@ func OpenBadLoginFile(filename string) ([]*LoginAttempt, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
 
 	var ret []*LoginAttempt
 
@@ -102,6 +103,9 @@ func OpenBadLoginFile(filename string) ([]*LoginAttempt, error) {
 		}
 		ret = append(ret, a)
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
 	return ret, nil
 }
 
diff --git a/pttbbs/login_recent.go b/pttbbs/login_recent.go
index 6a6d677..815aaa7 100644
--- a/pttbbs/login_recent.go
+++ b/pttbbs/login_recent.go
@@ -35,6 +35,7 @@ func OpenLoginRecentFile(filename string) ([]*LoginRecentRecord, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
 
 	ret := []*LoginRecentRecord{}
 
@@ -51,7 +52,7 @@ func OpenLoginRecentFile(filename string) ([]*LoginRecentRecord, error) {
 	}
 
 	if err := scanner.Err(); err != nil {
-		log.Fatal(err)
+		return nil, err
 	}
 
 	return ret, nil
-- 
2.43.0


From 2feee006323515fbcbe46ae89f32228bc6e9532a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:10 +0000
Subject: [PATCH 22/51] fix: report an empty user or board id instead of
 panicking when building its path

---
 pttbbs/path.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/pttbbs/path.go b/pttbbs/path.go
index 276786b..413a88c 100644
--- a/pttbbs/path.go
+++ b/pttbbs/path.go
@@ -20,10 +20,16 @@
 package pttbbs
 
 import (
+	"errors"
 	"fmt"
 	"strings"
 )
 
+var (
+	ErrEmptyUserID  = errors.New("pttbbs: user id is empty")
+	ErrEmptyBoardID = errors.New("pttbbs: board id is empty")
+)
+
 // Get Passwd file path of system
 func GetPasswdsPath(workDirectory string) (string, error) {
 	return fmt.Sprintf("%s/.PASSWDS", workDirectory), nil
@@ -36,11 +42,17 @@ func GetBoardPath(workDirectory string) (string, error) {
 
 // Get Favorite file path of user
 func GetUserFavoritePath(workDirectory string, userID string) (string, error) {
+	if len(userID) == 0 {
+		return "", ErrEmptyUserID
+	}
 	return fmt.Sprintf("%s/home/%c/%s/.fav", workDirectory, userID[0], userID), nil
 }
 
 // Get Draft file path of user
 func GetUserDraftPath(workDirectory string, userID string, draftID string) (string, error) {
+	if len(userID) == 0 {
+		return "", ErrEmptyUserID
+	}
 	return fmt.Sprintf("%s/home/%c/%s/buf.%s", workDirectory, userID[0], userID, draftID), nil
 }
 
@@ -49,16 +61,25 @@ func GetUserDraftPath(workDirectory string, userID string, draftID string) (stri
 // user has permission for open this file. eg, .DIR file, so please check filename before call
 // this function.
 func GetUserMailPath(workDirectory string, userID string, filename string) (string, error) {
+	if len(userID) == 0 {
+		return "", ErrEmptyUserID
+	}
 	return fmt.Sprintf("%s/home/%c/%s/%s", workDirectory, userID[0], userID, filename), nil
 }
 
 // Get Login Recent file path of user
 func GetLoginRecentPath(workDirectory string, userID string) (string, error) {
+	if len(userID) == 0 {
+		return "", ErrEmptyUserID
+	}
 	return fmt.Sprintf("%s/home/%c/%s/logins.recent", workDirectory, userID[0], userID), nil
 }
 
 // Get Directory normal file path of board
 func GetBoardArticlesDirectoryPath(workDirectory string, boardID string) (string, error) {
+	if len(boardID) == 0 {
+		return "", ErrEmptyBoardID
+	}
 	return fmt.Sprintf("%s/boards/%c/%s/.DIR", workDirectory, boardID[0], boardID), nil
 }
 
@@ -67,6 +88,9 @@ func GetBoardArticlesDirectoryPath(workDirectory string, boardID string) (string
 // user has permission for open this file. eg, .DIR file, so please check filename before call
 // this function.
 func GetBoardArticleFilePath(workDirectory string, boardID string, filename string) (string, error) {
+	if len(boardID) == 0 {
+		return "", ErrEmptyBoardID
+	}
 	return fmt.Sprintf("%s/boards/%c/%s/%s", workDirectory, boardID[0], boardID, filename), nil
 }
 
@@ -75,12 +99,18 @@ func GetBoardArticleFilePath(workDirectory string, boardID string, filename stri
 // figure out each directory, eg: `["M.971228479.A", "M.1035338027.A"]` in formosa BBS or
 // `["D690", "D6C2", "D6D1"]` in pttbbs.
 func GetBoardTreasuresDirectoryPath(workDirectory string, boardID string, path []string) (string, error) {
+	if len(boardID) == 0 {
+		return "", ErrEmptyBoardID
+	}
 	path = append(path, "")
 	subPath := strings.Join(path, "/")
 	return fmt.Sprintf("%s/man/boards/%c/%s/%s.DIR", workDirectory, boardID[0], boardID, subPath), nil
 }
 
 func GetBoardTreasureFilePath(workDirectory string, boardID string, path []string, filename string) (string, error) {
+	if len(boardID) == 0 {
+		return "", ErrEmptyBoardID
+	}
 	path = append(path, "")
 	subPath := strings.Join(path, "/")
 	return fmt.Sprintf("%s/man/boards/%c/%s/%s%s", workDirectory, boardID[0], boardID, subPath, filename), nil
@@ -88,5 +118,8 @@ func GetBoardTreasureFilePath(workDirectory string, boardID string, path []strin
 
 // Get Directory digest file path of board
 func GetBoardNameFilePath(workDirectory string, boardID string) (string, error) {
+	if len(boardID) == 0 {
+		return "", ErrEmptyBoardID
+	}
 	return fmt.Sprintf("%s/boards/%c/%s/.Name", workDirectory, boardID[0], boardID), nil
 }
-- 
2.43.0


From 82a24f6c44b10c9897764bc532b8d2a529e9c912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:11 +0000
Subject: [PATCH 23/51] fix: do not write into the treasure path given by the
 caller

---
 pttbbs/path.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pttbbs/path.go b/pttbbs/path.go
index 413a88c..34ef13b 100644
--- a/pttbbs/path.go
+++ b/pttbbs/path.go
@@ -102,8 +102,7 @@ func GetBoardTreasuresDirectoryPath(workDirectory string, boardID string, path [
 	if len(boardID) == 0 {
 		return "", ErrEmptyBoardID
 	}
-	path = append(path, "")
-	subPath := strings.Join(path, "/")
+	subPath := strings.Join(append(append([]string{}, path...), ""), "/")
 	return fmt.Sprintf("%s/man/boards/%c/%s/%s.DIR", workDirectory, boardID[0], boardID, subPath), nil
 }
 
@@ -111,8 +110,7 @@ func GetBoardTreasureFilePath(workDirectory string, boardID string, path []strin
 	if len(boardID) == 0 {
 		return "", ErrEmptyBoardID
 	}
-	path = append(path, "")
-	subPath := strings.Join(path, "/")
+	subPath := strings.Join(append(append([]string{}, path...), ""), "/")
 	return fmt.Sprintf("%s/man/boards/%c/%s/%s%s", workDirectory, boardID[0], boardID, subPath, filename), nil
 }
 
-- 
2.43.0


From 368952f326250bc9483d4635f78f4b90d1245576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:26 +0000
Subject: [PATCH 24/51] fix: report a salt that is too short or out of range
 instead of panicking

---
 crypt/bbscrypt.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crypt/bbscrypt.go b/crypt/bbscrypt.go
index a0a02f4..45500a8 100644
--- a/crypt/bbscrypt.go
+++ b/crypt/bbscrypt.go
@@ -17,6 +17,9 @@ var (
 //	[]byte: encrypted passwd, should be the same as salt if salt is the expected-passwd-hash.
 //  error: err
 func Fcrypt(key []byte, salt []byte) ([]byte, error) {
+	if len(salt) < 2 || int(salt[0]) >= len(conSalt) || int(salt[1]) >= len(conSalt) {
+		return nil, ErrInvalidCrypt
+	}
 	passwdHash := [PASSLEN]byte{}
 	cFcrypt(key, salt, &passwdHash)
 	return passwdHash[:], nil
-- 
2.43.0


From 8e486431a1d0dd420a1139e30156c53104d87236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:27 +0000
Subject: [PATCH 25/51] fix: refuse the password of an account without a stored
 hash instead of panicking

---
 pttbbs/passwd.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pttbbs/passwd.go b/pttbbs/passwd.go
index ddd6827..f9dafe7 100644
--- a/pttbbs/passwd.go
+++ b/pttbbs/passwd.go
@@ -154,6 +154,10 @@ func (u *Userec) HashedPassword() string {
 // VerifyPassword will check user's password is OK. it will return null
 // when OK and error when there are something wrong
 func (u *Userec) VerifyPassword(password string) error {
+	// an account without a whole salt has no password that could be right
+	if len(u.password) < 2 {
+		return fmt.Errorf("password incorrect")
+	}
 	res, err := crypt.Fcrypt([]byte(password), []byte(u.password[:2]))
 	if err != nil {
 		return err
-- 
2.43.0


From db0443ae8f946a1b691a242afab063a661c6962c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:08 +0000
Subject: [PATCH 26/51] fix: keep the colons, spaces and times inside the text
 of a comment

---
 user_comment_record.go | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/user_comment_record.go b/user_comment_record.go
index 23beb45..accf366 100644
--- a/user_comment_record.go
+++ b/user_comment_record.go
@@ -95,6 +95,7 @@ func (r userCommentRecord) Filename() string {
 //  Return other error when data contains the ambiguous value which can't parse.
 func parseUserComment(data string) (owner string, ctime time.Time, comment string, err error) {
 	matches := userCommentPattern.FindStringSubmatch(data)
+	idx := userCommentPattern.FindStringSubmatchIndex(data)
 	// The 1st record is entire matched result of row.
 	// The 2nd record is group owner result, EX: "pichu".
 	const ownerIdx = 1
@@ -126,22 +127,8 @@ func parseUserComment(data string) (owner string, ctime time.Time, comment strin
 		return
 	}
 
-	//TODO: improve get comment
-	ownStr := ":"
-	commentTimeRemoveArr := strings.Split(commentStr, ctimeStr)
-	commentArr := strings.Split(commentTimeRemoveArr[0], ownStr)
-
-	for key, value := range commentArr {
-		//key 0 為使用者名稱，跳過
-		if key == 0 {
-			continue
-		}
-		comment += strings.TrimSpace(value)
-		//key 2 開始才會有重複冒號的問題
-		if key >= 2 {
-			comment += ":"
-		}
-	}
+	// the comment is what stands between the colon after the owner and the time
+	comment = strings.TrimSpace(data[idx[2*ownerIdx+1]+len(":") : idx[2*timeIdx]])
 
 	return owner, ctime, comment, nil
 }
-- 
2.43.0


From 09797cd8c3c98b7f40ca65709f5b54a2b02c3d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:10 +0000
Subject: [PATCH 27/51] fix: do not lose the comments of an article when one of
 its lines has an impossible time

---
 user_comment_record.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/user_comment_record.go b/user_comment_record.go
index accf366..74707a8 100644
--- a/user_comment_record.go
+++ b/user_comment_record.go
@@ -118,7 +118,8 @@ func parseUserComment(data string) (owner string, ctime time.Time, comment strin
 	ctimeStr := matches[timeIdx]
 	ctime, err = time.Parse("01/02 15:04", ctimeStr)
 	if err != nil {
-		return
+		// digits which are not a time do not make a comment
+		return "", time.Time{}, "", ErrNotUserComment
 	}
 
 	commentStr := matches[commentIdx]
-- 
2.43.0


From e868ef2d6390cd5156f7c4fe83dd42a99413cc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:12 +0000
Subject: [PATCH 28/51] fix: do not lose the comments which follow a very long
 line

---
 bbs.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bbs.go b/bbs.go
index 6db7b31..2465ab1 100644
--- a/bbs.go
+++ b/bbs.go
@@ -675,6 +675,8 @@ func (db *DB) GetBoardArticleCommentRecords(boardID string, ar ArticleRecord) (c
 
 	floorCnt := uint32(1)
 	scanner := bufio.NewScanner(strings.NewReader(string(content)))
+	// no line is too long
+	scanner.Buffer(nil, len(content)+1)
 	for scanner.Scan() {
 		l := FilterStringANSI(scanner.Text())
 		cr, err := NewUserCommentRecord(floorCnt, l, boardID, ar)
-- 
2.43.0


From 51d354fa659fba883ec8572cf077b69c0d2b40dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:14 +0000
Subject: [PATCH 29/51] fix: report a missing driver capability instead of
 panicking

---
 bbs.go | 55 ++++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/bbs.go b/bbs.go
index 2465ab1..e02ac8b 100644
--- a/bbs.go
+++ b/bbs.go
@@ -420,11 +420,20 @@ func (db *DB) ReadBoardTreasureFile(boardID string, treasuresID []string, filena
 }
 
 func (db *DB) NewBoardRecord(args map[string]interface{}) (BoardRecord, error) {
-	return db.connector.(WriteBoardConnector).NewBoardRecord(args)
+	c, ok := db.connector.(WriteBoardConnector)
+	if !ok {
+		return nil, fmt.Errorf("bbs: connector don't support WriteBoardConnector")
+	}
+	return c.NewBoardRecord(args)
 }
 
 func (db *DB) AddBoardRecord(brd BoardRecord) error {
 
+	c, ok := db.connector.(WriteBoardConnector)
+	if !ok {
+		return fmt.Errorf("bbs: connector don't support WriteBoardConnector")
+	}
+
 	path, err := db.connector.GetBoardRecordsPath()
 	if err != nil {
 		log.Println("bbs: open file error:", err)
@@ -432,7 +441,7 @@ func (db *DB) AddBoardRecord(brd BoardRecord) error {
 	}
 	log.Println("path:", path)
 
-	err = db.connector.(WriteBoardConnector).AddBoardRecordFileRecord(path, brd)
+	err = c.AddBoardRecordFileRecord(path, brd)
 	if err != nil {
 		log.Println("bbs: AddBoardRecordFileRecord error:", err)
 		return err
@@ -459,16 +468,25 @@ func (db *DB) RemoveBoardRecord(index uint) error {
 // CreateArticleRecord returns new ArticleRecord with new filename in boardID and owner, date and title.
 // This method will find a usable filename in board and occupy it.
 func (db *DB) CreateArticleRecord(boardID, owner, date, title string) (ArticleRecord, error) {
-	filename, err := db.connector.(WriteArticleConnector).CreateBoardArticleFilename(boardID)
+	c, ok := db.connector.(WriteArticleConnector)
+	if !ok {
+		return nil, fmt.Errorf("bbs: connector don't support WriteArticleConnector")
+	}
+	filename, err := c.CreateBoardArticleFilename(boardID)
 	if err != nil {
 		return nil, err
 	}
-	return db.connector.(WriteArticleConnector).NewArticleRecord(filename, owner, date, title)
+	return c.NewArticleRecord(filename, owner, date, title)
 }
 
 // AddArticleRecordFileRecord append article ArticleRecord to boardID
 func (db *DB) AddArticleRecordFileRecord(boardID string, article ArticleRecord) error {
 
+	c, ok := db.connector.(WriteArticleConnector)
+	if !ok {
+		return fmt.Errorf("bbs: connector don't support WriteArticleConnector")
+	}
+
 	path, err := db.connector.GetBoardArticleRecordsPath(boardID)
 	if err != nil {
 		log.Println("bbs: open file error:", err)
@@ -476,7 +494,7 @@ func (db *DB) AddArticleRecordFileRecord(boardID string, article ArticleRecord)
 	}
 	log.Println("path:", path)
 
-	return db.connector.(WriteArticleConnector).AddArticleRecordFileRecord(path, article)
+	return c.AddArticleRecordFileRecord(path, article)
 }
 
 // WriteBoardArticleFile writes content into filename in boardID
@@ -701,14 +719,19 @@ func (db *DB) GetBoardArticleCommentRecords(boardID string, ar ArticleRecord) (c
 
 func (db *DB) GetUserDrafts(userID, draftID string) (UserDraft, error) {
 
-	path, err := db.connector.(UserDraftConnector).GetUserDraftPath(userID, draftID)
+	c, ok := db.connector.(UserDraftConnector)
+	if !ok {
+		return nil, fmt.Errorf("bbs: connector don't support UserDraftConnector")
+	}
+
+	path, err := c.GetUserDraftPath(userID, draftID)
 	if err != nil {
 		log.Println("bbs: GetUserDraftPath error:", err)
 		return nil, err
 	}
 	log.Println("path:", path)
 
-	raw, err := db.connector.(UserDraftConnector).ReadUserDraft(path)
+	raw, err := c.ReadUserDraft(path)
 	if err != nil {
 		return nil, err
 	}
@@ -718,23 +741,33 @@ func (db *DB) GetUserDrafts(userID, draftID string) (UserDraft, error) {
 
 func (db *DB) DeleteUserDraft(userID, draftID string) error {
 
-	path, err := db.connector.(UserDraftConnector).GetUserDraftPath(userID, draftID)
+	c, ok := db.connector.(UserDraftConnector)
+	if !ok {
+		return fmt.Errorf("bbs: connector don't support UserDraftConnector")
+	}
+
+	path, err := c.GetUserDraftPath(userID, draftID)
 	if err != nil {
 		log.Println("bbs: GetUserDraftPath error:", err)
 		return err
 	}
 	log.Println("path:", path)
 
-	return db.connector.(UserDraftConnector).DeleteUserDraft(path)
+	return c.DeleteUserDraft(path)
 }
 
 func (db *DB) WriteUserDraft(userID, draftID string, draftContent UserDraft) error {
-	path, err := db.connector.(UserDraftConnector).GetUserDraftPath(userID, draftID)
+	c, ok := db.connector.(UserDraftConnector)
+	if !ok {
+		return fmt.Errorf("bbs: connector don't support UserDraftConnector")
+	}
+
+	path, err := c.GetUserDraftPath(userID, draftID)
 	if err != nil {
 		log.Println("bbs: GetUserDraftPath error:", err)
 		return err
 	}
 
 	log.Println("path:", path)
-	return db.connector.(UserDraftConnector).WriteUserDraft(path, draftContent.Raw())
+	return c.WriteUserDraft(path, draftContent.Raw())
 }
-- 
2.43.0


From 34607a498ad590c4a87c2a157b77c11a30d63e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:58 +0000
Subject: [PATCH 30/51] fix: keep the colons inside the location of a cache
 connection string

---
 cache/cache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index 4550242..27c5b70 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -14,7 +14,7 @@ type Cache interface {
 // NewCache returns Cache (SHM) by connectionString, connectionString indicate the shm location
 // with uri format  eg. shmkey:1228 or file:/tmp/ramdisk/bbs.shm
 func NewCache(connectionString string) (Cache, error) {
-	s := strings.Split(connectionString, ":")
+	s := strings.SplitN(connectionString, ":", 2)
 	if len(s) == 1 {
 		// default is mmap
 		return OpenMmap(s[0])
-- 
2.43.0


From 1fc75696b393eddad5d58d9aecf81cdcda1d1fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:00 +0000
Subject: [PATCH 31/51] fix: do not divide by zero when the alignment of the
 cache is not set

---
 pttbbs/cache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pttbbs/cache.go b/pttbbs/cache.go
index 312581b..5a05c1b 100644
--- a/pttbbs/cache.go
+++ b/pttbbs/cache.go
@@ -107,7 +107,7 @@ func (c *Cache) caculatePos() {
 
 	c.posOfNextInHash = (c.IDLen + 1) + c.posOfUserID + c.MaxUsers*(c.IDLen+1)
 	// Align
-	if c.posOfNextInHash%c.AlignmentBytes != 0 {
+	if c.AlignmentBytes > 1 && c.posOfNextInHash%c.AlignmentBytes != 0 {
 		padding := c.AlignmentBytes - c.posOfNextInHash%c.AlignmentBytes
 		c.posOfNextInHash += padding
 	}
-- 
2.43.0


From 658dde9f2aee23554c05d44ff3315b4c58d61750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:01 +0000
Subject: [PATCH 32/51] fix: set the size of userinfo_t so that Cache.UserInfo
 does not panic

---
 pttbbs/cache.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pttbbs/cache.go b/pttbbs/cache.go
index 5a05c1b..b7a0fac 100644
--- a/pttbbs/cache.go
+++ b/pttbbs/cache.go
@@ -66,6 +66,9 @@ type cachePos struct {
 	posOfBusyState int
 }
 
+// sizeOfUserInfo is the size of userinfo_t with NOKILLWATERBALL
+const sizeOfUserInfo = 3484
+
 type cacheLen struct {
 	lenOfUserInfo int
 }
@@ -124,6 +127,7 @@ func (c *Cache) caculatePos() {
 	c.posOfUserLoaded = c.posOfUserNumber + 4
 
 	c.posOfUserInfo = c.posOfUserLoaded + 4
+	c.lenOfUserInfo = sizeOfUserInfo
 
 	// TODO: other pos value
 	// 	c.posOfCooldownTime int
-- 
2.43.0


From ff7d63f9c1f0411869472e645f9806a5c50ad367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:03 +0000
Subject: [PATCH 33/51] fix: do not read outside of the cache or of the users
 in it

---
 pttbbs/cache.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pttbbs/cache.go b/pttbbs/cache.go
index b7a0fac..04a4467 100644
--- a/pttbbs/cache.go
+++ b/pttbbs/cache.go
@@ -319,19 +319,26 @@ func (c *Cache) Version() uint32 {
 // UserID returns userId string with specific uid, such as "SYSOP",
 // uid means the index in PASSWD file, start with 0.
 func (c *Cache) UserID(uid int) string {
-	// TODO: Check if it is out of range
 	s := c.posOfUserID + (c.IDLen+1)*uid
+	if uid < 0 || uid >= c.MaxUsers || s+c.IDLen+1 > len(c.Bytes()) {
+		return ""
+	}
 	return string(bytes.Split(c.Bytes()[s:s+c.IDLen+1], []byte("\x00"))[0])
 }
 
 // Money returns the money user have with specific uid, uid start with 0
 func (c *Cache) Money(uid int) int32 {
-	// TODO: Check if it is out of range
 	s := c.posOfMoney + 4*uid
+	if uid < 0 || uid >= c.MaxUsers || s+4 > len(c.Bytes()) {
+		return 0
+	}
 	return int32(binary.LittleEndian.Uint32(c.Bytes()[s : s+4]))
 }
 
 func (c *Cache) UserInfo(uid int) *UserInfoCache {
-	// TODO: Check if it is out of range
-	return UnmarshalUserInfo(c.Bytes()[c.posOfUserInfo+c.lenOfUserInfo*uid : c.posOfUserInfo+c.lenOfUserInfo*(uid+1)])
+	s := c.posOfUserInfo + c.lenOfUserInfo*uid
+	if uid < 0 || s+c.lenOfUserInfo > len(c.Bytes()) {
+		return nil
+	}
+	return UnmarshalUserInfo(c.Bytes()[s : s+c.lenOfUserInfo])
 }
-- 
2.43.0


From be8ff80d0f0cc7ef0f15faa9bcf8b985a9d1bbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:04 +0000
Subject: [PATCH 34/51] fix: let access tokens expire 30 minutes from now, not
 in 1970

---
 serverlet/route_token.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/serverlet/route_token.go b/serverlet/route_token.go
index 67ef4ae..d21744f 100644
--- a/serverlet/route_token.go
+++ b/serverlet/route_token.go
@@ -6,6 +6,7 @@ import (
 	"log"
 	"net/http"
 	"strings"
+	"time"
 
 	"github.com/Ptt-official-app/go-bbs"
 	"github.com/golang-jwt/jwt"
@@ -92,7 +93,7 @@ func getTokenFromRequest(r *http.Request) string {
 
 func newAccessTokenWithUsername(username string) string {
 	claims := &jwt.StandardClaims{
-		ExpiresAt: 30 * 60, // TODO: Setting me in config
+		ExpiresAt: time.Now().Add(30 * time.Minute).Unix(), // TODO: Setting me in config
 		// Issuer:    "test",
 		Subject: username,
 	}
-- 
2.43.0


From 635354b13de485d4b5b867c1a7a09a6ba04790fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:05 +0000
Subject: [PATCH 35/51] fix: stop bbstool when the database cannot be opened
 instead of panicking

---
 cmd/bbstool/articles.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/bbstool/articles.go b/cmd/bbstool/articles.go
index ba30bb7..de42e72 100644
--- a/cmd/bbstool/articles.go
+++ b/cmd/bbstool/articles.go
@@ -12,6 +12,7 @@ func showBoardArticleList() {
 	db, err := openDB()
 	if err != nil {
 		fmt.Println("openDB:", err)
+		return
 	}
 	inputArgs := parseArgsToMap(flag.Args())
 
@@ -37,6 +38,7 @@ func addBoardArticle() {
 	db, err := openDB()
 	if err != nil {
 		fmt.Println("openDB:", err)
+		return
 	}
 	inputArgs := parseArgsToMap(flag.Args())
 
@@ -104,6 +106,7 @@ func showBoardArticle() {
 	db, err := openDB()
 	if err != nil {
 		fmt.Println("openDB:", err)
+		return
 	}
 	inputArgs := parseArgsToMap(flag.Args())
 
-- 
2.43.0


From 19b9bf4ea84b18f55efea31280d81e32a40aef73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:06 +0000
Subject: [PATCH 36/51] fix: report an article list that bbstool cannot read

---
 cmd/bbstool/articles.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/bbstool/articles.go b/cmd/bbstool/articles.go
index de42e72..8361217 100644
--- a/cmd/bbstool/articles.go
+++ b/cmd/bbstool/articles.go
@@ -25,6 +25,10 @@ func showBoardArticleList() {
 	}
 
 	records, err := db.ReadBoardArticleRecordsFile(boardID)
+	if err != nil {
+		fmt.Println("ReadBoardArticleRecordsFile error:", err)
+		return
+	}
 
 	for _, r := range records {
 		if r.Filename() == "" {
-- 
2.43.0


From e3e080523821d5770a75454c7c66118391cbd519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:08 +0000
Subject: [PATCH 37/51] fix: ask for the user_id argument of bbstool instead of
 panicking without it

---
 cmd/bbstool/main.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cmd/bbstool/main.go b/cmd/bbstool/main.go
index 06e2c70..44a0956 100644
--- a/cmd/bbstool/main.go
+++ b/cmd/bbstool/main.go
@@ -220,7 +220,13 @@ func showuserarticlelist() {
 
 	args := parseArgsToMap(flag.Args())
 
-	records, err := bbsDB.GetUserArticleRecordFile(args["user_id"].(string))
+	userID, ok := args["user_id"].(string)
+	if !ok {
+		fmt.Println("please provide user_id argument")
+		return
+	}
+
+	records, err := bbsDB.GetUserArticleRecordFile(userID)
 	if err != nil {
 		fmt.Printf("showuserarticlelist: GetUserArticleRecordFile: %v\n", err)
 		return
@@ -249,7 +255,11 @@ func showusercommentlist() {
 	}
 
 	args := parseArgsToMap(flag.Args())
-	userID := args["user_id"].(string)
+	userID, ok := args["user_id"].(string)
+	if !ok {
+		fmt.Println("please provide user_id argument")
+		return
+	}
 
 	records, err := bbsDB.GetUserCommentRecordFile(userID)
 	if err != nil {
-- 
2.43.0


From fe084e35299db6a29ca755ff22334d814c7382cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:38 +0000
Subject: [PATCH 38/51] fix: do not overflow when the user is far outside of
 the cache

---
 pttbbs/cache.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pttbbs/cache.go b/pttbbs/cache.go
index 04a4467..c296780 100644
--- a/pttbbs/cache.go
+++ b/pttbbs/cache.go
@@ -336,9 +336,9 @@ func (c *Cache) Money(uid int) int32 {
 }
 
 func (c *Cache) UserInfo(uid int) *UserInfoCache {
-	s := c.posOfUserInfo + c.lenOfUserInfo*uid
-	if uid < 0 || s+c.lenOfUserInfo > len(c.Bytes()) {
+	if uid < 0 || uid >= (len(c.Bytes())-c.posOfUserInfo)/c.lenOfUserInfo {
 		return nil
 	}
+	s := c.posOfUserInfo + c.lenOfUserInfo*uid
 	return UnmarshalUserInfo(c.Bytes()[s : s+c.lenOfUserInfo])
 }
-- 
2.43.0


From 6df1e71cc091a7a527603efcca9c75496353c085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:48 +0000
Subject: [PATCH 39/51] fix: keep the host of a bad login line without user as
 it is

---
 pttbbs/bad_logins.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pttbbs/bad_logins.go b/pttbbs/bad_logins.go
index 12b510b..8916613 100644
--- a/pttbbs/bad_logins.go
+++ b/pttbbs/bad_logins.go
@@ -157,7 +157,11 @@ func (l *LoginAttempt) UnmarshalText(text []byte) error {
 	l.LoginStartTime = t
 	idx += len(loginStartTimeFormatString)
 
-	l.FromHost = strings.TrimPrefix(str[idx+1:], fromHostPrefix)
+	l.FromHost = str[idx+1:]
+	if str[0] != '[' {
+		// only the lines with a UserID have the prefix
+		l.FromHost = strings.TrimPrefix(l.FromHost, fromHostPrefix)
+	}
 	return nil
 }
 
-- 
2.43.0


From 91cb693828bfe8433967670e52229e01e3264022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:57 +0000
Subject: [PATCH 40/51] fix: resetting a seeded FNV hash restores its seed

---
 pttbbs/internal/fnv/fnv.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/pttbbs/internal/fnv/fnv.go b/pttbbs/internal/fnv/fnv.go
index 38988df..2e9dc5f 100644
--- a/pttbbs/internal/fnv/fnv.go
+++ b/pttbbs/internal/fnv/fnv.go
@@ -20,5 +20,24 @@ func New32aWith(offset uint32) hash.Hash32 {
 	b[7] = byte(offset & 0xFF)
 
 	h.(encoding.BinaryUnmarshaler).UnmarshalBinary(b)
-	return h
+	return &hash32a{h, b}
+}
+
+// hash32a is a 32-bit FNV-1a hash whose initial state is not the standard one.
+type hash32a struct {
+	hash.Hash32
+	initial []byte
+}
+
+// Reset resets the hash to its own initial state.
+func (h *hash32a) Reset() {
+	h.UnmarshalBinary(h.initial)
+}
+
+func (h *hash32a) MarshalBinary() ([]byte, error) {
+	return h.Hash32.(encoding.BinaryMarshaler).MarshalBinary()
+}
+
+func (h *hash32a) UnmarshalBinary(b []byte) error {
+	return h.Hash32.(encoding.BinaryUnmarshaler).UnmarshalBinary(b)
 }
-- 
2.43.0


From cd4308fa2b3fb45789d1b55eba975130576a8e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:11 +0000
Subject: [PATCH 41/51] fix: refuse shared memory keys which do not fit

---
 cache/cache.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cache/cache.go b/cache/cache.go
index 27c5b70..943b7b0 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -26,6 +26,10 @@ func NewCache(connectionString string) (Cache, error) {
 		if err != nil {
 			return nil, fmt.Errorf("atoi error: %w", err)
 		}
+		// a key_t has 32 bits, the rest of a larger number would be dropped
+		if int(int32(key)) != key && int(uint32(key)) != key {
+			return nil, fmt.Errorf("key out of range: %v", s[1])
+		}
 		return OpenKey(key)
 	case "file":
 		return OpenMmap(s[1])
-- 
2.43.0


From 4a0ba5f1ec14a76a5a934a69092e739cfe0a429b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:17 +0000
Subject: [PATCH 42/51] fix: do not panic on the version of a cache without
 room for it

---
 pttbbs/cache.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pttbbs/cache.go b/pttbbs/cache.go
index c296780..d5f151e 100644
--- a/pttbbs/cache.go
+++ b/pttbbs/cache.go
@@ -313,6 +313,9 @@ func NewCache(connectionString string, settings *MemoryMappingSetting) (*Cache,
 // 4d56e77 (2009/09 ~ )
 func (c *Cache) Version() uint32 {
 	// Should be 4842
+	if c.posOfVersion+4 > len(c.Bytes()) {
+		return 0
+	}
 	return binary.LittleEndian.Uint32(c.Bytes()[c.posOfVersion : c.posOfVersion+4])
 }
 
-- 
2.43.0


From 848f7ece4fa73b78613701754586f9876bcafdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:52 +0000
Subject: [PATCH 43/51] fix: lock files instead of pretending to

---
 filelock/filelock.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/filelock/filelock.go b/filelock/filelock.go
index 21d4e12..f0d99bd 100644
--- a/filelock/filelock.go
+++ b/filelock/filelock.go
@@ -1,13 +1,21 @@
 package filelock
 
+import (
+	"fmt"
+	"syscall"
+)
+
 type File interface{}
 
+// Lock waits until f, an open file such as *os.File, can be locked for writing. Only one open file of the
+// same file can hold this lock.
 func Lock(f File) error {
-	return nil
+	return flock(f, syscall.LOCK_EX)
 }
 
+// RLock waits until f can be locked for reading, that is until nobody holds it with Lock.
 func RLock(f File) error {
-	return nil
+	return flock(f, syscall.LOCK_SH)
 }
 
 func IsLock(f File) bool {
@@ -15,6 +23,20 @@ func IsLock(f File) bool {
 	return false
 }
 
+// Unlock releases the lock of f. Closing f releases it as well.
 func Unlock(f File) error {
-	return nil
+	return flock(f, syscall.LOCK_UN)
+}
+
+func flock(f File, how int) error {
+	file, ok := f.(interface{ Fd() uintptr })
+	if !ok {
+		return fmt.Errorf("filelock: %T has no file descriptor", f)
+	}
+	for {
+		err := syscall.Flock(int(file.Fd()), how)
+		if err != syscall.EINTR {
+			return err
+		}
+	}
 }
-- 
2.43.0


From 685a2055fe16ff59a7d456cf0e852492dba535c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:53 +0000
Subject: [PATCH 44/51] fix: do not empty an article which another writer holds
 the lock of

---
 pttbbs/pttbbs_write_article_connector.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pttbbs/pttbbs_write_article_connector.go b/pttbbs/pttbbs_write_article_connector.go
index b52378c..ade6a7f 100644
--- a/pttbbs/pttbbs_write_article_connector.go
+++ b/pttbbs/pttbbs_write_article_connector.go
@@ -53,7 +53,8 @@ func (c *Connector) NewArticleRecord(filename, owner, date, title string) (bbs.A
 
 func (c *Connector) WriteBoardArticleFile(path string, content []byte) error {
 
-	f, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
+	// the file is emptied only when it is locked
+	f, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE, 0644)
 	if err != nil {
 		return fmt.Errorf("openfile: %w", err)
 
@@ -66,6 +67,9 @@ func (c *Connector) WriteBoardArticleFile(path string, content []byte) error {
 	}
 	defer filelock.Unlock(f)
 
+	if err := f.Truncate(0); err != nil {
+		return err
+	}
 	if _, err := f.Write(content); err != nil {
 		return err
 	}
-- 
2.43.0


From 7804dce99d82e86252278486811740cb1e9a69a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:08 +0000
Subject: [PATCH 45/51] fix: lock the article that is appended to

---
 pttbbs/pttbss_append_new_line.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pttbbs/pttbss_append_new_line.go b/pttbbs/pttbss_append_new_line.go
index c2106c2..5a8d121 100644
--- a/pttbbs/pttbss_append_new_line.go
+++ b/pttbbs/pttbss_append_new_line.go
@@ -5,17 +5,22 @@ import (
 	"os"
 
 	"github.com/Ptt-official-app/go-bbs"
+	"github.com/Ptt-official-app/go-bbs/filelock"
 )
 
 func (c *Connector) AppendBoardArticleFile(filename string, content []byte) error {
-	// TODO: Lockfile
-
 	f, err := os.OpenFile(filename, os.O_APPEND|os.O_WRONLY, 0644)
 	if err != nil {
 		return fmt.Errorf("AppendNewLine: Cannot open file %s, err: %s", filename, err)
 	}
 	defer f.Close()
 
+	err = filelock.Lock(f)
+	if err != nil {
+		return fmt.Errorf("AppendNewLine: Cannot lock file %s, err: %w", filename, err)
+	}
+	defer filelock.Unlock(f)
+
 	_, err = f.Write(content)
 	if err != nil {
 		return fmt.Errorf("AppendNewLine: Write to file (%s) failed, err: %w", filename, err)
-- 
2.43.0


From 5a9ae221d2d6865c65c7a67353b46a9be63bc2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:04 +0000
Subject: [PATCH 46/51] fix: build without flock on Windows

---
 filelock/filelock.go      | 24 +++---------------------
 filelock/flock_unix.go    | 27 +++++++++++++++++++++++++++
 filelock/flock_windows.go | 14 ++++++++++++++
 3 files changed, 44 insertions(+), 21 deletions(-)
 create mode 100644 filelock/flock_unix.go
 create mode 100644 filelock/flock_windows.go

diff --git a/filelock/filelock.go b/filelock/filelock.go
index f0d99bd..3d11f82 100644
--- a/filelock/filelock.go
+++ b/filelock/filelock.go
@@ -1,21 +1,16 @@
 package filelock
 
-import (
-	"fmt"
-	"syscall"
-)
-
 type File interface{}
 
 // Lock waits until f, an open file such as *os.File, can be locked for writing. Only one open file of the
 // same file can hold this lock.
 func Lock(f File) error {
-	return flock(f, syscall.LOCK_EX)
+	return flock(f, lockExclusive)
 }
 
 // RLock waits until f can be locked for reading, that is until nobody holds it with Lock.
 func RLock(f File) error {
-	return flock(f, syscall.LOCK_SH)
+	return flock(f, lockShared)
 }
 
 func IsLock(f File) bool {
@@ -25,18 +20,5 @@ func IsLock(f File) bool {
 
 // Unlock releases the lock of f. Closing f releases it as well.
 func Unlock(f File) error {
-	return flock(f, syscall.LOCK_UN)
-}
-
-func flock(f File, how int) error {
-	file, ok := f.(interface{ Fd() uintptr })
-	if !ok {
-		return fmt.Errorf("filelock: %T has no file descriptor", f)
-	}
-	for {
-		err := syscall.Flock(int(file.Fd()), how)
-		if err != syscall.EINTR {
-			return err
-		}
-	}
+	return flock(f, lockNone)
 }
diff --git a/filelock/flock_unix.go b/filelock/flock_unix.go
new file mode 100644
index 0000000..5099b9b
--- /dev/null
+++ b/filelock/flock_unix.go
@@ -0,0 +1,27 @@
+// +build !windows
+
+package filelock
+
+import (
+	"fmt"
+	"syscall"
+)
+
+const (
+	lockExclusive = syscall.LOCK_EX
+	lockShared    = syscall.LOCK_SH
+	lockNone      = syscall.LOCK_UN
+)
+
+func flock(f File, how int) error {
+	file, ok := f.(interface{ Fd() uintptr })
+	if !ok {
+		return fmt.Errorf("filelock: %T has no file descriptor", f)
+	}
+	for {
+		err := syscall.Flock(int(file.Fd()), how)
+		if err != syscall.EINTR {
+			return err
+		}
+	}
+}
diff --git a/filelock/flock_windows.go b/filelock/flock_windows.go
new file mode 100644
index 0000000..0e06830
--- /dev/null
+++ b/filelock/flock_windows.go
@@ -0,0 +1,14 @@
+// +build windows
+
+package filelock
+
+const (
+	lockExclusive = iota
+	lockShared
+	lockNone
+)
+
+func flock(f File, how int) error {
+	// TODO: implement with LockFileEx
+	return nil
+}
-- 
2.43.0


From 9f754e865f9b3028a1a9c04493f13446c510124a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:23 +0000
Subject: [PATCH 47/51] fix: store a time that was never set as 0

---
 pttbbs/board.go    | 10 +++++-----
 pttbbs/encoding.go | 10 ++++++++++
 pttbbs/fav.go      |  2 +-
 pttbbs/file.go     |  2 +-
 pttbbs/passwd.go   | 16 ++++++++--------
 pttbbs/userinfo.go |  4 ++--
 6 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/pttbbs/board.go b/pttbbs/board.go
index 42eedb0..faa01c0 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -338,13 +338,13 @@ func (b *BoardHeader) MarshalBinary() ([]byte, error) {
 	ret[PosOfVoteLimitPosts] = b.VoteLimitPosts
 	ret[PosOfVoteLimitLogins] = b.VoteLimitLogins
 	copy(ret[PosOfChessCountry:PosOfChessCountry+1], b.ChessCountry)
-	binary.LittleEndian.PutUint32(ret[PosOfBUpdate:PosOfBUpdate+4], uint32(b.BUpdate.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfBUpdate:PosOfBUpdate+4], timeToUint32(b.BUpdate))
 	ret[PosOfPostLimitPosts] = b.PostLimitPosts
 	ret[PosOfPostLimitLogins] = b.PostLimitLogins
 	ret[PosOfBVote] = b.BVote
-	binary.LittleEndian.PutUint32(ret[PosOfVTime:PosOfVTime+4], uint32(b.VTime.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfVTime:PosOfVTime+4], timeToUint32(b.VTime))
 	binary.LittleEndian.PutUint32(ret[PosOfLevel:PosOfLevel+4], b.Level)
-	binary.LittleEndian.PutUint32(ret[PosOfPermReload:PosOfPermReload+4], uint32(b.PermReload.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfPermReload:PosOfPermReload+4], timeToUint32(b.PermReload))
 	binary.LittleEndian.PutUint32(ret[PosOfGid:PosOfGid+4], uint32(b.Gid))
 
 	if len(b.Next) == 2 {
@@ -362,14 +362,14 @@ func (b *BoardHeader) MarshalBinary() ([]byte, error) {
 
 	binary.LittleEndian.PutUint32(ret[PosOfNuser:PosOfNuser+4], uint32(b.Nuser))
 	binary.LittleEndian.PutUint32(ret[PosOfPostExpire:PosOfPostExpire+4], uint32(b.PostExpire))
-	binary.LittleEndian.PutUint32(ret[PosOfEndGamble:PosOfEndGamble+4], uint32(b.EndGamble.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfEndGamble:PosOfEndGamble+4], timeToUint32(b.EndGamble))
 	copy(ret[PosOfPostType:PosOfPostType+33], utf8ToBig5UAOString(b.PostType))
 	copy(ret[PosOfPostTypeF:PosOfPostTypeF+1], utf8ToBig5UAOString(b.PostTypeF))
 
 	ret[PosOfFastRecommendPause] = b.FastRecommendPause
 	ret[PosOfVoteLimitBadPost] = b.VoteLimitBadPost
 	ret[PosOfPostLimitBadPost] = b.PostLimitBadPost
-	binary.LittleEndian.PutUint32(ret[PosOfSRExpire:PosOfSRExpire+4], uint32(b.SRexpire.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfSRExpire:PosOfSRExpire+4], timeToUint32(b.SRexpire))
 
 	return ret, nil
 
diff --git a/pttbbs/encoding.go b/pttbbs/encoding.go
index 80d9ca4..adfa0b1 100644
--- a/pttbbs/encoding.go
+++ b/pttbbs/encoding.go
@@ -1,6 +1,8 @@
 package pttbbs
 
 import (
+	"time"
+
 	"github.com/Ptt-official-app/go-bbs"
 )
 
@@ -20,3 +22,11 @@ func newStringFormCString(cs []byte) string {
 func newStringFormBig5UAOCString(cs []byte) string {
 	return bbs.Big5ToUtf8(bbs.CstrToBytes(cs))
 }
+
+// timeToUint32 returns the Unix time of t as it is stored in records, a time which was never set is 0.
+func timeToUint32(t time.Time) uint32 {
+	if t.IsZero() {
+		return 0
+	}
+	return uint32(t.Unix())
+}
diff --git a/pttbbs/fav.go b/pttbbs/fav.go
index ce73dbe..06ae242 100644
--- a/pttbbs/fav.go
+++ b/pttbbs/fav.go
@@ -456,7 +456,7 @@ func (favbi *FavBoardItem) MarshalBinary() ([]byte, error) {
 	binary.LittleEndian.PutUint32(ret[c:c+size], favbi.BoardID)
 	c += size
 
-	binary.LittleEndian.PutUint32(ret[c:c+size], uint32(favbi.LastVisit.Unix()))
+	binary.LittleEndian.PutUint32(ret[c:c+size], timeToUint32(favbi.LastVisit))
 	c += size
 
 	binary.LittleEndian.PutUint32(ret[c:c+size], favbi.Attr)
diff --git a/pttbbs/file.go b/pttbbs/file.go
index 18a079e..e3bfc14 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -232,7 +232,7 @@ func (f *FileHeader) MarshalToByte() ([]byte, error) {
 	ret := make([]byte, 128)
 
 	copy(ret[PosOfFileHeaderFilename:PosOfFileHeaderFilename+FileNameLength], f.filename)
-	binary.LittleEndian.PutUint32(ret[PosOfFileHeaderModified:PosOfFileHeaderModified+4], uint32(f.modified.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfFileHeaderModified:PosOfFileHeaderModified+4], timeToUint32(f.modified))
 
 	ret[PosOfFileHeaderRecommend] = byte(f.recommend)
 	copy(ret[PosOfFileHeaderOwner:PosOfFileHeaderOwner+IDLength+2], f.owner)
diff --git a/pttbbs/passwd.go b/pttbbs/passwd.go
index f9dafe7..652ad27 100644
--- a/pttbbs/passwd.go
+++ b/pttbbs/passwd.go
@@ -322,8 +322,8 @@ func (u *Userec) MarshalBinary() ([]byte, error) {
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdUserLevel:PosOfPasswdUserLevel+4], u.UserLevel)
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdNumLoginDays:PosOfPasswdNumLoginDays+4], u.numLoginDays)
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdNumPosts:PosOfPasswdNumPosts+4], u.numPosts)
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdFirstLogin:PosOfPasswdFirstLogin+4], uint32(u.firstLogin.Unix()))
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastLogin:PosOfPasswdLastLogin+4], uint32(u.lastLogin.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdFirstLogin:PosOfPasswdFirstLogin+4], timeToUint32(u.firstLogin))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastLogin:PosOfPasswdLastLogin+4], timeToUint32(u.lastLogin))
 	copy(ret[PosOfPasswdLastHost:PosOfPasswdLastHost+IPV4Length+1], utf8ToBig5UAOString(u.lastHost))
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdMoney:PosOfPasswdMoney+4], uint32(u.money))
 
@@ -350,11 +350,11 @@ func (u *Userec) MarshalBinary() ([]byte, error) {
 
 	copy(ret[PosOfPasswdCareer:PosOfPasswdCareer+CareerSize], utf8ToBig5UAOString(u.Career))
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdRole:PosOfPasswdRole+4], u.Role)
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastSeen:PosOfPasswdLastSeen+4], uint32(u.LastSeen.Unix()))
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeSetAngel:PosOfPasswdTimeSetAngel+4], uint32(u.TimeSetAngel.Unix()))
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimePlayAngel:PosOfPasswdTimePlayAngel+4], uint32(u.TimePlayAngel.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastSeen:PosOfPasswdLastSeen+4], timeToUint32(u.LastSeen))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeSetAngel:PosOfPasswdTimeSetAngel+4], timeToUint32(u.TimeSetAngel))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimePlayAngel:PosOfPasswdTimePlayAngel+4], timeToUint32(u.TimePlayAngel))
 
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastSong:PosOfPasswdLastSong+4], uint32(u.LastSong.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastSong:PosOfPasswdLastSong+4], timeToUint32(u.LastSong))
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdLoginView:PosOfPasswdLoginView+4], u.LoginView)
 	binary.LittleEndian.PutUint16(ret[PosOfPasswdLawCounter:PosOfPasswdLawCounter+2], u.ViolateLaw)
 
@@ -385,8 +385,8 @@ func (u *Userec) MarshalBinary() ([]byte, error) {
 
 	binary.LittleEndian.PutUint16(ret[PosOfPasswdChessEloRating:PosOfPasswdChessEloRating+2], u.ChessEloRating)
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdWithMe:PosOfPasswdWithMe+4], u.WithMe)
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeRemoveBadPost:PosOfPasswdTimeRemoveBadPost+4], uint32(u.TimeRemoveBadPost.Unix()))
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeViolateLaw:PosOfPasswdTimeViolateLaw+4], uint32(u.TimeViolateLaw.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeRemoveBadPost:PosOfPasswdTimeRemoveBadPost+4], timeToUint32(u.TimeRemoveBadPost))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeViolateLaw:PosOfPasswdTimeViolateLaw+4], timeToUint32(u.TimeViolateLaw))
 
 	return ret, nil
 }
diff --git a/pttbbs/userinfo.go b/pttbbs/userinfo.go
index f7476bd..375fd76 100644
--- a/pttbbs/userinfo.go
+++ b/pttbbs/userinfo.go
@@ -323,7 +323,7 @@ func (u *UserInfoCache) MarshalBinary() []byte {
 
 	binary.LittleEndian.PutUint16(ret[PosOfUserInfoConn6Win:PosOfUserInfoConn6Win+2], u.Conn6.Win)
 
-	binary.LittleEndian.PutUint32(ret[PosOfUserInfoLastAct:PosOfUserInfoLastAct+4], uint32(u.LastAct.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfUserInfoLastAct:PosOfUserInfoLastAct+4], timeToUint32(u.LastAct))
 	ret[PosOfUserInfoAlerts] = u.Alerts
 	binary.LittleEndian.PutUint16(ret[PosOfUserInfoConn6Lose:PosOfUserInfoConn6Lose+2], u.Conn6.Lose)
 
@@ -366,7 +366,7 @@ func (u *UserInfoCache) MarshalBinary() []byte {
 	binary.LittleEndian.PutUint32(ret[PosOfUserInfoWithMe:PosOfUserInfoWithMe+4], u.WithMe)
 	binary.LittleEndian.PutUint32(ret[PosOfUserInfoBrcID:PosOfUserInfoBrcID+4], u.brcID)
 
-	binary.LittleEndian.PutUint32(ret[PosOfUserInfoWBTime:PosOfUserInfoWBTime+4], uint32(u.wbTime.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfUserInfoWBTime:PosOfUserInfoWBTime+4], timeToUint32(u.wbTime))
 
 	return ret
 
-- 
2.43.0


From 3400a1b7cebdd3da83a047865bdfc6dbd41e0d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:52 +0000
Subject: [PATCH 48/51] fix: give the status of a segment the size the kernel
 writes

---
 cache/systemvshm_linux.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache/systemvshm_linux.go b/cache/systemvshm_linux.go
index 1ab285e..0f9e6b2 100644
--- a/cache/systemvshm_linux.go
+++ b/cache/systemvshm_linux.go
@@ -29,5 +29,5 @@ type ShmidDs struct {
 	ShmCpid     int32
 	ShmLpid     int32
 	ShmNattach  shmattT
-	shmInternal int64
+	shmInternal [2]uint64 // the kernel writes 112 bytes
 }
-- 
2.43.0


From 7323026724ea39ee50ac702fbf597fea314eeadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:22 +0000
Subject: [PATCH 49/51] fix: do not crash on a class path without a class id

---
 serverlet/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serverlet/main.go b/serverlet/main.go
index c463a6e..91ba715 100644
--- a/serverlet/main.go
+++ b/serverlet/main.go
@@ -70,7 +70,7 @@ func getClass(w http.ResponseWriter, r *http.Request) {
 	seg := strings.Split(r.URL.Path, "/")
 
 	classID := "0"
-	if len(seg) > 2 {
+	if len(seg) > 3 {
 		classID = seg[3]
 	}
 
-- 
2.43.0


From 5a681d2b2cdc0462ff92198642a23115cd9aa8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:52 +0000
Subject: [PATCH 50/51] fix: do not move opened databases to the home opened
 last

---
 bbs.go           | 11 +++++++++++
 pttbbs/pttbbs.go |  5 +++++
 2 files changed, 16 insertions(+)

diff --git a/bbs.go b/bbs.go
index e02ac8b..5cd2154 100644
--- a/bbs.go
+++ b/bbs.go
@@ -175,6 +175,13 @@ type Connector interface {
 	ReadBoardArticleFile(name string) ([]byte, error)
 }
 
+// Driver which implement ConnectorFactory supports more than one data source at the same time,
+// every opened DB has a connector of its own.
+type ConnectorFactory interface {
+	// NewConnector return a new connector of this driver
+	NewConnector() Connector
+}
+
 // Driver which implement WriteBoardConnector supports modify board record file.
 type WriteBoardConnector interface {
 
@@ -282,6 +289,10 @@ func Open(drivername string, dataSourceName string) (*DB, error) {
 		return nil, fmt.Errorf("bbs: drivername: %v not found", drivername)
 	}
 
+	if f, ok := c.(ConnectorFactory); ok {
+		c = f.NewConnector()
+	}
+
 	err := c.Open(dataSourceName)
 	if err != nil {
 		return nil, fmt.Errorf("bbs: drivername: %v open error: %v", drivername, err)
diff --git a/pttbbs/pttbbs.go b/pttbbs/pttbbs.go
index b1a9121..f6ff892 100644
--- a/pttbbs/pttbbs.go
+++ b/pttbbs/pttbbs.go
@@ -17,6 +17,11 @@ func init() {
 	bbs.Register("pttbbs", &Connector{})
 }
 
+// NewConnector returns a connector of its own for every opened bbs home
+func (c *Connector) NewConnector() bbs.Connector {
+	return &Connector{}
+}
+
 // Open connect a file directory or SHMs, dataSourceName pointer to bbs home
 // And it can append argument for SHM
 // for example `file:///home/bbs/?UTMP=1993`
-- 
2.43.0


From 99e65f01105eb515950ca48adc4fb08c0aeeec8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:48 +0000
Subject: [PATCH 51/51] fix: updating an article record far out must not
 overwrite another record

The offset of a record whose index exceeds math.MaxInt64/128 wrapped around
and the record was written over one of the existing records.
---
 pttbbs/file.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pttbbs/file.go b/pttbbs/file.go
index e3bfc14..7edc9d2 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -28,8 +28,10 @@ package pttbbs
 
 import (
 	"encoding/binary"
+	"fmt"
 	"io"
 	"log"
+	"math"
 	"os"
 	"time"
 
@@ -164,6 +166,11 @@ func AppendFileHeaderFileRecord(filename string, newFileHeader *FileHeader) erro
 }
 
 func UpdateFileHeaderFileRecord(filename string, index uint, fileHeader *FileHeader) error {
+	// the position of the record has to fit in a file offset
+	if uint64(index) > math.MaxInt64/128 {
+		return fmt.Errorf("index %v out of range", index)
+	}
+
 	f, err := os.OpenFile(filename, os.O_WRONLY, 0644)
 	if err != nil {
 		return err
-- 
2.43.0

