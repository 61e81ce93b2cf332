#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so the wording has one source).
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)

p("C01","User account records decode and encode losslessly in the PTT layout",
 "For every 512-byte user account record, decoding yields exactly the values stored at the documented offsets (little-endian integers, NUL-terminated text, Unix timestamps), and encoding a decoded account and decoding it again yields the same account. Encoding writes every field at its documented offset, touches no byte outside the fields, and always produces 512 bytes.",
 ["inputs"],"every record content (all 512 bytes arbitrary)",
 "The tests decode and encode one fixture file whose records leave most fields zero, so a swapped, overlapping, truncated or forgotten field is invisible; the claim is about every byte pattern.",
 ["pttbbs/passwd.go","pttbbs/encoding.go","cstr.go"],
 [("UnmarshalUserec","pttbbs/passwd.go"),("Userec.MarshalBinary","pttbbs/passwd.go"),("PosOfPasswd* offsets","pttbbs/passwd.go")],
 ["UnmarshalUserec result and accessors","MarshalBinary output bytes"])
p("C02","Board headers decode and encode losslessly in the PTT layout",
 "For every 256-byte board header, decoding yields exactly the values stored at the documented offsets (text ends at its first NUL), and encoding a decoded header and decoding it again yields the same header. Encoding writes every field at its documented offset and always produces 256 bytes.",
 ["inputs"],"every record content (all 256 bytes arbitrary)",
 "Fixture-based tests cover a dozen boards whose link, gamble, post-type and limit fields are mostly zero; the guarantee is for every record content.",
 ["pttbbs/board.go","pttbbs/encoding.go"],
 [("UnmarshalBoardHeader","pttbbs/board.go"),("BoardHeader.MarshalBinary","pttbbs/board.go")],
 ["UnmarshalBoardHeader result","MarshalBinary output bytes"])
p("C03","Article headers decode and encode losslessly in the PTT layout",
 "For every 128-byte article header, decoding yields exactly the values stored at the documented offsets, and encoding a decoded header and decoding it again yields the same header, including the file mode and the money/vote-limit union. Rewriting a header therefore never loses information it carried.",
 ["inputs"],"every record content (all 128 bytes arbitrary)",
 "The fixtures carry zero in the mode and union fields, so losing them is invisible to the tests; the claim is for every record.",
 ["pttbbs/file.go","pttbbs/encoding.go"],
 [("NewFileHeaderWithByte","pttbbs/file.go"),("FileHeader.MarshalToByte","pttbbs/file.go")],
 ["NewFileHeaderWithByte result","MarshalToByte output bytes"])
p("C04","Online user records decode and encode losslessly",
 "For every online-user record, decoding yields for each field the value at that field's own place in the record, no two fields share bytes, and encoding then decoding yields the same record. The record is always 3484 bytes, the size the BBS server uses.",
 ["inputs"],"every record content (all 3484 bytes arbitrary)",
 "The fixture leaves the game-score area zero, so overlapping offsets agree with correct ones in every test.",
 ["pttbbs/userinfo.go"],
 [("UnmarshalUserInfo","pttbbs/userinfo.go"),("UserInfoCache.MarshalBinary","pttbbs/userinfo.go")],
 ["UnmarshalUserInfo result","MarshalBinary output bytes"])
p("C05","Favorites files parse totally and round-trip",
 "Parsing any byte sequence as a favorites file either returns the tree it encodes or an error, and never crashes; a returned tree has at each level exactly as many items as its header announces, each with the type and fields its bytes hold. Encoding a parsed tree reproduces the bytes that were parsed, up to line and folder numbering and text after the NUL of a title.",
 ["inputs"],"every byte sequence up to the stated length, with every item-type pattern and folder nesting it can hold",
 "Tests parse two fixture files; truncation at each possible point, hostile counts and every item mix are out of their reach.",
 ["pttbbs/fav.go"],
 [("UnmarshalFavFile / UnmarshalFavFolder / UnmarshalFavItem","pttbbs/fav.go"),("FavFile.MarshalBinary","pttbbs/fav.go")],
 ["UnmarshalFavFile result or error","FavFile.MarshalBinary output"])
p("C06","Board attributes and user settings report exactly their own flag bit",
 "Each board attribute query and each user setting is true exactly when its documented bit of the stored flags is set, whatever the other bits are. The moderator list and posting limits reported for a board are exactly those stored.",
 ["inputs"],"all 2^32 flag words; all moderator fields",
 "Tests check a handful of flag words; a query reading a neighbour's bit or two bits agrees with them on almost all samples.",
 ["pttbbs/board.go","pttbbs/usersettings.go","pttbbs/const.go"],
 [("BoardHeader.Is*","pttbbs/board.go"),("BoardHeader.BM","pttbbs/board.go"),("newUserSettingsWithUint / UserSettings","pttbbs/usersettings.go")],
 ["Is* results","BM()","settings fields"])
p("C07","Login history files are read faithfully and never crash the reader",
 "Reading a failed-login or recent-login history file returns one entry per well-formed line, in file order, with the fields the line holds, and encoding an entry and reading it back gives the same entry. Malformed, empty or truncated lines produce an error or are skipped, never a crash or process exit.",
 ["inputs","fault_sequences"],"every line content up to the stated length, every read failure",
 "Tests use well-formed fixtures; crashes need short or malformed lines the samples do not contain.",
 ["pttbbs/bad_logins.go","pttbbs/login_recent.go"],
 [("LoginAttempt.UnmarshalText / MarshalText","pttbbs/bad_logins.go"),("OpenBadLoginFile","pttbbs/bad_logins.go"),("OpenLoginRecentFile","pttbbs/login_recent.go")],
 ["returned entries and errors"])
p("C08","Appending a record never disturbs existing records",
 "Appending a board or article record leaves every existing byte of the file as it was and adds exactly one record, equal to the one given, at the end; a missing file is created with that one record. Records appended by other processes at any point during the operation survive, and an I/O failure is reported to the caller.",
 ["inputs","histories","schedules","fault_sequences"],"every prior file content within the bound, every record, every point at which another writer appends, every failing system call",
 "Tests append once to a private fixture; interleavings with another writer and failing calls are never exercised.",
 ["pttbbs/file.go","pttbbs/board.go","pttbbs/pttbbs_write_article_connector.go","pttbbs/pttbbs_write_board_connector.go","pttbbs/pttbss_append_new_line.go"],
 [("AppendFileHeaderFileRecord","pttbbs/file.go"),("AppendBoardHeaderFileRecord","pttbbs/board.go"),("AppendNewLine","pttbbs/pttbss_append_new_line.go")],
 ["file bytes after the call","returned error"])
p("C09","Updating an article record changes that record only",
 "Updating the article record at a given index replaces exactly that record's bytes with the new record's encoding and leaves every other byte and, for an existing record, the file length unchanged. An I/O failure is reported to the caller.",
 ["inputs","histories","fault_sequences"],"every index within the file, every prior content within the bound, every record, every failing system call",
 "Tests update one index of one fixture.",
 ["pttbbs/file.go","pttbbs/pttbbs_write_article_connector.go"],
 [("UpdateFileHeaderFileRecord","pttbbs/file.go"),("UpdateArticleRecord path","pttbbs/pttbbs_write_article_connector.go")],
 ["file bytes after the call","returned error"])
p("C10","Removing a board record removes exactly that record",
 "Removing the board record at a given index deletes exactly that record and shifts the later ones down in order, leaving the earlier ones untouched. An index that names no record leaves the file unchanged.",
 ["inputs","histories","fault_sequences"],"every index including negative and past the end, every file of up to the stated number of records",
 "Tests remove one record of one fixture; boundary and out-of-range indices are not sampled.",
 ["pttbbs/board.go"],
 [("RemoveBoardHeaderFileRecord","pttbbs/board.go")],
 ["file bytes after the call","returned error"])
p("C11","Reading a record file returns every record in order, or an error",
 "Reading a user, board, article or FormosaBBS record file returns exactly the records it holds, in file order. It terminates for every behaviour of the underlying reads, a read failure is returned as an error instead of being turned into records or an endless loop, and the file is closed again in every case.",
 ["inputs","fault_sequences"],"every file of up to the stated number of records, every sequence of read results (full, end of file, error)",
 "Tests read intact fixture files only; a read that fails never happens in them.",
 ["pttbbs/passwd.go","pttbbs/board.go","pttbbs/file.go","formosabbs/file.go","pttbbs/userinfo.go"],
 [("OpenUserecFile","pttbbs/passwd.go"),("OpenBoardHeaderFile","pttbbs/board.go"),("OpenFileHeaderFile","pttbbs/file.go"),("OpenFormosaBBSFileHeaderFile","formosabbs/file.go")],
 ["returned records and error"])
p("C12","Article and draft content is stored exactly as given",
 "Writing an article or draft leaves the file holding exactly the given bytes, whatever it held before; appending adds exactly the given bytes after the existing content; reading returns exactly what is stored; deleting a draft removes it and nothing else. A failing system call is reported, never swallowed.",
 ["inputs","histories","fault_sequences"],"every prior and new content within the bound, every order of write, append, read, delete within the bound, every failing system call",
 "Tests write once to a fresh file; overwriting longer content and failing calls are not exercised.",
 ["pttbbs/pttbbs_write_article_connector.go","pttbbs/pttbbs.go","pttbbs/draft.go","pttbbs/pttbss_append_new_line.go"],
 [("Connector.WriteBoardArticleFile","pttbbs/pttbbs_write_article_connector.go"),("Connector.AppendBoardArticleFile","pttbbs/pttbbs_write_article_connector.go"),("Open/Write/DeleteUserDraft","pttbbs/draft.go")],
 ["file bytes","returned errors"])
p("C13","New article files get unique names and never clobber an existing article",
 "Creating an article file picks a name no existing file has, creates it empty, and leaves every existing article untouched, whatever other writers create at the same moment. When the file cannot be created the call returns an error instead of retrying forever. A new article record carries the given owner, title and date, and a missing one gives an error.",
 ["inputs","schedules","fault_sequences"],"every time and random draw, every set of existing names, every point at which another writer creates the chosen name, every failing system call",
 "A test cannot force the name collision or the error; both need a specific draw or fault.",
 ["pttbbs/pttbbs_write_article_connector.go"],
 [("Connector.CreateBoardArticleFilename","pttbbs/pttbbs_write_article_connector.go"),("NewArticleRecordWithMap","pttbbs/pttbbs_write_article_connector.go")],
 ["returned name","directory contents"])
p("C14","File paths follow the BBS home layout for every identifier",
 "Every user, board, article, treasure and draft path is the documented path under the BBS home for every identifier, and different users, boards or files (ASCII identifiers without '/') never share a path. An empty identifier gives an error rather than a crash, and the arguments of the caller are not modified.",
 ["inputs"],"every identifier up to the stated length, every byte value",
 "Tests compare a few literal identifiers.",
 ["pttbbs/path.go","pttbbs/pttbbs.go"],
 [("Get*Path","pttbbs/path.go"),("Connector.Get*Path","pttbbs/pttbbs.go")],
 ["returned path","returned error"])
p("C15","The database facade adds and loses nothing",
 "Every read through the database handle returns exactly what the storage driver returns for the path the driver gives, every write reaches the driver with exactly the given arguments, and every driver error reaches the caller; only a missing article index is reported as an empty list. Calls on a driver that lacks an optional capability return an error and never crash.",
 ["inputs","fault_sequences","configurations"],"every driver result and error, every driver capability set",
 "Tests use one mock driver that never fails.",
 ["bbs.go"],
 [("DB.Read*","bbs.go"),("DB.*Write*, DB.Get*","bbs.go")],
 ["returned values and errors"])
p("C16","A user's article list holds exactly that user's articles",
 "The article list of a user holds every article owned by that user in every board except the all-posts mirror, in board and file order, and nothing else. Each entry carries the board it was found in and that article's own title, owner and file name.",
 ["inputs"],"every set of boards and articles within the bound, every owner text",
 "The existing test samples one fixture user.",
 ["bbs.go","user_article_record.go"],
 [("DB.GetUserArticleRecordFile","bbs.go")],
 ["returned list"])
p("C17","Comment lines are indexed exactly",
 "Every comment line of an article gives one record with the commenter, text, time, board, article and position the line holds (the text is what stands between the colon after the commenter and the time at the end), and no other line gives a record; the comments of a user in a board are exactly those whose commenter is that user. A malformed line never makes other comments disappear or the reader crash.",
 ["inputs"],"every line content within the bound, every article of up to the stated number of lines",
 "Tests parse five literal lines.",
 ["user_comment_record.go","bbs.go"],
 [("NewUserCommentRecord / parseUserComment","user_comment_record.go"),("DB.GetBoardUserCommentRecord / GetBoardArticleCommentRecords","bbs.go")],
 ["returned records"])
p("C18","Password hashing is traditional DES crypt(3) for every key and salt",
 "For every password and every two-character salt the hash equals the traditional Unix DES crypt(3) value: only the first eight characters and low seven bits count, the result is the salt followed by eleven characters of the crypt alphabet. A salt that is too short or outside the accepted range gives an error, never a crash.",
 ["inputs"],"every password, every salt",
 "The tests compare 9 password/salt pairs out of 2^56 keys times 4096 salts; one wrong table entry can survive them.",
 ["crypt/crypt.go","crypt/const.go","crypt/bbscrypt.go","crypt/utils.go"],
 [("Fcrypt","crypt/bbscrypt.go"),("desSetKey / body / tables","crypt/crypt.go, crypt/const.go")],
 ["Fcrypt result and error"])
p("C19","A password is accepted exactly when its hash matches the stored one",
 "Password verification succeeds if and only if hashing the given password with the stored hash's salt reproduces the stored hash exactly. Any stored value, including an empty or truncated one, leads to acceptance or an error, never a crash, and an empty stored hash never accepts.",
 ["inputs"],"every stored hash field and every password",
 "Tests check one user's right and wrong password.",
 ["pttbbs/passwd.go","crypt/bbscrypt.go"],
 [("Userec.VerifyPassword","pttbbs/passwd.go")],
 ["VerifyPassword result"])
p("C20","The PTT hash is FNV-1a with the PTT seed for every input and split",
 "The hash made for a seed equals 32-bit FNV-1a started from that seed for every input, does not depend on how the input is split into writes, and reset restores the seed. Saving and restoring the hash state changes no result.",
 ["inputs","histories"],"every seed, every input up to the stated length, every split into writes",
 "Tests hash a few literals.",
 ["pttbbs/internal/fnv/fnv.go"],
 [("fnv wrappers","pttbbs/internal/fnv/fnv.go")],
 ["Sum32, Sum, Reset and the saved state"])
p("C21","Shared-memory views read each field at its own place",
 "For every configuration and every memory content, the accessors of the shared-memory cache read the entry at the place the server's structure layout gives it, distinct entries never overlap, and no index inside the configured limits reads outside the segment. Users outside the configured number, sessions outside the segment and anything a short segment has no room for give an error or a zero value rather than a crash or a neighbour's data. An alignment that is not set means none.",
 ["inputs","configurations"],"every supported alignment and limit combination within the bound, every content, every index",
 "The test needs a real segment and checks the version only.",
 ["pttbbs/cache.go","pttbbs/userinfo.go"],
 [("Cache.caculatePos","pttbbs/cache.go"),("Cache.UserID / Money / UserInfo","pttbbs/cache.go")],
 ["accessor results"])
p("C22","Text conversion keeps ASCII intact and C strings end at the first NUL",
 "Converting any ASCII text between Big5 and UTF-8 in either direction returns it unchanged, and any text both conversions support survives the round trip. A C string is exactly the bytes before its first NUL, or all of them when there is none.",
 ["inputs"],"every ASCII byte sequence and every two-byte code up to the stated length; every byte sequence for C strings",
 "Tests convert a few fixture lines.",
 ["big5.go","cstr.go"],
 [("Utf8ToBig5 / Big5ToUtf8","big5.go"),("CstrToBytes / CstrToString","cstr.go")],
 ["conversion results"])
p("C23","ANSI filtering removes control sequences and only those",
 "Filtering removes exactly the ANSI control sequences of the supported form from any text and leaves every other byte in order; text without an escape character is returned unchanged. Comment recognition sees through colour codes in every position.",
 ["inputs"],"every byte sequence up to the stated length",
 "Tests cover a few literal sequences.",
 ["ansi.go"],
 [("FilterStringANSI","ansi.go")],
 ["FilterStringANSI result"])
p("C24","Tokens are issued only to the right password and for the right user",
 "The login endpoint issues a token exactly when the account exists and the password verifies, the token names that account, and it is valid from now on for about thirty minutes. The user information returned is that of the requested user, and an unknown user gives an error response.",
 ["inputs"],"every user name, password and account list within the bound",
 "There is no test of the login route; the user route is tested with one user.",
 ["serverlet/route_token.go","serverlet/route_users.go","serverlet/permissions.go"],
 [("routeToken","serverlet/route_token.go"),("newAccessTokenWithUsername / findUserecByID","serverlet/route_token.go"),("getUserInformation","serverlet/route_users.go")],
 ["HTTP status, body, token claims"])
p("C25","The command-line tool fails cleanly",
 "For every argument list and every database failure the command-line tool prints the requested data or an error, and never crashes.",
 ["inputs","fault_sequences"],"every argument list within the bound",
 "The tool has no tests.",
 ["cmd/bbstool/main.go","cmd/bbstool/articles.go"],
 [("argument dispatch","cmd/bbstool/main.go")],
 ["process outcome"])
p("C26","Cache connection strings select the backend and location they name",
 "A cache connection string is split at its first colon into scheme and location for every string, the named backend is opened at that location, and a malformed string gives an error instead of a crash or a different target. A string without a colon is the path of a file.",
 ["inputs"],"every connection string up to the stated length",
 "Tests use one string per backend.",
 ["cache/cache.go","cache/mmap.go"],
 [("NewCache","cache/cache.go")],
 ["returned cache or error"])
p("C27","Favorites name the boards they point to",
 "Each board entry of a user's favorites, at every folder depth, names the board its stored board number designates, and the favorites keep their stored order and nesting. An entry pointing to no existing board never crashes the reader or names another board; only a missing favorites file counts as no favorites, any other failure is reported.",
 ["inputs"],"every board number, every tree within the bound, every board count within the bound",
 "The fixture's entries all point to existing boards.",
 ["pttbbs/pttbbs.go","pttbbs/fav.go"],
 [("Connector.ReadUserFavoriteRecordsFile","pttbbs/pttbbs.go"),("appendBoardID","pttbbs/pttbbs.go")],
 ["returned favorites"])
p("C28","FormosaBBS article headers decode field by field",
 "For every 248-byte FormosaBBS article header, decoding yields exactly the values stored at the documented offsets, text ending at its first NUL.",
 ["inputs"],"every record content (all 248 bytes arbitrary)",
 "Tests decode one fixture.",
 ["formosabbs/file.go"],
 [("NewFomosaBBSFileHeaderWithByte","formosabbs/file.go")],
 ["decoded header"])
p("C29","Writers of one file exclude each other through the file lock",
 "While one writer holds the lock of a file, no other writer can hold it, and none while a reader holds it; a writer changes nothing before it has the lock. So writers which append, update or remove board records, append or update article records, or write and append to one article at the same time leave a file and results which some serial order of them could have produced. The lock is given back when the writer ends, also when it fails.",
 ["schedules","fault_sequences"],"every system call of one writer at which another whole writer runs, and every failing call",
 "Tests are single-process.",
 ["filelock/filelock.go","pttbbs/board.go","pttbbs/file.go"],
 [("filelock.Lock / Unlock","filelock/filelock.go")],
 ["file bytes after both writers finish"])
p("C30","Opening a database passes driver and data source through unchanged",
 "Opening a database with any driver name and data source hands exactly that data source to exactly that registered driver, and an unknown driver or a driver error gives an error and no handle. The PTT driver derives the home directory from the documented data-source form for every path.",
 ["inputs"],"every driver name and data source up to the stated length",
 "Tests use one literal data source.",
 ["bbs.go","pttbbs/pttbbs.go"],
 [("bbs.Open / bbs.Register","bbs.go"),("Connector.Open","pttbbs/pttbbs.go")],
 ["handle or error, driver calls"])
p("C31","New records hold what was given and nothing else",
 "A new board record holds the given id and title, a new article record the given file name, owner, date and title, whatever they are: the stored record has each text at its place padded with zeros and every other byte zero, times that were never set included, is appended after all existing records unchanged, and reads back with the same values. A missing or wrongly typed argument gives an error. The zero account and the zero online record are stored as zeros.",
 ["inputs"],"every id, title, owner, date and file name up to the stated lengths, every content of the existing records",
 "Tests check the fields they set; a byte stored in a field nobody set (a time in the future) is invisible to them.",
 ["pttbbs/pttbbs_write_board_connector.go","pttbbs/pttbbs_write_article_connector.go","pttbbs/board.go","pttbbs/file.go","pttbbs/encoding.go"],
 [("Connector.NewBoardRecord / AddBoardRecordFileRecord","pttbbs/pttbbs_write_board_connector.go"),("Connector.NewArticleRecord / NewArticleRecordWithMap","pttbbs/pttbbs_write_article_connector.go"),("MarshalBinary / MarshalToByte","pttbbs/board.go, pttbbs/file.go")],
 ["bytes appended to the record file","record getters after reading back"])
p("C32","A BBS home reads back what was written through the database",
 "Over a PTT home, whatever history of added boards, created articles, written and appended articles and drafts went through the database, reading boards, article lists, articles and drafts gives exactly what that history leaves, in order, and nothing of one board, article or draft shows up in another. The article list and the comments of a user are those the history wrote. Record files, articles, treasure and favorites that stand in the home at their documented places are read from there.",
 ["histories","inputs"],"every history of up to the stated number of operations on two boards and two drafts, with arbitrary titles, owners and contents",
 "Each test runs one operation on a fixture; combinations of operations and of the layers are not exercised.",
 ["bbs.go","pttbbs/pttbbs.go","pttbbs/path.go","pttbbs/file.go","pttbbs/board.go","pttbbs/draft.go","pttbbs/pttbbs_write_article_connector.go"],
 [("DB methods","bbs.go"),("Connector methods","pttbbs/pttbbs.go"),("registration of the driver","pttbbs/pttbbs.go")],
 ["results of the database's read methods"])
p("C33","Shared memory is created, shared and removed as asked",
 "Creating shared memory on a file or a System V key gives zeroed memory of exactly the requested size at that file or key; everyone who opens it sees the same bytes and each other's writes, the content outlives closing, and removing it removes that memory only. Opening never creates; a missing file or key, a size that cannot be had and every failing call are reported as errors and leave nothing mapped or attached. Asking for a segment's status writes nothing outside the status record.",
 ["inputs","histories","fault_sequences"],"every key, every written byte and position, every size up to the stated one, every failing call",
 "The tests create one segment of four bytes under one key and look at one byte.",
 ["cache/mmap.go","cache/mmap_unix.go","cache/systemvshm.go","cache/systemvshm_linux.go","cache/systemvshm_unix.go"],
 [("CreateMmap / OpenMmap / RemoveMmap","cache/mmap.go"),("CreateKey / OpenKey / RemoveKey","cache/systemvshm.go"),("ShmidDs","cache/systemvshm_linux.go")],
 ["Bytes() of every handle","existence and content of files and segments"])
p("C34","The server serves the home's data at its paths and nothing elsewhere",
 "Started on a BBS home, the server answers a GET of /v1/boards with every board of the home in order and a GET of a user's information with that user's data exactly when the home has the user, also when the other record file is missing. Every other method gives no data, every other path an error, and no path or method crashes a handler.",
 ["inputs"],"every path and method up to the stated length, every list of boards and users up to the stated number, each file missing",
 "No test starts the server; its routing and its loading of records are not exercised at all.",
 ["serverlet/main.go","serverlet/route_boards.go","serverlet/route_classes.go","serverlet/route_users.go"],
 [("main / loadPasswdsFile / loadBoardFile","serverlet/main.go"),("routeBoards / getBoards","serverlet/route_boards.go"),("routeUsers / parseUserPath","serverlet/route_users.go")],
 ["status and body of the answers"])
p("C35","Databases of different homes are independent of each other",
 "Any number of databases can be open at the same time: each reads and writes the home it was opened on and no other, whatever is opened, written or read through the others in between, and two databases of one home see each other's writes. An attempt to open a database that fails leaves the open ones as they are.",
 ["histories","inputs"],"every interleaving of up to the stated number of writes through two databases, every form of data source, arbitrary contents",
 "Every test opens one database; state shared through the registered driver only shows with a second one.",
 ["bbs.go","pttbbs/pttbbs.go"],
 [("Open / Register","bbs.go"),("Connector.Open / NewConnector","pttbbs/pttbbs.go")],
 ["results of the read methods of every open database","files of the two homes"])
p("C36","A crash loses nothing but what was being written",
 "At whatever system call a writing process dies, also in the middle of a write: appending leaves everything that was in the file at its place, updating an article record leaves the other records and the length, removing a board leaves every other board's record whole and in order in the file, and writing or creating an article or a draft touches no other file.",
 ["crash_points","inputs"],"every system call of every write operation as the last one, four lengths of the torn write, every content of the records",
 "Tests let every operation finish; what a half-finished one leaves on disk is never looked at.",
 ["pttbbs/board.go","pttbbs/file.go","pttbbs/pttbss_append_new_line.go","pttbbs/pttbbs_write_article_connector.go","pttbbs/draft.go"],
 [("AppendBoardHeaderFileRecord / RemoveBoardHeaderFileRecord","pttbbs/board.go"),("AppendFileHeaderFileRecord / UpdateFileHeaderFileRecord","pttbbs/file.go"),("WriteBoardArticleFile / AppendBoardArticleFile / CreateBoardArticleFilename","pttbbs")],
 ["files left behind at every crash point"])
p("C37","Reading changes nothing and depends on nothing but the home",
 "Whatever is read, whatever part of the home is missing and whichever system call fails while reading, no file or directory appears, disappears or changes, no file stays open or locked, and reading the same home again gives the same result as before, whatever failed in between.",
 ["inputs","fault_sequences"],"every read operation, every single file of the home missing, every system call failing",
 "Tests read fixtures once and do not look at the file system afterwards, and none injects a fault.",
 ["bbs.go","pttbbs/pttbbs.go","pttbbs/draft.go","pttbbs/bad_logins.go","pttbbs/login_recent.go","formosabbs/file.go"],
 [("DB read methods","bbs.go"),("Connector read methods","pttbbs/pttbbs.go"),("OpenBadLoginFile / OpenLoginRecentFile","pttbbs")],
 ["file system before and after","results of repeated reads"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
