package passwd

import (
	"errors"

	"github.com/Ptt-official-app/go-bbs/crypt"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"github.com/Ptt-official-app/go-bbs/zzh/h"
	"github.com/Ptt-official-app/go-bbs/zzverif/vcrypt"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

const pos, size = 61, 14

// record is a user whose stored hash is any 14 bytes, after the salt if one is given.
func record(salt string) (*pttbbs.Userec, string) {
	raw := make([]byte, 512)
	copy(raw[4:], "SYSOP")
	st := append([]byte(salt), vrt.Bytes("stored", size-len(salt), size-len(salt), 0, 255)...)
	copy(raw[pos:], st)
	u, err := pttbbs.UnmarshalUserec(raw)
	vrt.Assume(err == nil)
	s := h.Cstr(st)
	vrt.Assert(u.HashedPassword() == s, "stored-hash")
	return u, s
}

// sameKey tells whether crypt(3) cannot tell two passwords apart.
func sameKey(a, b string) bool {
	ka, kb := [8]byte{}, [8]byte{}
	for i := 0; i < 8 && i < len(a) && a[i] != 0; i++ {
		ka[i] = a[i] & 0x7f
	}
	for i := 0; i < 8 && i < len(b) && b[i] != 0; i++ {
		kb[i] = b[i] & 0x7f
	}
	return ka == kb
}

// HVerify: any password, any stored value, whatever the hash is.
//
//verif:prop C19
func HVerify() {
	u, stored := record("")
	n := vrt.Case("n", 0, vrt.Bound(10, 16))
	pw := vrt.Str("pw", n, n, 0, 255)
	hash := vrt.Str("hash", 11, 11, '.', 'z')
	right, asked := false, false
	vcrypt.Fn = func(key, salt []byte) ([]byte, error) {
		if len(salt) < 2 || salt[0] >= 128 || salt[1] >= 128 {
			return nil, errors.New("salt")
		}
		res := append([]byte{salt[0], salt[1]}, hash...)
		if !sameKey(string(key), pw) || len(stored) < 2 || string(salt[:2]) != stored[:2] {
			res[12] ^= 1 // another password or salt has another hash
		} else {
			asked = true
			right = stored == string(res)
		}
		return append(res, 0), nil
	}
	ok := u.VerifyPassword(pw) == nil
	vcrypt.Fn = nil
	if ok {
		vrt.Assert(asked && right, "accepts-only-the-password")
		vrt.Assert(stored != "", "empty-hash-never-accepts")
	} else {
		vrt.Assert(!right, "accepts-the-password")
		vrt.Assert(asked || len(stored) != 13 || stored[0] >= 128 || stored[1] >= 128, "refuses-without-a-look")
	}
	vrt.Assert(u.HashedPassword() == stored, "stored-hash-kept")
}

// HVerifyReal: the real hash of some passwords against every stored value.
//
//verif:prop C19
func HVerifyReal() {
	pw := []string{"", "123123", "abcdefgh", "abcdefghi", "\xa4\xa4\xa4\xe5", "a\x00b"}[vrt.Case("pw", 0, 5)]
	salt := []string{"bh", "..", "zz", "A0", "~\x01"}[vrt.Case("salt", 0, 4)]
	u, stored := record(salt)
	want, err := crypt.Fcrypt([]byte(pw), []byte(salt))
	vrt.Assert(err == nil && len(want) == 14, "hash")
	vrt.Assert((u.VerifyPassword(pw) == nil) == (stored == string(want[:13])), "accepts-exactly-the-password")
}
