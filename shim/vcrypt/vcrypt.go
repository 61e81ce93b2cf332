// Package vcrypt stands before package crypt: a harness may put its own hash in the place of the real one.
package vcrypt

import "github.com/Ptt-official-app/go-bbs/crypt"

var Fn func(key, salt []byte) ([]byte, error)

func Fcrypt(key []byte, salt []byte) ([]byte, error) {
	if Fn != nil {
		return Fn(key, salt)
	}
	return crypt.Fcrypt(key, salt)
}
