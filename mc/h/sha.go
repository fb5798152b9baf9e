//go:build go1.22

package main

import (
	"crypto/sha1"
	"encoding/base64"
)

//go:norace
func acceptKey(k string) string {
	h := sha1.New()
	h.Write([]byte(k + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
	return base64.StdEncoding.EncodeToString(h.Sum(nil))
}
