//go:build go1.22

package main

import "encoding/json"

func field(raw json.RawMessage, k string) string {
	var m map[string]json.RawMessage
	if json.Unmarshal(raw, &m) != nil {
		return "null"
	}
	if v, ok := m[k]; ok {
		return string(v)
	}
	return "null"
}
