//go:build go1.22

package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/voltbras/go-ocpp/messages"
)

// C22 -------------------------------------------------------------------------

const (
	mustAccept = 1
	mustReject = 2
)

type mutation struct {
	what   string
	text   string
	expect int
	top    bool
}

func (o *jObj) with(key string, v interface{}) *jObj {
	n := &jObj{m: map[string]interface{}{}}
	done := false
	for _, k := range o.keys {
		n.keys = append(n.keys, k)
		n.m[k] = o.m[k]
		if k == key {
			n.m[k] = v
			done = true
		}
	}
	if !done {
		n.keys = append(n.keys, key)
		n.m[key] = v
	}
	return n
}

func (o *jObj) without(key string) *jObj {
	n := &jObj{m: map[string]interface{}{}}
	for _, k := range o.keys {
		if k != key {
			n.keys = append(n.keys, k)
			n.m[k] = o.m[k]
		}
	}
	return n
}

func jmust(v interface{}) interface{} {
	if o, ok := v.(jOpt); ok {
		return o.v
	}
	return v
}

// mutate calls emit with every mutation of v; put builds the whole payload
// around a replacement of v.
func mutate(v interface{}, s *spec, t reflect.Type, path string, depth int, put func(interface{}) string, emit func(mutation)) {
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	if o, ok := v.(jOpt); ok {
		v = o.v
	}
	// other JSON types
	isObj, isArr := s.Kind == "obj", s.Kind == "arr"
	isStr := s.Kind == "str" || s.Kind == "uri" || s.Kind == "time"
	isNum := s.Kind == "int" || s.Kind == "num"
	rep := func(text string, expect int) {
		emit(mutation{path + " = " + text, put(rawJSON(text)), expect, depth <= 1})
	}
	rej := func(bad bool) int {
		if bad {
			return mustReject
		}
		return 0
	}
	rep(`{}`, rej(!isObj))
	rep(`{"x":1}`, rej(!isObj))
	rep(`[]`, rej(!isArr))
	rep(`[{}]`, rej(!isArr || s.Item.Kind != "obj"))
	rep(`["x"]`, rej(!isArr || s.Item.Kind == "obj"))
	rep(`true`, rej(s.Kind != "bool"))
	rep(`"text"`, rej(!isStr || s.Kind == "time"))
	rep(`""`, rej(!isStr || s.Kind == "time"))
	rep(`"12"`, rej(!isStr || s.Kind == "time"))
	rep(`"true"`, rej(!isStr || s.Kind == "time"))
	rep(`17`, rej(!isNum))
	rep(`-1`, rej(!isNum))
	intField := t.Kind() >= reflect.Int && t.Kind() <= reflect.Int64
	rep(`1.5`, rej(!isNum || intField))
	if isNum {
		emit(mutation{path + " = 0", put(rawJSON("0")), mustAccept, depth <= 1})
		emit(mutation{path + " = 2000000000", put(rawJSON("2000000000")), mustAccept, depth <= 1})
	}
	if s.Kind == "bool" {
		emit(mutation{path + " = false", put(rawJSON("false")), mustAccept, depth <= 1})
	}
	if s.Kind == "time" {
		for _, x := range []string{`2021-13-01T00:00:00Z`, `2021-01-01`, `2021-01-01 00:00:00Z`, `2021-01-01T00:00:00`, `1612345678`} {
			rep(`"`+x+`"`, mustReject)
		}
		for _, x := range []string{`2021-01-02T03:04:05Z`, `2021-01-02T03:04:05.678+05:30`, `1999-12-31T23:59:59-08:00`} {
			emit(mutation{path + " = " + x, put(rawJSON(`"` + x + `"`)), mustAccept, depth <= 1})
		}
	}
	if s.Kind == "str" {
		for _, e := range s.Enum {
			emit(mutation{path + " = " + e, put(e), mustAccept, depth <= 1})
		}
	}
	// children
	switch w := v.(type) {
	case *jObj:
		req := map[string]*sprop{}
		for i := range s.Props {
			req[s.Props[i].Name] = &s.Props[i]
		}
		for _, k := range w.keys {
			k := k
			p := req[k]
			e := mustAccept
			if p.Req {
				e = mustReject
			}
			emit(mutation{path + "." + k + " removed", put(w.without(k)), e, depth < 1})
			if s.Strict || p.Req {
				emit(mutation{path + "." + k + " renamed", put(w.without(k).with(k+"X", jmust(w.m[k]))), mustReject, depth < 1})
			}
			if s.Strict {
				emit(mutation{path + "." + k + " in upper case", put(w.without(k).with(strings.ToUpper(k[:1])+k[1:], jmust(w.m[k]))), mustReject, depth < 1})
			}
			i := goField(t, k)
			if i < 0 {
				continue
			}
			mutate(w.m[k], p.Spec, t.Field(i).Type, path+"."+k, depth+1, func(x interface{}) string { return put(w.with(k, x)) }, emit)
		}
		add := mustAccept
		if s.Strict {
			add = mustReject
		}
		for _, u := range []string{"unknown", "", "vendorExtension", "_x", "$schema", "x-y", "customData", "0", " ", "__proto__", "é"} {
			emit(mutation{path + " with an additional " + q(u), put(w.with(u, "x")), add, depth < 1})
		}
		if depth == 0 {
			for _, v := range []string{"null", "0", `""`, "false", "[]", "[null]", `{"idTag":null}`} {
				emit(mutation{path + " with an additional " + v, put(w.with("unknown", rawJSON(v))), add, true})
			}
		}
		emit(mutation{path + " with an additional object", put(w.with("more", &jObj{})), add, depth < 1})
	case []interface{}:
		for i := range w {
			i := i
			if i > 0 {
				break
			}
			mutate(w[i], s.Item, t.Elem(), fmt.Sprintf("%s[%d]", path, i), depth+1, func(x interface{}) string {
				c := append([]interface{}{}, w...)
				c[i] = x
				return put(c)
			}, emit)
		}
	}
}

func jsonStrict(x *X) {
	k := kinds[pick(len(kinds))]
	isResp := pick(2) == 1
	all := pick(2) == 1
	s, mk := k.JReq, func() interface{} { return k.Req() }
	if isResp {
		s, mk = k.JResp, func() interface{} { return k.Resp() }
	}
	base := newBase(mk, s, all)
	jo := jsonOf(base, s)
	var ms []mutation
	put := func(v interface{}) string { return jencode(v) }
	mutate(jo, s, reflect.TypeOf(base).Elem(), "payload", 0, put, func(m mutation) { ms = append(ms, m) })
	ms = append(ms, mutation{"unchanged", jencode(jo), mustAccept, true})
	m := ms[pick(len(ms))]
	if m.expect == 0 {
		return
	}
	l := newScripted(x, k.FromCP == isResp)
	if l == nil {
		return
	}
	dir := "request"
	if isResp {
		dir = "response"
	}
	b := "required fields"
	if all {
		b = "all fields"
	}
	what := fmt.Sprintf("%s %s of the %s (%s), %s: %s", k.Action, dir, who(k.FromCP != isResp), b, m.what, m.text)
	key := k.Action + " " + dir + " " + m.what
	// the value that an accepted payload stands for
	want := func() interface{} {
		w := mk()
		if jinto(m.text, s, reflect.ValueOf(w).Elem()) != nil {
			return nil
		}
		return w
	}
	rq := newBase(func() interface{} { return k.Req() }, k.JReq, true).(messages.Request)
	rs := newBase(func() interface{} { return k.Resp() }, k.JResp, true).(messages.Response)
	x.cases++
	l.resp = rs
	judge := func(got interface{}, rejected bool, why string) {
		switch {
		case m.expect == mustReject && !rejected:
			x.Fail("C22", "accepted:"+key, "%s was accepted", what)
		case m.expect == mustAccept && rejected:
			x.Fail("C22", "rejected:"+key, "%s was rejected: %s", what, why)
		case m.expect == mustAccept:
			if w := want(); w != nil {
				if d := msgDiff(w, got, true); d != "" {
					x.Fail("C22", "decoded:"+key, "%s was decoded with %s", what, d)
				}
			}
		}
	}
	if isResp {
		ex := l.send(k, rq, `[3,"$ID",`+m.text+`]`)
		judge(ex.gotResp, ex.err != nil, short(ex.err))
		if ex.err != nil && ex.gotResp != nil && !reflect.ValueOf(ex.gotResp).IsNil() {
			x.Fail("C22", "both:"+key, "%s: Send returned a response together with an error", what)
		}
	} else {
		ex := l.receive("m1", k.Action, m.text)
		r := parseMsg(ex.wireResp)
		if ex.nResp == 0 && !strings.HasPrefix(m.text, "{") && ex.handled == 0 {
			// not a valid call message at all: ignored (C04)
		} else if ex.nResp != 1 || r.Bad != "" || r.ID != "m1" || r.Type == 2 {
			x.Fail("C22", "answer:"+key, "%s: answered by %d messages: %s %s", what, ex.nResp, ex.wireResp, r.Bad)
			return
		}
		rejected := r.Type != 3
		if rejected == (ex.handled > 0) {
			x.Fail("C22", "handled:"+key, "%s: the handler ran %d times, and the answer was %s", what, ex.handled, ex.wireResp)
		}
		judge(ex.gotReq, rejected, ex.wireResp)
	}
	// the connection still works
	var ok bool
	if isResp {
		ex := l.send(k, rq, `[3,"$ID",`+jencode(jsonOf(rs, k.JResp))+`]`)
		ok = ex.err == nil
	} else {
		ex := l.receive("m2", k.Action, jencode(jsonOf(rq, k.JReq)))
		ok = ex.handled == 1
	}
	if !ok {
		x.Fail("C22", "after:"+key, "%s: a valid message after it is not handled any more", what)
	}
}

func init() {
	reg(&Scenario{ID: "json-strict", Props: []string{"C22"}, Hist: true, Quick: 0, Thorough: 0,
		Desc: "for every message type of OCPP 1.6 and both roles of the library, starting from the required-only and from the all-set payload: every property (nested ones too) removed, renamed, replaced by values of every other JSON type and by malformed times, additional properties; and all valid variants",
		Run:  jsonStrict})
}
