//go:build go1.22

package main

import (
	"fmt"
	"strings"

	"github.com/voltbras/go-ocpp/messages"
)

// C06: action names next to the known ones, calls of the other role, and
// payloads that do not decode, for every action at both roles.

func nameVariants(a string) []string {
	v := []string{
		strings.ToLower(a), strings.ToUpper(a), strings.ToLower(a[:1]) + a[1:], a + " ", " " + a, a + "\n", a + "\t", "\t" + a, a + "\r", a + "\x00", "\x00" + a, a + "\u00a0",
		a + "Request", a + "Response", a + ".req", a + ".conf", a + "Req", "/" + a, a + "/", "ocpp:" + a, "*" + a, a + "*", a + ".", a + "#1",
		a[1:], a[:len(a)-1], a + a, a + "s", a[:len(a)/2], strings.Replace(a, a[:1], a[:1]+" ", 1), "_" + a, a + "_", a + "\u200b", strings.Replace(a, "o", "0", -1) + "0", fmt.Sprintf("%q", a), "'" + a + "'",
		a[1:] + a[:1], a + "?", a + ";", a + "," + a,
	}
	for i := range a {
		c := a[i]
		v = append(v, a[:i]+string(c^0x20)+a[i+1:], a[:i]+a[i+1:], a[:i]+string(c)+a[i:], a[:i]+"x"+a[i+1:])
		if i > 0 {
			v = append(v, a[:i], a[:i]+" "+a[i:], a[:i]+"_"+a[i:], a[:i]+"-"+a[i:])
			if a[i] != a[i-1] {
				v = append(v, a[:i-1]+string(a[i])+string(a[i-1])+a[i+1:])
			}
		}
	}
	return v
}

var foreignActions = []string{"", " ", "null", "undefined", "Get15118EVCertificate", "SignCertificate", "TransactionEvent", "SecurityEventNotification", "ExtendedTriggerMessage", "GetLog", "LogStatusNotification", "SignedUpdateFirmware", "CertificateSigned", "DeleteCertificate", "GetInstalledCertificateIds", "InstallCertificate", "SignedFirmwareStatusNotification", "GetVariables", "SetVariables", "Call", "CallResult", "CallError", "2", "Action", "FromActionName", "centralSystemRequest", "IdTagInfo", "MeterValue", strings.Repeat("A", 5000), "\u00e9", "\U0001F600", "{}", "[]", "%s%d", "<Heartbeat/>"}

// ocppjCodes are the error codes of a CallError in OCPP-J 1.6 (one of them is
// misspelt in the specification).
var ocppjCodes = map[string]bool{"NotImplemented": true, "NotSupported": true, "InternalError": true, "ProtocolError": true, "SecurityError": true, "FormationViolation": true, "PropertyConstraintViolation": true, "OccurenceConstraintViolation": true, "OccurrenceConstraintViolation": true, "TypeConstraintViolation": true, "GenericError": true}

func msgUnknown(x *X, role string) {
	k := kinds[pick(len(kinds))]
	fromCP := role == "cs" // what this role receives
	mine := k.FromCP == fromCP
	if k.Action == "DataTransfer" && !mine {
		return // either role receives one, see the other kind
	}
	l := newScripted(x, !fromCP)
	if l == nil {
		x.Setup("the connection could not be set up")
		return
	}
	rs := newBase(func() interface{} { return k.Resp() }, k.JResp, true).(messages.Response)
	l.resp = rs
	known := map[string]bool{}
	for _, o := range kinds {
		known[o.Action] = true
	}
	payload := jencode(jsonOf(newBase(func() interface{} { return k.Req() }, k.JReq, true), k.JReq))
	n := 0
	reject := func(action, pl, what string) bool {
		x.cases++
		n++
		id := callIDs[n%len(callIDs)] + itoa(n)
		ex := l.receive(id, action, pl)
		r := parseMsg(ex.wireResp)
		switch {
		case ex.handled > 0:
			x.Fail("C06", role+":handled:"+what, "a call of action %q with payload %s reached the handler", action, pl)
		case ex.nResp != 1:
			x.Fail("C06", role+":answers:"+what, "a call of action %q with payload %s was answered by %d messages", action, pl, ex.nResp)
		case r.Bad != "" || r.Type != 4 || r.ID != id:
			x.Fail("C06", role+":answer:"+what, "a call of action %q with payload %s was answered by %s %s", action, pl, ex.wireResp, r.Bad)
		case !ocppjCodes[r.Code]:
			x.Fail("C06", role+":code:"+what, "a call of action %q with payload %s was answered without an error code of OCPP-J: %s", action, pl, ex.wireResp)
		default:
			return true
		}
		return false
	}
	accept := func() bool {
		n++
		id := fmt.Sprintf("ok%d", n)
		a := kindOf("ClearCache", false)
		if fromCP {
			a = kindOf("Heartbeat", true)
		}
		l.resp = newBase(func() interface{} { return a.Resp() }, a.JResp, true).(messages.Response)
		ex := l.receive(id, a.Action, jencode(jsonOf(newBase(func() interface{} { return a.Req() }, a.JReq, true), a.JReq)))
		l.resp = rs
		r := parseMsg(ex.wireResp)
		if ex.handled != 1 || ex.nResp != 1 || r.Type != 3 || r.ID != id {
			x.Fail("C06", role+":after", "a valid call after refused ones: handled %d times, %d answers %s", ex.handled, ex.nResp, ex.wireResp)
			return false
		}
		return true
	}
	// names
	names := nameVariants(k.Action)
	if k.Action == "Heartbeat" {
		names = append(names, foreignActions...)
	}
	for _, name := range names {
		if known[name] {
			continue
		}
		for _, pl := range []string{payload, `{}`} {
			if !reject(name, pl, "name") {
				return
			}
		}
	}
	if !accept() {
		return
	}
	// the other role
	if !mine {
		for _, pl := range []string{payload, `{}`, `{"zz":1}`} {
			if !reject(k.Action, pl, "role") || !accept() {
				return
			}
		}
		return
	}
	// payloads
	for _, pl := range []string{`{"zz":1}`, `{"":null}`, strings.TrimSuffix(payload, "}") + map[bool]string{true: "", false: ","}[payload == "{}"] + `"zz":{"a":[1,2]}}`} {
		if !reject(k.Action, pl, "payload") || !accept() {
			return
		}
	}
	for _, p := range k.JReq.Props {
		o := jsonOf(newBase(func() interface{} { return k.Req() }, k.JReq, true), k.JReq)
		if p.Req && !reject(k.Action, jencode(o.without(p.Name)), "missing") {
			return
		}
		for _, bad := range []string{`{"zz":1}`, `[[1]]`} {
			if p.Spec.Kind == "obj" && bad[0] == '{' || !reject(k.Action, jencode(o.with(p.Name, rawJSON(bad))), "type") {
				break
			}
		}
	}
	if len(x.viols) == 0 {
		accept()
	}
}

func init() {
	for _, role := range []string{"cs", "cp"} {
		role := role
		reg(&Scenario{ID: "msg-unknown-" + role, Props: []string{"C06"}, Hist: true, Quick: 0, Thorough: 0,
			Desc: "for every action of OCPP 1.6: every name at a distance of one letter from it, about 40 other names next to it, foreign actions, calls of the other role, payloads that do not decode; each answered by one CallError, never handled; " + role + " side",
			Run:  func(x *X) { msgUnknown(x, role) }})
	}
}
