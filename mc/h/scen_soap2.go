//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"reflect"
	"runtime"
	"strconv"
	"strings"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
)

// scripted SOAP peers ---------------------------------------------------------

func (l *soapLink) port(k *msgKind) string {
	if k.FromCP {
		return "9000"
	}
	return "9100"
}

// post lets a scripted client send body to the library's server for k.
func (l *soapLink) post(k *msgKind, body string, rs messages.Response, rerr error) (*exchange, httpMsg) {
	l.ex = &exchange{}
	l.resp, l.rerr = rs, rerr
	l.gotID = ""
	m := httpExchange(l.x, l.port(k), soapPost("/ocpp", body))
	l.x.Settle()
	return l.ex, m
}

func isFault(body string) (string, bool) {
	_, elem, e := checkEnvelope(body)
	if e != "" || elem.name != "Fault" || elem.space != nsSOAP {
		return "", false
	}
	r := elem.child("Reason")
	if r == nil || r.space != nsSOAP {
		return "", false
	}
	t := r.child("Text")
	if t == nil || t.space != nsSOAP {
		return "", false
	}
	return t.text, true
}

// soapPeers: a scripted peer that encodes in its own style talks to the
// library's server, and a scripted server to the library's client.
func soapPeers(x *X) {
	k := soapKinds[pick(len(soapKinds))]
	style := pick(nStyles)
	all := pick(2) == 1
	isResp := pick(2) == 1
	id := []string{"cp1", "CP é <&> 1"}[pick(2)]
	s, mk := k.XReq, func() interface{} { return k.Req() }
	if isResp {
		s, mk = k.XResp, func() interface{} { return k.Resp() }
	}
	base := newBase(mk, s, all)
	devs := deviations(base, s, true, false)
	rq := newBase(func() interface{} { return k.Req() }, k.XReq, true).(messages.Request)
	rs := newBase(func() interface{} { return k.Resp() }, k.XResp, true).(messages.Response)
	l := &soapLink{x: x}
	var svcs *scriptedSoap
	if isResp {
		svcs = newScriptedSoap(x, k, id)
	} else {
		l = newSoapLink(x, "cp1")
	}
	if l == nil {
		return
	}
	for i := -1; i < len(devs); i++ {
		m := newBase(mk, s, all)
		d := ""
		if i >= 0 {
			if !devs[i].apply(m) || !allowed(reflect.ValueOf(m), s, true, true) {
				continue
			}
			d = devs[i].String()
		}
		x.cases++
		if isResp {
			what := fmt.Sprintf("%s response to the %s (style %d, %s)", k.Action, who(k.FromCP), style, d)
			key := k.Action + " response " + d
			body := soapEnvelope(soapElem(k, m, true, style), soapHeader(k, id, "http://h/"), style)
			resp, err := svcs.send(rq, httpReply(200, "application/soap+xml; charset=utf-8", body), true)
			if err != nil {
				x.Fail("C24", "peer:"+key, "%s: Send returned the error %s: %s", what, short(err), body)
				return
			} else if d := msgDiff(m, resp, false); d != "" {
				x.Fail("C24", "peer:"+key, "%s: received with %s: %s", what, d, body)
				return
			}
			continue
		}
		what := fmt.Sprintf("%s request of the %s (style %d, %s)", k.Action, who(k.FromCP), style, d)
		key := k.Action + " request " + d
		body := soapEnvelope(soapElem(k, m, false, style), soapHeader(k, id, "http://h/"), style)
		ex, r := l.post(k, body, rs, nil)
		switch {
		case ex.handled != 1:
			x.Fail("C24", "peer:"+key, "%s: handled %d times, the answer was %d %s: %s", what, ex.handled, r.status, r.body, body)
			return
		case reflect.TypeOf(ex.gotReq) != reflect.TypeOf(m):
			x.Fail("C24", "peer:"+key, "%s: received as a %T: %s", what, ex.gotReq, body)
			return
		}
		if d := msgDiff(m, ex.gotReq, false); d != "" {
			x.Fail("C24", "peer:"+key, "%s: received with %s: %s", what, d, body)
			return
		}
		if k.FromCP && l.gotID != id {
			x.Fail("C16", "peer-id:"+k.Action, "%s: received with the identity %q instead of %q", what, l.gotID, id)
		}
		if r.status != 200 || r.resp == nil || !strings.Contains(strings.Join(r.resp.Header["Content-Type"], ","), "application/soap+xml") {
			x.Fail("C16", "peer-status:"+k.Action, "%s: answered by the status %d, content types %v", what, r.status, r.resp.Header["Content-Type"])
		}
		_, elem, e := checkEnvelope(r.body)
		if e != "" || elem.name != k.XElem+"Response" {
			x.Fail("C16", "peer-response:"+k.Action, "%s: answered by %s", what, r.body)
			return
		}
		if e := xcheck(elem, k.serviceNS(), k.XResp, reflect.ValueOf(rs), elem.name); e != "" {
			x.Fail("C16", "peer-response:"+k.Action, "%s: answered by %s: %s", what, e, r.body)
			return
		}
	}
}

// scriptedSoap is a scripted server for the library's SOAP client.
type scriptedSoap struct {
	k     *msgKind
	send1 func(rq messages.Request) (messages.Response, error)
	reply string
	cl    bool
	srv   *httpServer
	on    func()
}

func newScriptedSoap(x *X, k *msgKind, id string) *scriptedSoap {
	s := &scriptedSoap{k: k}
	s.srv = listenHTTP(x, "9200", func(httpMsg) (string, bool) {
		if s.on != nil {
			s.on()
		}
		return s.reply, s.cl
	})
	if k.FromCP {
		c, _, err := startSoapCP(x, id, "http://sim:9200/cs", ":9100", func(csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) { return nil, nil })
		if err != nil {
			x.Setup("cp.New: %v", err)
			return nil
		}
		s.send1 = func(rq messages.Request) (messages.Response, error) {
			r, err := c.Send(rq.(cpreq.ChargePointRequest))
			if r == nil {
				return nil, err
			}
			return r, err
		}
		return s
	}
	svc, err := cs.New().GetServiceOf(id, ocpp.V15, "http://sim:9200/cp")
	if err != nil {
		x.Setup("GetServiceOf: %v", err)
		return nil
	}
	s.send1 = func(rq messages.Request) (messages.Response, error) {
		r, err := svc.Send(rq.(csreq.CentralSystemRequest))
		if r == nil {
			return nil, err
		}
		return r, err
	}
	return s
}

func (s *scriptedSoap) send(rq messages.Request, reply string, cl bool) (messages.Response, error) {
	s.reply, s.cl = reply, cl
	return s.send1(rq)
}

// C17 -------------------------------------------------------------------------

var faultTexts = []string{"boom", "", " two  words ", "<b>&amp;'\"</b>", "]]>", "line one\nline two\ttab", "日本 é 😀", strings.Repeat("long ", 400),
	"%d %s %w", "<S:Fault/>", "</S:Text>", "-->", "\r\nCRLF", "0"}

func soapFaults(x *X) {
	k := soapKinds[pick(len(soapKinds))]
	l := newSoapLink(x, "cp1")
	if l == nil {
		return
	}
	rq := newBase(func() interface{} { return k.Req() }, k.XReq, true).(messages.Request)
	rs := newBase(func() interface{} { return k.Resp() }, k.XResp, true).(messages.Response)
	typedNil := reflect.Zero(reflect.TypeOf(rs)).Interface().(messages.Response)
	try := func(what string, resp messages.Response, err error, text string, exact bool) {
		x.cases++
		ex := l.do(k, rq, resp, err)
		if ex.handled != 1 {
			x.Fail("C17", "handled", "%s %s: the handler ran %d times", k.Action, what, ex.handled)
			return
		}
		if ex.gotResp != nil && !reflect.ValueOf(ex.gotResp).IsNil() {
			x.Fail("C17", "response", "%s %s: Send returned a response", k.Action, what)
		}
		switch {
		case ex.err == nil:
			x.Fail("C17", "no-error", "%s %s: Send returned no error", k.Action, what)
		case exact && ex.err.Error() != text:
			x.Fail("C17", "text", "%s %s: Send returned the error %q", k.Action, what, ex.err.Error())
		}
		got, ok := isFault(l.reply.body)
		switch {
		case !ok:
			x.Fail("C17", "fault", "%s %s: the reply is not a SOAP 1.2 fault with a reason: %s", k.Action, what, l.reply.body)
		case exact && got != text:
			x.Fail("C17", "reason", "%s %s: the reason of the fault is %q", k.Action, what, got)
		}
		if _, elem, e := checkEnvelope(l.reply.body); ok && e == "" {
			code := elem.child("Code")
			if code == nil || code.child("Value") == nil || !strings.HasSuffix(code.child("Value").text, ":Receiver") && !strings.HasSuffix(code.child("Value").text, ":Sender") {
				x.Fail("C17", "code", "%s %s: the fault has no code of SOAP 1.2: %s", k.Action, what, l.reply.body)
			}
		}
	}
	for _, t := range faultTexts {
		try(fmt.Sprintf("handler returned the error %q", t), nil, errors.New(t), t, true)
		try(fmt.Sprintf("handler returned a response and the error %q", t), rs, errors.New(t), t, true)
	}
	for _, e := range errVals {
		try(fmt.Sprintf("handler returned the error %T %v", e, e), nil, e, e.Error(), true)
		try(fmt.Sprintf("handler returned a response and the error %T %v", e, e), rs, e, e.Error(), true)
	}
	try("handler returned nil", nil, nil, "", false)
	try("handler returned a nil pointer", typedNil, nil, "", false)
	// and the next one works again
	ex := l.do(k, rq, rs, nil)
	if ex.err != nil {
		x.Fail("C17", "after", "%s: a request after the faults failed: %s", k.Action, short(ex.err))
	}
	// a scripted server's faults, in the styles of other implementations
	s := newScriptedSoap2(x, k)
	if s == nil {
		return
	}
	for _, t := range faultTexts {
		for style := 0; style < 4; style++ {
			for _, status := range []int{200, 500} {
				x.cases++
				p := []string{"S", "soap", "SOAP-ENV", "S"}[style]
				txt := xesc(t)
				if style == 3 && !strings.Contains(t, "]]>") && !strings.Contains(t, "\r") {
					txt = "<![CDATA[" + t + "]]>"
				}
				f := "<" + p + ":Fault><" + p + ":Code><" + p + ":Value>" + p + ":Receiver</" + p + ":Value></" + p + ":Code><" + p + ":Reason><" + p + `:Text xml:lang="en">` + txt + "</" + p + ":Text></" + p + ":Reason></" + p + ":Fault>"
				resp, err := s.send(rq, httpReply(status, "application/soap+xml", soapEnvelope(f, "", style)), true)
				what := fmt.Sprintf("%s answered by a fault %q (style %d, status %d)", k.Action, t, style, status)
				if resp != nil && !reflect.ValueOf(resp).IsNil() {
					x.Fail("C17", "peer-response", "%s: Send returned a response", what)
				}
				if err == nil || err.Error() != t {
					x.Fail("C17", "peer-text", "%s: Send returned the error %v", what, err)
				}
			}
		}
	}
}

func newScriptedSoap2(x *X, k *msgKind) *scriptedSoap {
	s := &scriptedSoap{k: k}
	s.srv = listenHTTP(x, "9200", func(httpMsg) (string, bool) { return s.reply, s.cl })
	if k.FromCP {
		c, _, err := startSoapCP(x, "cp2", "http://sim:9200/cs", ":9101", func(csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) { return nil, nil })
		if err != nil {
			return nil
		}
		s.send1 = func(rq messages.Request) (messages.Response, error) {
			r, err := c.Send(rq.(cpreq.ChargePointRequest))
			if r == nil {
				return nil, err
			}
			return r, err
		}
		return s
	}
	svc, err := cs.New().GetServiceOf("cp2", ocpp.V15, "http://sim:9200/cp")
	if err != nil {
		return nil
	}
	s.send1 = func(rq messages.Request) (messages.Response, error) {
		r, err := svc.Send(rq.(csreq.CentralSystemRequest))
		if r == nil {
			return nil, err
		}
		return r, err
	}
	return s
}

// C18 -------------------------------------------------------------------------

type badBody struct{ what, body string }

// badXML lists bodies that are not messages at all.
func badXML(valid string) []badBody {
	b := []badBody{
		{"empty", ""}, {"white space", " \r\n "}, {"text", "hello"}, {"json", `{"a":1}`}, {"an OCPP-J call", `[2,"1","Heartbeat",{}]`},
		{"html", "<!DOCTYPE html><html><body><p>not found<br></body></html>"},
		{"xml without envelope", `<?xml version="1.0"?><a/>`},
		{"an empty envelope", soapEnvelope("", "", 0)},
		{"an envelope without body", `<S:Envelope xmlns:S="` + nsSOAP + `"><S:Header/></S:Envelope>`},
		{"an envelope without anything", `<S:Envelope xmlns:S="` + nsSOAP + `"/>`},
		{"a body with text", soapEnvelope("text", "", 0)},
		{"an unknown element", soapEnvelope(`<x xmlns="urn://x"/>`, "", 0)},
		{"an unknown request", soapEnvelope(`<nopeRequest xmlns="`+nsCs+`"/>`, "", 0)},
		{"an unclosed tag", `<S:Envelope xmlns:S="` + nsSOAP + `"><S:Body><a></S:Body></S:Envelope>`},
		{"a bare ampersand", strings.Replace(valid, "<S:Body>", "<S:Body>&", 1)},
		{"an unknown entity", strings.Replace(valid, "<S:Body>", "<S:Body>&nope;", 1)},
		{"a control character", strings.Replace(valid, "<S:Body>", "<S:Body>\x01", 1)},
		{"invalid UTF-8", strings.Replace(valid, "<S:Body>", "<S:Body>\xff\xfe", 1)},
		{"unknown encoding", `<?xml version="1.0" encoding="utf-16"?>` + valid},
		{"an unclosed comment", strings.Replace(valid, "<S:Body>", "<S:Body><!-- ", 1)},
		{"closing tags exchanged", strings.Replace(valid, "</S:Body></S:Envelope>", "</S:Envelope></S:Body>", 1)},
		{"an attribute without value", strings.Replace(valid, "<S:Body>", "<S:Body a>", 1)},
		{"deep nesting", strings.Repeat("<a>", 2000)},
	}
	return b
}

// wrongTyped lists the message with a scalar element of a wrong type.
func wrongTyped(k *msgKind, isResp bool) []badBody {
	var msg interface{} = newBase(func() interface{} { return k.Req() }, k.XReq, true)
	s := k.XReq
	if isResp {
		msg = newBase(func() interface{} { return k.Resp() }, k.XResp, true)
		s = k.XResp
	}
	elem := soapElem(k, msg, isResp, 0)
	var r []badBody
	var walk func(s *spec, t reflect.Type, name string)
	walk = func(s *spec, t reflect.Type, name string) {
		for t.Kind() == reflect.Ptr || t.Kind() == reflect.Slice {
			t = t.Elem()
		}
		if s.Kind == "arr" {
			s = s.Item
		}
		if t.Kind() == reflect.Struct && t != timeT {
			for _, p := range s.Props {
				if i := goField(t, p.Name); i >= 0 && !p.Attr && !p.Text {
					walk(p.Spec, t.Field(i).Type, p.Name)
				}
			}
			return
		}
		if s.Kind != "int" && s.Kind != "bool" && s.Kind != "time" && s.Kind != "num" {
			return
		}
		i := strings.Index(elem, "<ocpp:"+name+">")
		if i < 0 {
			return
		}
		j := strings.Index(elem[i:], "</") + i
		for _, v := range []string{"abc", "1x", "2021-13-45T00:00:00Z", "12 34"} {
			r = append(r, badBody{fmt.Sprintf("%s = %q", name, v), soapEnvelope(elem[:i]+"<ocpp:"+name+">"+v+elem[j:], soapHeader(k, "cp1", "http://h/"), 0)})
		}
	}
	typ := reflect.TypeOf(msg)
	walk(s, typ, "")
	return r
}

func soapBadRequests(x *X) {
	k := soapKinds[pick(len(soapKinds))]
	class := pick(5)
	rq := newBase(func() interface{} { return k.Req() }, k.XReq, true)
	rs := newBase(func() interface{} { return k.Resp() }, k.XResp, true).(messages.Response)
	valid := soapEnvelope(soapElem(k, rq, false, 0), soapHeader(k, "cp1", "http://h/"), 0)
	var bad []badBody
	cut := false
	switch class {
	case 0:
		bad = badXML(valid)
	case 1: // messages that are no request of this role
		for _, o := range soapKinds {
			om := newBase(func() interface{} { return o.Resp() }, o.XResp, true)
			bad = append(bad, badBody{"the response " + o.Action, soapEnvelope(soapElem(o, om, true, 0), soapHeader(o, "cp1", "http://h/"), 0)})
			if o.FromCP != k.FromCP {
				om = newBase(func() interface{} { return o.Req() }, o.XReq, true)
				bad = append(bad, badBody{"the request " + o.Action + " of the other role", soapEnvelope(soapElem(o, om, false, 0), soapHeader(o, "cp1", "http://h/"), 0)})
			}
		}
		bad = append(bad, badBody{"a fault", soapEnvelope(`<S:Fault><S:Code><S:Value>S:Sender</S:Value></S:Code><S:Reason><S:Text xml:lang="en">x</S:Text></S:Reason></S:Fault>`, "", 0)})
	case 2:
		bad = wrongTyped(k, false)
	case 3, 4: // truncated: declared short, or the connection breaks
		cut = class == 4
		const parts = 16
		p := pick(parts)
		for i := p; i < len(valid); i += parts {
			bad = append(bad, badBody{fmt.Sprintf("a message truncated after %d of %d bytes", i, len(valid)), valid[:i]})
		}
	}
	l := newSoapLink(x, "cp1")
	if l == nil {
		return
	}
	for _, b := range bad {
		x.cases++
		l.ex = &exchange{}
		l.resp, l.rerr = rs, nil
		var r httpMsg
		if cut {
			nc, err := simDial(nil, "tcp", "sim:"+l.port(k))
			if err != nil {
				x.Fail("C18", "dial", "the server does not accept connections any more: %v", err)
				return
			}
			raw := soapPost("/", valid)
			nc.Write([]byte(raw[:len(raw)-len(valid)+len(b.body)]))
			nc.Close()
			x.Settle()
		} else {
			_, r = l.post(k, b.body, rs, nil)
		}
		if l.ex.handled > 0 {
			x.Fail("C18", "handled:"+b.what, "%s: %s was handled as a %T", k.Action, b.what, l.ex.gotReq)
		}
		if !cut {
			_, fault := isFault(r.body)
			if !r.ok || r.status < 400 && !fault {
				x.Fail("C18", "answer:"+b.what, "%s: %s was answered by the status %d, %q %s", k.Action, b.what, r.status, r.body, r.err)
			}
		}
		if len(x.viols) > 3 {
			return
		}
	}
	ex, r := l.post(k, valid, rs, nil)
	if ex.handled != 1 || r.status != 200 {
		x.Fail("C18", "after", "%s: a valid request after bad ones is not handled any more: %d %s", k.Action, r.status, r.body)
	}
}

func soapBadResponses(x *X) {
	k := soapKinds[pick(len(soapKinds))]
	class := pick(6)
	s := newScriptedSoap(x, k, "cp1")
	if s == nil {
		return
	}
	rq := newBase(func() interface{} { return k.Req() }, k.XReq, true).(messages.Request)
	rs := newBase(func() interface{} { return k.Resp() }, k.XResp, true)
	valid := soapEnvelope(soapElem(k, rs, true, 0), "", 0)
	const ct = "application/soap+xml"
	type reply struct {
		what, raw string
		cl        bool
		max       float64 // seconds
	}
	var rep []reply
	add := func(what, raw string) { rep = append(rep, reply{what, raw, true, 0.5}) }
	switch class {
	case 0:
		for _, b := range badXML(valid) {
			add("200 "+b.what, httpReply(200, ct, b.body))
			add("500 "+b.what, httpReply(500, ct, b.body))
		}
		// a fault is never a success, whatever it says
		for _, f := range []string{"", "<S:Code><S:Value>S:Receiver</S:Value></S:Code>",
			"<S:Code><S:Value>S:Receiver</S:Value></S:Code><S:Reason/>",
			`<S:Code><S:Value>S:Sender</S:Value></S:Code><S:Reason><S:Text xml:lang="en"></S:Text></S:Reason>`,
			`<S:Code><S:Value>S:Sender</S:Value></S:Code><S:Reason><S:Text xml:lang="en"> </S:Text></S:Reason>`,
			"<faultcode>Client</faultcode><faultstring>refused</faultstring>", "<faultcode>Client</faultcode><faultstring/>",
			"<S:Code><S:Value>S:Receiver</S:Value></S:Code><detail><x/></detail>", "text"} {
			for _, st := range []int{200, 400, 500} {
				add(fmt.Sprintf("%d and a fault with %q", st, f), httpReply(st, ct, soapEnvelope("<S:Fault>"+f+"</S:Fault>", "", 0)))
			}
		}
		elem := soapElem(k, rs, true, 0)
		for _, f := range []string{"<S:Fault/>", "<S:Fault><S:Code><S:Value>S:Receiver</S:Value></S:Code></S:Fault>"} {
			add("a fault and a response", httpReply(200, ct, soapEnvelope(f+elem, "", 0)))
			add("a response and a fault", httpReply(200, ct, soapEnvelope(elem+f, "", 0)))
		}
		for _, st := range []int{204, 400, 401, 404, 500, 501, 503} {
			add(fmt.Sprint(st, " without body"), fmt.Sprintf("HTTP/1.1 %d X\r\nContent-Length: 0\r\n\r\n", st))
			add(fmt.Sprint(st, " with text"), httpReply(st, "text/plain", "error"))
			if st >= 400 {
				add(fmt.Sprint(st, " with a response"), httpReply(st, ct, valid))
			}
		}
	case 1:
		for _, o := range soapKinds {
			om := newBase(func() interface{} { return o.Req() }, o.XReq, true)
			add("the request "+o.Action, httpReply(200, ct, soapEnvelope(soapElem(o, om, false, 0), "", 0)))
			if o != k {
				om = newBase(func() interface{} { return o.Resp() }, o.XResp, true)
				add("the response "+o.Action+" of the "+who(!o.FromCP), httpReply(200, ct, soapEnvelope(soapElem(o, om, true, 0), "", 0)))
			}
		}
	case 2:
		for _, b := range wrongTyped(k, true) {
			add(b.what, httpReply(200, ct, b.body))
		}
	case 3: // truncated
		p := pick(8)
		for i := p; i < len(valid); i += 8 {
			add(fmt.Sprintf("a message truncated after %d of %d bytes", i, len(valid)), httpReply(200, ct, valid[:i]))
		}
	case 4: // the connection ends within the reply
		p := pick(8)
		full := httpReply(200, ct, valid)
		for i := p; i < len(full)-1; i += 8 {
			add(fmt.Sprintf("a reply that breaks after %d of %d bytes", i, len(full)), full[:i])
		}
		add("not HTTP", "hello\r\n\r\n")
		add("a bad status line", "HTTP/1.1 abc OK\r\n\r\n")
		add("a websocket handshake", "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n\r\n")
	case 5: // silence
		full := httpReply(200, ct, valid)
		for _, i := range []int{0, 5, strings.Index(full, "\r\n\r\n") + 4, strings.Index(full, "\r\n\r\n") + 40, len(full) - 1} {
			rep = append(rep, reply{fmt.Sprintf("silence after %d of %d bytes", i, len(full)), full[:i], false, 61})
		}
	}
	for _, r := range rep {
		x.cases++
		t := runtime.McNow()
		resp, err := s.send(rq, r.raw, r.cl)
		d := float64(runtime.McNow()-t) / 1e9
		if err == nil {
			x.Fail("C18", "error:"+r.what, "%s answered by %s: Send returned no error", k.Action, r.what)
		}
		if resp != nil && !reflect.ValueOf(resp).IsNil() {
			x.Fail("C18", "response:"+r.what, "%s answered by %s: Send returned a response", k.Action, r.what)
		}
		if d > r.max {
			x.Fail("C18", "time:"+r.what, "%s answered by %s: Send took %.1f s", k.Action, r.what, d)
		}
		if len(x.viols) > 3 {
			return
		}
	}
	if class == 5 {
		// nobody there, or nobody who answers the connection
		s.srv.l.Close()
		x.Settle()
		resp, err := s.send1(rq)
		if err == nil || resp != nil && !reflect.ValueOf(resp).IsNil() {
			x.Fail("C18", "refused", "%s to a closed port: Send returned %v %v", k.Action, resp, err)
		}
		return
	}
	resp, err := s.send(rq, httpReply(200, ct, valid), true)
	if err != nil {
		x.Fail("C18", "client-after", "%s: a valid response after bad ones: Send returned the error %s", k.Action, short(err))
	} else if d := msgDiff(rs, resp, false); d != "" {
		x.Fail("C18", "client-after", "%s: a valid response after bad ones was received with %s", k.Action, d)
	}
}

// concurrent requests ---------------------------------------------------------

func soapConc(x *X, ncp, nsend int, fails bool) {
	csys := startCS(x, func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		a, ok := r.(*cpreq.StartTransaction)
		if !ok {
			return nil, errors.New("unexpected type")
		}
		x.Log("cs-handled", md.ChargePointID, a.IdTag, 0)
		if fails {
			return nil, fmt.Errorf("refused to %s: %d", md.ChargePointID, a.MeterStart)
		}
		return &cpresp.StartTransaction{TransactionId: int32(a.MeterStart + 1000), IdTagInfo: &cpresp.IdTagInfo{Status: "Accepted", ParentIdTag: md.ChargePointID}}, nil
	})
	type one struct {
		op   *sendOp
		cp   bool
		id   string
		n    int
		what string
	}
	var ops []one
	var go1 []func()
	for i := 0; i < ncp; i++ {
		id := "cp" + strconv.Itoa(i)
		port := "910" + strconv.Itoa(i)
		c, _, err := startSoapCP(x, id, "http://sim:9000", ":"+port, func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
			a, ok := r.(*csreq.SendLocalList)
			if !ok {
				return nil, errors.New("unexpected type")
			}
			x.Log("cp-handled", id, fmt.Sprint(a.ListVersion), 0)
			if fails || a.ListVersion%2 == 1 {
				return nil, fmt.Errorf("refused by %s: %d", id, a.ListVersion)
			}
			return &csresp.SendLocalList{Status: "Accepted"}, nil
		})
		if err != nil {
			x.Setup("cp.New: %v", err)
			return
		}
		svc, err := csys.GetServiceOf(id, ocpp.V15, "http://sim:"+port)
		if err != nil {
			x.Setup("GetServiceOf: %v", err)
			return
		}
		for j := 0; j < nsend; j++ {
			n := 10*i + j
			go1 = append(go1, func() {
				ops = append(ops, one{goSendCS(c, &cpreq.StartTransaction{ConnectorId: 1, IdTag: "tag" + strconv.Itoa(n), MeterStart: n, Timestamp: t0}), true, id, n, "StartTransaction"})
			}, func() {
				ops = append(ops, one{goSendCP(svc, &csreq.SendLocalList{ListVersion: n, UpdateType: "Full"}), false, id, n, "SendLocalList"})
			})
		}
	}
	x.Explore(true)
	for _, f := range go1 {
		f()
	}
	x.Advance(sec(1))
	x.Explore(false)
	x.Sync()
	for _, o := range ops {
		what := fmt.Sprintf("%s %d of %s", o.what, o.n, o.id)
		if !o.op.isDone() {
			x.Fail("C16", "pending", "%s did not return", what)
			continue
		}
		if o.cp && fails {
			if o.op.err == nil || o.op.err.Error() != fmt.Sprintf("refused to %s: %d", o.id, o.n) {
				x.Fail("C16,C17", "mixed", "%s received the error %v", what, o.op.err)
			}
		} else if o.cp {
			r, ok := o.op.resp.(*cpresp.StartTransaction)
			if o.op.err != nil || !ok {
				x.Fail("C16", "error", "%s: %v", what, o.op.err)
				continue
			}
			if int(r.TransactionId) != o.n+1000 || r.IdTagInfo == nil || r.IdTagInfo.ParentIdTag != o.id {
				x.Fail("C16", "mixed", "%s received the response of another one", what)
			}
			n := 0
			for _, e := range x.events() {
				if e.kind == "cs-handled" && e.b == "tag"+strconv.Itoa(o.n) {
					n++
					if e.a != o.id {
						x.Fail("C16", "identity", "%s was handled as one of %q", what, e.a)
					}
				}
			}
			if n != 1 {
				x.Fail("C16", "count", "%s was handled %d times", what, n)
			}
		} else {
			r, _ := o.op.resp.(*csresp.SendLocalList)
			if fails || o.n%2 == 1 {
				if o.op.err == nil || o.op.err.Error() != fmt.Sprintf("refused by %s: %d", o.id, o.n) {
					x.Fail("C16,C17", "mixed", "%s received the error %v", what, o.op.err)
				}
			} else if o.op.err != nil || r == nil || r.Status != "Accepted" {
				x.Fail("C16", "error", "%s: %v", what, o.op.err)
			}
			n := 0
			for _, e := range x.events() {
				if e.kind == "cp-handled" && e.b == strconv.Itoa(o.n) {
					n++
					if e.a != o.id {
						x.Fail("C16", "identity", "%s was handled by %q", what, e.a)
					}
				}
			}
			if n != 1 {
				x.Fail("C16", "count", "%s was handled %d times", what, n)
			}
		}
	}
	x.cases++
}

func init() {
	reg(&Scenario{ID: "soap-peers", Props: []string{"C24", "C16"}, Hist: true, Quick: 0, Thorough: 0,
		Desc: "scripted SOAP peers that encode in four styles (prefixes, default namespaces, white space, comments, CDATA) exchange every message type of OCPP 1.5 with the library, every single field deviating",
		Run:  soapPeers})
	reg(&Scenario{ID: "soap-faults", Props: []string{"C17"}, Hist: true, Quick: 0, Thorough: 0,
		Desc: "every message type of OCPP 1.5 in both directions, handlers returning an enumerated set of errors, errors with a response, nil and nil pointers; scripted faults in four styles with the statuses 200 and 500",
		Run:  soapFaults})
	reg(&Scenario{ID: "soap-bad-requests", Props: []string{"C18"}, Hist: true, Quick: 0, Thorough: 0,
		Desc: "both SOAP servers: non-messages, responses, requests of the other role, scalars of wrong types, every truncation point (as complete HTTP requests and as broken connections), for every message type; a valid request afterwards",
		Run:  soapBadRequests})
	reg(&Scenario{ID: "soap-bad-responses", Props: []string{"C18"}, Hist: true, Quick: 0, Thorough: 0,
		Desc: "both SOAP clients: non-messages with status 200 and 500, error statuses, all other messages, scalars of wrong types, every truncation point, every point of connection loss, silence, a closed port, for every message type; a valid response afterwards",
		Run:  soapBadResponses})
	reg(&Scenario{ID: "soap-conc-1", Props: []string{"C16", "C05"}, Quick: 1, Thorough: 2,
		Desc: "one SOAP charge point and the central system send to each other concurrently",
		Run:  func(x *X) { soapConc(x, 1, 1, false) }})
	reg(&Scenario{ID: "soap-conc-2", Props: []string{"C16"}, NoBlock: true, Quick: 1, Thorough: 1,
		Desc: "two SOAP charge points and the central system send two requests each concurrently in both directions",
		Run:  func(x *X) { soapConc(x, 2, 2, false) }})
	reg(&Scenario{ID: "soap-conc-faults-1", Props: []string{"C16", "C17"}, Quick: 2, Thorough: 2,
		Desc: "one SOAP charge point and the central system send two requests each concurrently, all handlers fail",
		Run:  func(x *X) { soapConc(x, 1, 2, true) }})
	reg(&Scenario{ID: "soap-conc-faults-2", Props: []string{"C16", "C17"}, Quick: 1, Thorough: 2,
		Desc: "two SOAP charge points and the central system send to each other concurrently, all handlers fail",
		Run:  func(x *X) { soapConc(x, 2, 1, true) }})
}
