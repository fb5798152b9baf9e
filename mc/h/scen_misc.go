//go:build go1.22

package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
)

// rawUpgrade dials the central system with the given request head.
func rawUpgrade(x *X, port, head string) *wsPeer {
	nc, err := simDial(nil, "tcp", "sim:"+port)
	if err != nil {
		return nil
	}
	p := &wsPeer{x: x, name: "raw", c: nc.(*simConn), client: true}
	p.c.Write([]byte(head))
	h, ok := p.readHead()
	if !ok {
		p.eof = true
		return p
	}
	f := strings.Fields(h)
	if len(f) > 1 {
		for _, ch := range f[1] {
			p.status = p.status*10 + int(ch-'0')
		}
	}
	p.hdr = h
	p.proto = headVal(h, "Sec-WebSocket-Protocol")
	return p
}

func headVals(h, key string) []string {
	var r []string
	for _, ln := range strings.Split(h, "\r\n") {
		if i := strings.IndexByte(ln, ':'); i > 0 && strings.EqualFold(ln[:i], key) {
			r = append(r, strings.TrimSpace(ln[i+1:]))
		}
	}
	return r
}

const wsHead = "Upgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n"

// echoCS answers StartTransaction with the identity and the meter.
func echoCS(x *X, extra func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata)) csHandler {
	return func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		st, ok := r.(*cpreq.StartTransaction)
		if !ok {
			return nil, errors.New("unexpected")
		}
		path := ""
		if md.HTTPRequest != nil {
			path = md.HTTPRequest.URL.Path
		}
		x.Log("handle", md.ChargePointID, path, int64(st.MeterStart))
		if extra != nil {
			extra(r, md)
		}
		return &cpresp.StartTransaction{TransactionId: int32(st.MeterStart) + 1000, IdTagInfo: &cpresp.IdTagInfo{Status: "Accepted", ParentIdTag: md.ChargePointID}}, nil
	}
}

func startTx(id string, n int) string {
	return fmt.Sprintf(`[2,%s,"StartTransaction",{"connectorId":1,"idTag":"T","meterStart":%d,"timestamp":"2020-01-01T00:00:00Z"}]`, q(id), n)
}

// serves: a request over p is handled once as one of id and answered, and the
// central system can send to id.
func serves(x *X, csys cs.CentralSystem, p *wsPeer, id string, n int) string {
	if p == nil || p.closed() {
		return "its connection is closed"
	}
	before, nh := len(p.msgs()), x.count("handle", "")
	p.sendText(startTx("s"+itoa(n), n))
	x.Settle()
	m := p.msgs()
	if len(m) != before+1 || m[before].Type != 3 || m[before].ID != "s"+itoa(n) || field(m[before].Payload, "transactionId") != itoa(n+1000) {
		return fmt.Sprintf("its request was answered by %d messages", len(m)-before)
	}
	if x.count("handle", "") != nh+1 || x.count("handle", id) < 1 {
		return "its request was not handled once as one of " + q(id)
	}
	for i := range x.events() {
		if e := &x.events()[i]; e.kind == "handle" && e.n == int64(n) && e.a != id {
			return fmt.Sprintf("its request was handled as one of %q", e.a)
		}
	}
	svc, err := csys.GetServiceOf(id, ocpp.V16, "")
	if err != nil || svc == nil {
		return fmt.Sprintf("GetServiceOf: %v", err)
	}
	old := p.onText
	p.onText = answerCall
	op := goSendCP(svc, &csreq.GetConfiguration{Key: []string{itoa(n)}})
	x.Settle()
	p.onText = old
	if !op.isDone() {
		return "a Send to it did not return"
	}
	r, ok := op.resp.(*csresp.GetConfiguration)
	if op.err != nil || !ok || strings.Join(r.UnknownKey, ",") != itoa(n) {
		return fmt.Sprintf("a Send to it returned (%T, %v)", op.resp, short(op.err))
	}
	return ""
}

// C26 -------------------------------------------------------------------------

var protoTokens = []string{"ocpp1.6", "ocpp1.5", "ocpp2.0.1", "OCPP1.6", "ocpp1.60", "xocpp1.6", "soap", "ocpp1.6.1"}

func negotiateCS(x *X) {
	csys := startCS(x, echoCS(x, nil))
	first := pick(len(protoTokens) + 1)
	layout := pick(6)
	var offers [][]string
	if first == len(protoTokens) {
		offers = [][]string{nil}
	} else {
		offers = append(offers, []string{protoTokens[first]})
		for i := range protoTokens {
			offers = append(offers, []string{protoTokens[first], protoTokens[i]})
			for j := range protoTokens {
				offers = append(offers, []string{protoTokens[first], protoTokens[i], protoTokens[j]})
				if i != j {
					offers = append(offers, []string{protoTokens[first], protoTokens[j], protoTokens[i], "mqtt"}, []string{"wamp", protoTokens[i], protoTokens[first], protoTokens[j], protoTokens[i]})
				}
			}
		}
		// one token somewhere in a long offer
		for _, n := range []int{6, 9, 17, 40} {
			for at := 0; at < n; at += 1 + n/8 {
				var o []string
				for i := 0; i < n; i++ {
					o = append(o, "proto"+itoa(i))
				}
				o[at] = protoTokens[first]
				offers = append(offers, o)
			}
		}
	}
	extra := []string{"", "Origin: http://elsewhere:8080\r\n", "Sec-WebSocket-Extensions: permessage-deflate; client_max_window_bits\r\n", "Authorization: Basic Y3A6eA==\r\nCookie: a=b\r\nUser-Agent: ocpp1.6\r\n"}[pick(4)]
	for n, o := range offers {
		x.cases++
		hd := ""
		if len(o) > 0 {
			const H = "Sec-WebSocket-Protocol: "
			switch layout {
			case 0:
				hd = H + strings.Join(o, ", ") + "\r\n"
			case 1:
				hd = H + strings.Join(o, ",") + "\r\n"
			case 2:
				hd = H + strings.Join(o, "\r\n"+H) + "\r\n"
			case 3:
				hd = H + " " + strings.Join(o, " ,\t") + " \r\n"
			case 4:
				hd = "sec-websocket-protocol:" + o[0] + "\r\n"
				if len(o) > 1 {
					hd += H + strings.Join(o[1:], ", ") + "\r\n"
				}
			case 5:
				hd = H + strings.Join(o[:len(o)-1], ", ") + "\r\n" + H + o[len(o)-1] + "\r\n"
			}
		} else if layout == 1 {
			hd = "Sec-WebSocket-Protocol:\r\n"
		} else if layout > 1 {
			return
		}
		id := "cp" + itoa(n)
		p := rawUpgrade(x, "9000", "GET /"+id+" HTTP/1.1\r\nHost: cs\r\n"+wsHead+extra+hd+"\r\n")
		what := fmt.Sprintf("the offer %q with %q", hd, extra)
		if p == nil || p.status != 101 {
			x.Fail("C26", "refused", "%s was refused", what)
			return
		}
		want := false
		for _, t := range o {
			want = want || t == "ocpp1.6"
		}
		got := headVals(p.hdr, "Sec-WebSocket-Protocol")
		switch {
		case want && (len(got) != 1 || got[0] != "ocpp1.6"):
			x.Fail("C26", "not-selected", "%s: selected %q instead of ocpp1.6", what, got)
		case !want && len(got) != 0:
			x.Fail("C26", "selected", "%s: selected %q", what, got)
		}
		p.start()
		x.Settle()
		if e := serves(x, csys, p, id, n+1); e != "" {
			x.Fail("C26", "served", "%s: the connection is not served: %s", what, e)
			return
		}
		p.c.Close()
		x.Settle()
	}
}

func negotiateCP(x *X) {
	v := []ocpp.Version{ocpp.V16, ocpp.V15}[pick(2)]
	want := map[ocpp.Version]string{ocpp.V16: "ocpp1.6", ocpp.V15: "ocpp1.5"}[v]
	echo := pick(2) == 0
	s := listenPeer(x, "9001")
	s.onText = answerCall
	s.noProto = !echo
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	c, err := cp.New(ctx, "cp1", "ws://sim:9001", v, ocpp.JSON, nil, nopCP(x))
	if err != nil {
		x.Fail("C26", "cp-new", "cp.New with version %v: %v", v, err)
		return
	}
	x.Settle()
	for round := 0; round < 2; round++ {
		x.cases++
		p := s.last()
		got := strings.Join(headVals(p.hdr, "Sec-WebSocket-Protocol"), "|")
		if got != want {
			x.Fail("C26", "offer", "connection %d of a charge point of version %v offered %q", round+1, v, got)
		}
		op := goSendCS(c, &cpreq.Authorize{IdTag: "x"})
		x.Settle()
		if !op.isDone() || op.err != nil {
			x.Fail("C26", "cp-served", "the connection is not served")
		}
		p.c.Close()
		x.Advance(6 * time.Second)
	}
}

// C12 -------------------------------------------------------------------------

var idChars = []string{"a", "Z", "0", " ", "%", "?", "#", "+", "&", "=", ";", ":", "@", "\"", "\\", "'", "ü", "中", "<", ">", "{", "|", "~", "^", "`", "$", ",", "!", "*", "(", "[", "]", "-", "_", "/", ".", "%2F", "%20", "\t", "\x7f", "\xff", "é"}

// cleanID: without empty and dot segments (net/http redirects those paths)
func cleanID(id string) bool {
	seg := strings.Split(id, "/")
	for i, s := range seg {
		if s == "." || s == ".." || s == "" && (i < len(seg)-1 || i == 0) {
			return false
		}
	}
	return true
}

func identities(x *X) {
	var got, gone []string
	csys := startCSOn(x, "9000", echoCS(x, nil), func(c cs.CentralSystem) {
		c.SetChargePointConnectionListener(func(id string) { got = append(got, id) })
		c.SetChargePointDisconnectionListener(func(id string) { gone = append(gone, id) })
	})
	first := pick(len(idChars))
	var ids []string
	c0 := idChars[first]
	ids = append(ids, c0, "CP-"+c0+"-1")
	for _, d := range idChars {
		ids = append(ids, c0+d, "a"+c0+d+"b")
	}
	n := 0
	for _, id := range ids {
		if !cleanID(id) {
			continue
		}
		n++
		x.cases++
		ctx, cancel := context.WithCancel(context.Background())
		got, gone = nil, nil
		c, err := cp.New(ctx, id, "ws://sim:9000", ocpp.V16, ocpp.JSON, nil, func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
			if r, ok := r.(*csreq.GetConfiguration); ok {
				return &csresp.GetConfiguration{UnknownKey: append(r.Key, id)}, nil
			}
			return nil, errors.New("unexpected")
		})
		if err != nil {
			x.Fail("C12", "id-new", "a charge point with the identity %q could not connect: %v", id, err)
			cancel()
			return
		}
		x.Settle()
		if len(got) != 1 || got[0] != id {
			x.Fail("C12", "id-known", "the charge point %q is known to the central system as %q", id, got)
		}
		op := goSendCS(c, &cpreq.StartTransaction{ConnectorId: 1, IdTag: "T", MeterStart: n, Timestamp: t0})
		x.Settle()
		rs, ok := op.resp.(*cpresp.StartTransaction)
		if !op.isDone() || op.err != nil || !ok || rs.IdTagInfo == nil || int(rs.TransactionId) != n+1000 {
			x.Fail("C12", "id-send", "a Send of the charge point %q returned (%T, %v)", id, op.resp, op.err)
		} else {
			ok := false
			for i := range x.events() {
				if e := &x.events()[i]; e.kind == "handle" && e.n == int64(n) && e.a == id {
					ok = true
				}
			}
			if !ok {
				x.Fail("C12", "id-metadata", "a request of the charge point %q was attributed to another one", id)
			}
		}
		svc, err := csys.GetServiceOf(id, ocpp.V16, "")
		if err != nil {
			x.Fail("C12", "id-service", "the charge point %q is not reachable: %v", id, err)
		} else {
			op := goSendCP(svc, &csreq.GetConfiguration{Key: []string{"k"}})
			x.Settle()
			rs, ok := op.resp.(*csresp.GetConfiguration)
			if !op.isDone() || op.err != nil || !ok || len(rs.UnknownKey) != 2 || utf8.ValidString(id) && rs.UnknownKey[1] != id {
				x.Fail("C12", "id-reach", "a Send to the charge point %q returned (%T, %v)", id, op.resp, op.err)
			}
		}
		if !closedNow(csys.WaitConnect(id)) || closedNow(csys.WaitDisconnect(id)) {
			x.Fail("C12,C11", "id-wait", "%q is connected, but WaitConnect is done: %v, WaitDisconnect is done: %v", id, closedNow(csys.WaitConnect(id)), closedNow(csys.WaitDisconnect(id)))
		}
		for _, o := range []string{strings.ToLower(id), strings.ToUpper(id), strings.TrimSpace(id), id + " ", " " + id, id + "/", "/" + id, url.PathEscape(id), url.QueryEscape(id), id + "x", id[:len(id)-1], ""} {
			if o == id {
				continue
			}
			if svc, err := csys.GetServiceOf(o, ocpp.V16, ""); err == nil || svc != nil {
				x.Fail("C12,C09", "id-other", "%q is connected, and %q is reachable", id, o)
			}
			if closedNow(csys.WaitConnect(o)) || !closedNow(csys.WaitDisconnect(o)) {
				x.Fail("C12,C11", "id-other-wait", "%q is connected, but WaitConnect of %q is done: %v, WaitDisconnect is done: %v", id, o, closedNow(csys.WaitConnect(o)), closedNow(csys.WaitDisconnect(o)))
			}
		}
		if c.Identity() != id {
			x.Fail("C12", "id-self", "Identity() of the charge point %q is %q", id, c.Identity())
		}
		cancel()
		x.Settle()
		x.Settle()
		if len(gone) != 1 || gone[0] != id {
			x.Fail("C12,C10", "id-gone", "the end of the charge point %q was notified as %q", id, gone)
		}
		if svc, err := csys.GetServiceOf(id, ocpp.V16, ""); err == nil || svc != nil || closedNow(csys.WaitConnect(id)) || !closedNow(csys.WaitDisconnect(id)) {
			x.Fail("C12,C09,C11", "id-end", "%q has left: reachable %v, WaitConnect is done: %v, WaitDisconnect is done: %v", id, err == nil, closedNow(csys.WaitConnect(id)), closedNow(csys.WaitDisconnect(id)))
		}
		if len(x.viols) > 0 {
			return
		}
	}
}

// C27 -------------------------------------------------------------------------

func dispatch(x *X) {
	csys := startCS(x, echoCS(x, nil))
	a := connectPeer(x, "cpA")
	b := connectPeer(x, "cpB")
	live := 2
	n := 0
	check := func(what string) bool {
		n += 2
		for i, p := range []*wsPeer{a, b} {
			if e := serves(x, csys, p, []string{"cpA", "cpB"}[i], n+i); e != "" {
				x.Fail("C27", "disturbed", "after %s: %s: %s", what, []string{"cpA", "cpB"}[i], e)
				return false
			}
		}
		code, body := httpGet(x, "9000", "/")
		if code != 200 || !strings.Contains(body, fmt.Sprintf("connected with %d OCPP-J", live)) {
			x.Fail("C27", "page", "after %s: status %d, %q with %d connected charge points", what, code, body, live)
			return false
		}
		return true
	}
	methods := []string{"GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH"}
	method := methods[pick(len(methods))]
	k := soapKindOf("StartTransaction")
	ups := []struct {
		name, hd string
		kind     int // 0 no upgrade, 1 upgrade, 2 bad upgrade
	}{
		{"no headers", "", 0},
		{"headers of a SOAP client", "Accept: application/soap+xml, text/xml, multipart/related\r\nSOAPAction: \"/StartTransaction\"\r\nContent-Type: application/soap+xml; charset=utf-8\r\n", 0},
		{"headers of a browser", "Accept: text/html\r\nUser-Agent: Mozilla/5.0\r\nCookie: a=b\r\nAuthorization: Basic eDp5\r\nX-Forwarded-For: 1.2.3.4\r\nX-Forwarded-Proto: https\r\nSec-WebSocket-Protocol: ocpp1.6\r\n", 0},
		{"an upgrade", wsHead, 1},
		{"an upgrade with other headers", wsHead + "Accept: application/soap+xml\r\nUser-Agent: x\r\nCookie: a=b\r\nAuthorization: Basic eDp5\r\nX-Forwarded-For: 1.2.3.4\r\nContent-Type: application/soap+xml\r\n", 1},
		{"an upgrade in other letters", "upgrade: WebSocket\r\nconnection: keep-alive, UPGRADE\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n", 1},
		{"an upgrade with an origin", wsHead + "Origin: http://elsewhere\r\n", 1},
		{"an upgrade with extensions", wsHead + "Sec-WebSocket-Extensions: permessage-deflate; client_max_window_bits\r\n", 1},
		{"an upgrade without Connection", strings.Replace(wsHead, "Connection: Upgrade\r\n", "", 1), 0},
		{"an upgrade without Upgrade", strings.Replace(wsHead, "Upgrade: websocket\r\n", "", 1), 0},
		{"an upgrade to h2c", "Connection: Upgrade, HTTP2-Settings\r\nUpgrade: h2c\r\n", 0},
		{"an upgrade of version 8", strings.Replace(wsHead, "13", "8", 1), 2},
		{"an upgrade without version", strings.Replace(wsHead, "Sec-WebSocket-Version: 13\r\n", "", 1), 2},
		{"an upgrade without key", strings.Replace(wsHead, "Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n", "", 1), 2},
	}
	up := ups[pick(len(ups))]
	for _, path := range []string{"/", "/cpA", "/other", "/a/b/c", "/x?cp=cpA&y=1", "/%41%20", "/very" + strings.Repeat("long", 500)} {
		bodies := []string{""}
		if method == "POST" || method == "PUT" {
			good := soapEnvelope(soapElem(k, &cpreq.StartTransaction{ConnectorId: 1, IdTag: "S", MeterStart: 7777, Timestamp: t0}, false, 0), soapHeader(k, "soapcp", "http://h/"), 0)
			bodies = []string{"", "junk", good}
		}
		for bi, body := range bodies {
			x.cases++
			what := fmt.Sprintf("%s %.60s with %s and body %d", method, path, up.name, bi)
			hd := up.hd
			if body != "" {
				hd += fmt.Sprintf("Content-Type: application/soap+xml\r\nContent-Length: %d\r\n", len(body))
			}
			if up.kind == 1 && method == "GET" {
				// a connection of its own
				p := rawUpgrade(x, "9000", "GET "+path+" HTTP/1.1\r\nHost: cs\r\n"+hd+"\r\n")
				if p == nil || p.status != 101 {
					x.Fail("C27", "upgrade", "%s was not upgraded", what)
					return
				}
				p.start()
				x.Settle()
				id := strings.TrimPrefix(strings.SplitN(path, "?", 2)[0], "/")
				if id == "%41%20" {
					id = "A "
				}
				n += 2
				if e := serves(x, csys, p, id, n); e != "" {
					x.Fail("C27", "upgraded", "%s: the connection is not served: %s", what, e)
					return
				}
				code, pg := httpGet(x, "9000", "/")
				l := live
				if id != "cpA" {
					l++
				}
				if code != 200 || !strings.Contains(pg, fmt.Sprintf("connected with %d OCPP-J", l)) {
					x.Fail("C27", "page", "%s: status %d, %q with %d connected charge points", what, code, pg, l)
				}
				p.c.Close()
				x.Advance(10 * time.Millisecond)
			} else {
				nh := x.count("handle", "")
				raw := method + " " + path + " HTTP/1.1\r\nHost: cs\r\n" + hd
				if !strings.Contains(raw, "onnection:") {
					raw += "Connection: close\r\n"
				}
				m := httpExchangeT(x, "9000", raw+"\r\n"+body)
				handled := x.count("handle", "") - nh
				switch {
				case m.status == 0:
					x.Fail("C27", "no-answer", "%s was not answered", what)
				case method == "GET" && up.kind == 0 && (m.status != 200 || !strings.Contains(m.body, fmt.Sprintf("connected with %d OCPP-J", live))):
					x.Fail("C27", "page", "%s: status %d, %q", what, m.status, m.body)
				case up.kind == 2 && method == "GET" && m.status < 400:
					x.Fail("C27", "bad-upgrade", "%s: status %d", what, m.status)
				case method == "POST" && up.kind == 0 && bi == 2:
					if handled != 1 || m.status != 200 || !strings.Contains(m.body, "<transactionId>8777<") && !strings.Contains(m.body, ">8777<") {
						x.Fail("C27", "soap", "%s: handled %d times, status %d, %s", what, handled, m.status, m.body)
					}
					if e := x.find("handle", "soapcp"); e == nil {
						x.Fail("C27", "soap-id", "%s: not handled as one of soapcp", what)
					}
				case method != "PUT" && handled != 0:
					x.Fail("C27", "handled", "%s: handled %d times", what, handled)
				}
			}
			if !check(what) {
				return
			}
		}
	}
	if svc, err := csys.GetServiceOf("soapcp", ocpp.V16, ""); err == nil || svc != nil {
		x.Fail("C27", "table", "a SOAP request entered the connection table")
	}
}

// httpExchangeT sends raw and returns the answer, waiting a second at most.
func httpExchangeT(x *X, port, raw string) httpMsg {
	nc, err := simDial(nil, "tcp", "sim:"+port)
	if err != nil {
		return httpMsg{}
	}
	c := nc.(*simConn)
	c.Write([]byte(raw))
	c.SetReadDeadline(time.Now().Add(time.Second))
	var buf []byte
	b := make([]byte, 4096)
	for {
		n, err := c.Read(b)
		buf = append(buf, b[:n]...)
		if err != nil {
			break
		}
	}
	c.Close()
	buf = bytes.TrimPrefix(buf, []byte("HTTP/1.1 100 Continue\r\n\r\n"))
	if len(buf) == 0 {
		return httpMsg{}
	}
	return parseHTTPResponse(buf)
}

var _ = http.StatusOK

// C19 -------------------------------------------------------------------------

var blockers = []string{"its handler is busy with a request", "its connection listener is busy", "its disconnection listener is busy", "the handler is busy with a SOAP request", "a Send to it is pending", "it does not read and a Send to it is blocked", "it does not read and an answer to it is blocked", "its connection listener waits for an answer of its charge point", "its handler waits for an answer of another charge point",
	"the answer to another upgrade cannot be written", "half of another upgrade arrived", "half of a SOAP request arrived", "the answer to a SOAP request cannot be written", "the page cannot be written", "an upgrade came with a body that is not complete", "half of a websocket frame arrived"}

func slow(x *X, explore bool) {
	how := pick(len(blockers))
	var rel bool
	busy := func() {
		for !rel {
			time.Sleep(100 * time.Millisecond)
		}
	}
	var csys cs.CentralSystem
	csys = startCSOn(x, "9000", func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		st, ok := r.(*cpreq.StartTransaction)
		if !ok {
			return nil, errors.New("unexpected")
		}
		x.Log("handle", md.ChargePointID, "", int64(st.MeterStart))
		if st.MeterStart == 666 {
			if how == 8 {
				svc, err := csys.GetServiceOf("mute", ocpp.V16, "")
				if err == nil {
					svc.Send(&csreq.ClearCache{})
				}
			} else {
				busy()
			}
		}
		x.Log("handled", md.ChargePointID, "", int64(st.MeterStart))
		info := ""
		if how == 6 && st.MeterStart == 667 {
			info = strings.Repeat("x", 300)
		}
		return &cpresp.StartTransaction{TransactionId: int32(st.MeterStart) + 1000, IdTagInfo: &cpresp.IdTagInfo{Status: "Accepted", ParentIdTag: info}}, nil
	}, func(c cs.CentralSystem) {
		c.SetChargePointConnectionListener(func(id string) {
			x.Log("connect", id, "", 0)
			if id == "A" && how == 1 {
				busy()
			}
			if id == "A" && how == 7 {
				svc, err := c.GetServiceOf(id, ocpp.V16, "")
				if err == nil {
					svc.Send(&csreq.ClearCache{})
				}
			}
		})
		c.SetChargePointDisconnectionListener(func(id string) {
			x.Log("disconnect", id, "", 0)
			if id == "A2" && how == 2 {
				busy()
			}
		})
	})
	what := blockers[how]
	b := connectPeer(x, "B")
	mute := connectPeer(x, "mute")
	_ = mute
	if explore {
		x.Explore(true)
	}
	a := connectPeer(x, "A")
	var aop *sendOp
	var soapDone bool
	switch how {
	case 0, 8:
		a.sendText(startTx("blk", 666))
	case 2:
		a2 := connectPeer(x, "A2")
		a2.c.Close()
	case 3:
		k := soapKindOf("StartTransaction")
		body := soapEnvelope(soapElem(k, &cpreq.StartTransaction{ConnectorId: 1, IdTag: "S", MeterStart: 666, Timestamp: t0}, false, 0), soapHeader(k, "A", "http://h/"), 0)
		go func() {
			if m := httpExchange(x, "9000", soapPost("/", body)); m.status == 200 {
				soapDone = true
			}
		}()
	case 4, 5:
		if how == 5 {
			a.c.setPeerBlocked(true)
		}
		svc, err := csys.GetServiceOf("A", ocpp.V16, "")
		if err != nil {
			x.Setup("GetServiceOf(A): %v", err)
			return
		}
		aop = goSendCP(svc, &csreq.GetConfiguration{Key: []string{"a"}})
	case 6:
		a.c.setPeerBlocked(true)
		a.sendText(startTx("blk", 667))
	case 15:
		nc, _ := simDial(nil, "tcp", "sim:9000")
		nc.Write([]byte("GET /A3 HTTP/1.1\r\nHost: cs\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n"))
		x.Settle()
		nc.Write([]byte{0x81, 0xfe, 0x10})
	case 9, 10, 11, 12, 13, 14:
		nc, _ := simDial(nil, "tcp", "sim:9000")
		up := "GET /A3 HTTP/1.1\r\nHost: cs\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n"
		k := soapKindOf("StartTransaction")
		post := soapPost("/", soapEnvelope(soapElem(k, &cpreq.StartTransaction{ConnectorId: 1, IdTag: "S", MeterStart: 60, Timestamp: t0}, false, 0), soapHeader(k, "A", "http://h/"), 0))
		switch how {
		case 9:
			nc.(*simConn).setPeerBlocked(true)
			nc.Write([]byte(up + "\r\n"))
		case 10:
			nc.Write([]byte(up[:len(up)-20]))
		case 11:
			nc.Write([]byte(post[:len(post)-40]))
		case 12:
			nc.(*simConn).setPeerBlocked(true)
			nc.Write([]byte(post))
		case 13:
			nc.(*simConn).setPeerBlocked(true)
			nc.Write([]byte("GET / HTTP/1.1\r\nHost: cs\r\n\r\n"))
		case 14:
			nc.Write([]byte(up + "Content-Length: 100\r\n\r\nabc"))
		}
	}
	x.Settle()
	// what others can do meanwhile
	c := connectPeer(x, "C")
	if c == nil || c.status != 101 {
		x.Fail("C19", "connect", "another charge point could not connect while, of A, %s", what)
		return
	}
	if explore {
		x.Advance(5 * time.Millisecond)
		x.Explore(false)
	}
	x.cases++
	for i, p := range []*wsPeer{b, c} {
		id := []string{"B", "C"}[i]
		if e := serves(x, csys, p, id, 10+i); e != "" {
			x.Fail("C19", "others", "%s: %s, while, of A, %s", id, e, what)
			return
		}
		if !closedNow(csys.WaitConnect(id)) || closedNow(csys.WaitDisconnect(id)) {
			x.Fail("C19", "wait", "the wait channels of %s are wrong while, of A, %s", id, what)
		}
		if x.count("connect", id) != 1 {
			x.Fail("C19", "notify", "the connection of %s was notified %d times while, of A, %s", id, x.count("connect", id), what)
		}
	}
	k := soapKindOf("StartTransaction")
	body := soapEnvelope(soapElem(k, &cpreq.StartTransaction{ConnectorId: 1, IdTag: "S", MeterStart: 20, Timestamp: t0}, false, 0), soapHeader(k, "D", "http://h/"), 0)
	if m := httpExchangeT(x, "9000", soapPost("/", body)); m.status != 200 || x.count("handle", "D") != 1 {
		x.Fail("C19", "soap", "a SOAP request of another charge point was answered by %d while, of A, %s", m.status, what)
	}
	if m := httpExchangeT(x, "9000", "GET / HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n"); m.status != 200 {
		x.Fail("C19", "page", "the page was answered by %d while, of A, %s", m.status, what)
	}
	b.c.Close()
	x.Advance(10 * time.Millisecond)
	if x.count("disconnect", "B") != 1 {
		x.Fail("C19", "disconnect", "the disconnection of B was notified %d times while, of A, %s", x.count("disconnect", "B"), what)
	}
	if _, err := csys.GetServiceOf("B", ocpp.V16, ""); err == nil {
		x.Fail("C19", "cleanup", "B is still routed to after its disconnection while, of A, %s", what)
	}
	b = connectPeer(x, "B")
	if e := serves(x, csys, b, "B", 30); e != "" {
		x.Fail("C19", "reconnect", "B after a reconnection: %s, while, of A, %s", e, what)
		return
	}
	// A itself
	switch how {
	case 1, 2, 3, 9, 10, 11, 12, 13, 14, 15:
		if e := serves(x, csys, a, "A", 40); e != "" {
			x.Fail("C19", "self", "A itself: %s, although only %s", e, what)
		}
	case 0:
		// a Send to A gets its reply once the handler returned
		svc, err := csys.GetServiceOf("A", ocpp.V16, "")
		if err != nil {
			x.Fail("C19", "self", "A is not routed to while its handler is busy")
			return
		}
		a.onText = answerCall
		aop = goSendCP(svc, &csreq.GetConfiguration{Key: []string{"a"}})
		x.Advance(10 * time.Second)
	case 4:
		if e := serves(x, csys, a, "A", 40); e != "" {
			x.Fail("C19", "self", "A itself: %s, although only %s", e, what)
		}
		for _, m := range a.msgs() {
			if m.Type == 2 && field(m.Payload, "key") == `["a"]` {
				a.sendText(replyTo(m))
			}
		}
	case 5, 6:
		a.onText = answerCall
		a.c.setPeerBlocked(false)
	}
	rel = true
	x.Advance(2 * time.Second)
	switch how {
	case 0, 4, 5:
		if !aop.isDone() || aop.err != nil {
			x.Fail("C19", "send", "a Send to A while %s: done %v, error %v", what, aop.isDone(), short(aop.err))
		}
	case 3:
		if !soapDone {
			x.Fail("C19", "soap-slow", "the slow SOAP request was not answered")
		}
	}
	if how == 0 || how == 6 {
		m := a.msgs()
		ok := 0
		for _, m := range m {
			if m.Type == 3 && m.ID == "blk" {
				ok++
			}
		}
		if ok != 1 {
			x.Fail("C19", "answer", "the slow request of A was answered %d times", ok)
		}
	}
	if how == 0 || how == 1 || how == 5 || how == 6 {
		a.onText = nil
		if e := serves(x, csys, a, "A", 50); e != "" {
			x.Fail("C19", "after", "A afterwards: %s (%s before)", e, what)
		}
	}
}

func init() {
	reg(&Scenario{ID: "ws-offer", Props: []string{"C26"}, Hist: true, Quick: 0, Thorough: 0,
		Desc: "the central system's answer to every offer of up to three out of eight subprotocols and to longer ones, in six header layouts, with and without four other headers", Run: negotiateCS})
	reg(&Scenario{ID: "cp-offer", Props: []string{"C26"}, Hist: true, Quick: 0, Thorough: 0,
		Desc: "what charge points offer at the first and at a later connection", Run: negotiateCP})
	reg(&Scenario{ID: "identities", Props: []string{"C12", "C09", "C10", "C11"}, Hist: true, Quick: 0, Thorough: 0,
		Desc: "charge points with identities of one and two special characters, alone and embedded, connect to the central system with the real client; both directions", Run: identities})
	reg(&Scenario{ID: "dispatch", Props: []string{"C27"}, Hist: true, Quick: 0, Thorough: 0,
		Desc: "seven methods, seven paths, eleven sets of upgrade headers and three bodies at the port of a central system with two connected charge points", Run: dispatch})
	reg(&Scenario{ID: "slow", Props: []string{"C19"}, Hist: true, Quick: 0, Thorough: 0,
		Desc: "sixteen ways to keep the central system busy with one charge point; the others are served", Run: func(x *X) { slow(x, false) }})
	reg(&Scenario{ID: "slow-sched", Props: []string{"C19"}, Hist: true, Quick: 1, Thorough: 2,
		Desc: "sixteen ways to keep the central system busy with one charge point under every schedule within the bound; the others are served", Run: func(x *X) { slow(x, true) }})
}
