//go:build go1.22

package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
)

// The loggers of the application (C30).

// recLog keeps what a logger like the one of the standard library prints.
type recLog struct{ lines []string }

func (l *recLog) Printf(format string, v ...interface{}) {
	l.lines = append(l.lines, fmt.Sprintf(format, v...))
}

// with counts the lines that have text in them.
func (l *recLog) with(text string) int {
	n := 0
	for _, s := range l.lines {
		if strings.Contains(s, text) {
			n++
		}
	}
	return n
}

var logTexts = []string{"plain", "100%", "50% off", "%s %d %v %x", "%%", "%", "a%20b", "%v%", "% d", "%[1]s", "%-", "tab\tquote\"backslash\\", "é€😀", strings.Repeat("long%5", 300)}

// wsRaw checks that every message a peer sent and received is in the debug log
// as it was.
func (l *recLog) wsRaw(x *X, p *wsPeer, sent ...string) {
	for _, s := range sent {
		if l.with(s) == 0 {
			x.Fail("C30", "debug-received", "the message %s that was received is not in the debug log", s)
		}
	}
	for _, s := range p.texts() {
		if l.with(s) == 0 {
			x.Fail("C30", "debug-sent", "the message %s that was sent is not in the debug log", s)
		}
	}
}

func logsRun(x *X) {
	e, d := &recLog{}, &recLog{}
	ocpp.SetErrorLogger(e)
	ocpp.SetDebugLogger(d)
	text := logTexts[pick(len(logTexts))]
	src := pick(18)
	// how often it happens
	rep := 1 + 3*pick(2)
	x.cases++
	errs := func(what, text string, n int) {
		switch k := e.with(text); {
		case k == n:
		case text == "":
			x.Fail("C30", "no-error", "%s: %d lines in the error log instead of %d: %q", what, k, n, e.lines)
		default:
			x.Fail("C30", "error", "%s: %d lines of the error log have the text %q instead of %d: %q", what, k, text, n, e.lines)
		}
	}
	some := func(what string) {
		if len(e.lines) == 0 {
			x.Fail("C30", "no-error", "%s: nothing is in the error log", what)
		}
	}
	csFail := func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		if r, ok := r.(*cpreq.Authorize); ok {
			return &cpresp.Authorize{IdTagInfo: &cpresp.IdTagInfo{Status: "Accepted", ParentIdTag: r.IdTag}}, nil
		}
		return nil, errors.New(text)
	}
	cpFail := func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		if r, ok := r.(*csreq.UnlockConnector); ok {
			return &csresp.UnlockConnector{Status: text + itoa(int(r.ConnectorId))}, nil
		}
		return nil, errors.New(text)
	}
	soapMsg := func(action, elem string) string {
		k := soapKindOf(action)
		return soapEnvelope(elem, soapHeader(k, "cp1", "http://h/"), 0)
	}
	switch src {
	case 0, 1: // a SOAP request whose handler returns an error
		var m httpMsg
		var body string
		if src == 0 {
			startCS(x, csFail)
			k := soapKindOf("Heartbeat")
			body = soapMsg("Heartbeat", soapElem(k, &cpreq.Heartbeat{}, false, 0))
			for i := 0; i < rep; i++ {
				m = httpExchange(x, "9000", soapPost("/", body))
			}
		} else {
			startSoapCP(x, "cp1", "http://sim:9000", ":9100", cpFail)
			k := soapKindOf("ClearCache")
			body = soapMsg("ClearCache", soapElem(k, &csreq.ClearCache{}, false, 0))
			for i := 0; i < rep; i++ {
				m = httpExchange(x, "9100", soapPost("/", body))
			}
		}
		x.Settle()
		errs("the error of a SOAP handler", text, rep)
		if d.with(body) != rep || d.with(m.body) != rep {
			x.Fail("C30", "debug-soap", "the SOAP request is %d times in the debug log, the response %d times: %q", d.with(body), d.with(m.body), d.lines)
		}
	case 2, 3: // a call whose handler returns an error
		var p *wsPeer
		var call string
		if src == 2 {
			startCS(x, csFail)
			p = connectPeer(x, "cp1")
			call = `[2,"id","Heartbeat",{}]`
		} else {
			s := listenPeer(x, "9001")
			startCP(x, context.Background(), "cp1", "9001", cpFail)
			p = s.last()
			call = `[2,"id","ClearCache",{}]`
		}
		p.sendText(call)
		x.Settle()
		if m := p.msgs(); len(m) != 1 || m[0].Type != 4 {
			x.Fail("C30", "answer", "the call was answered by %d messages", len(m))
			return
		}
		d.wsRaw(x, p, call)
	case 4, 5: // a call with the text, whose answer has it as well
		var p *wsPeer
		var call string
		if src == 4 {
			startCS(x, csFail)
			p = connectPeer(x, "cp1")
			call = `[2,` + q(text) + `,"Authorize",{"idTag":` + q(text) + `}]`
		} else {
			s := listenPeer(x, "9001")
			startCP(x, context.Background(), "cp1", "9001", cpFail)
			p = s.last()
			call = `[2,` + q(text) + `,"UnlockConnector",{"connectorId":7}]`
		}
		p.sendText(call)
		x.Settle()
		if len(p.msgs()) != 1 {
			x.Fail("C30", "answer", "the call was answered by %d messages", len(p.msgs()))
		}
		more := []string{`[2,` + q("u"+text) + `,"Nothing",{"x":` + q(text) + `}]`, `[3,` + q("late"+text) + `,{}]`, `[4,` + q("late"+text) + `,"GenericError",` + q(text) + `,{}]`}
		for _, s := range more {
			p.sendText(s)
		}
		x.Settle()
		d.wsRaw(x, p, append(more, call)...)
		errs("a good call", "", 0)
	case 6: // a handshake that fails
		startCS(x, csFail)
		get := "GET /" + strings.Map(func(r rune) rune {
			if r < 'a' || r > 'z' {
				return '_'
			}
			return r
		}, text) + "%25d HTTP/1.1\r\nHost: h\r\nConnection: Upgrade, close\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 12\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n"
		for i := 0; i < rep; i++ {
			httpRaw(x, "9000", get)
		}
		x.Settle()
		errs("a handshake that failed", "", rep)
	case 7, 8: // a bad SOAP request
		body := "<" + text
		if src == 7 {
			startCS(x, csFail)
			for i := 0; i < rep; i++ {
				httpExchange(x, "9000", soapPost("/", body))
			}
		} else {
			startSoapCP(x, "cp1", "http://sim:9000", ":9100", cpFail)
			for i := 0; i < rep; i++ {
				httpExchange(x, "9100", soapPost("/", body))
			}
		}
		x.Settle()
		some("a bad SOAP request")
		if len(e.lines) < rep {
			x.Fail("C30", "no-error", "%d bad SOAP requests, %d lines in the error log: %q", rep, len(e.lines), e.lines)
		}
		if d.with(body) != rep {
			x.Fail("C30", "debug-soap", "the bad SOAP request is not in the debug log: %q", d.lines)
		}
	case 9, 10: // a call of the wrong role
		var p *wsPeer
		var call string
		if src == 9 {
			startCS(x, csFail)
			p = connectPeer(x, "cp1")
			call = `[2,"id","Reset",{"type":"Hard"}]`
		} else {
			s := listenPeer(x, "9001")
			startCP(x, context.Background(), "cp1", "9001", cpFail)
			p = s.last()
			call = `[2,"id","Heartbeat",{}]`
		}
		for i := 0; i < rep; i++ {
			p.sendText(call)
		}
		x.Settle()
		errs("a call of the wrong role", "", rep)
		d.wsRaw(x, p, call)
	case 11: // attempts to reconnect that fail
		s := listenPeer(x, "9001")
		startCP(x, context.Background(), "cp1", "9001", cpFail)
		n := len(sn.dials)
		sn.refuse = "9001"
		s.last().c.cut()
		x.Settle()
		x.Advance(30 * time.Second)
		if n = len(sn.dials) - n; n == 0 {
			x.Setup("no attempt to reconnect")
			return
		}
		errs("the attempts to reconnect", "[fe80::1%eth0]:9000", n)
	case 12, 13: // an answer that can't be sent
		slow := make(chan bool)
		var p *wsPeer
		if src == 12 {
			startCS(x, func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
				<-slow
				return csFail(r, md)
			})
			p = connectPeer(x, "cp1")
			p.sendText(`[2,"id","Heartbeat",{}]`)
		} else {
			s := listenPeer(x, "9001")
			startCP(x, context.Background(), "cp1", "9001", func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
				<-slow
				return cpFail(r)
			})
			p = s.last()
			p.sendText(`[2,"id","ClearCache",{}]`)
		}
		x.Settle()
		p.c.cut()
		close(slow)
		x.Settle()
		some("an answer that can't be sent")
	case 16, 17: // a SOAP charge point whose port is taken, or not
		if src == 16 {
			listenHTTP(x, "9100", func(httpMsg) (string, bool) { return "", true })
		}
		_, cancel, err := startSoapCP(x, text, "http://sim:9000", ":9100", cpFail)
		x.Settle()
		if src == 16 && err == nil {
			errs("a SOAP charge point whose port is taken", "address already in use", 1)
		}
		n := len(e.lines)
		if err == nil {
			cancel()
		}
		x.Settle()
		if len(e.lines) != n {
			x.Fail("C30", "error", "a charge point that was stopped: %q", e.lines)
		}
	case 14, 15: // a Send with the text
		if src == 14 {
			s := listenPeer(x, "9001")
			s.onText = nil
			c, err := startCP(x, context.Background(), "cp1", "9001", cpFail)
			if err != nil {
				return
			}
			op := goSendCS(c, &cpreq.Authorize{IdTag: text})
			x.Settle()
			p := s.last()
			calls := callsOf(p)
			if len(calls) != 1 {
				x.Fail("C30", "send", "%d calls for a Send", len(calls))
				return
			}
			rep := `[4,` + q(calls[0].ID) + `,"GenericError",` + q(text) + `,{}]`
			p.sendText(rep)
			x.Settle()
			if !op.isDone() {
				x.Fail("C30", "send", "the Send did not return")
			}
			d.wsRaw(x, p, rep)
			break
		}
		l := newSoapLink(x, "cp1")
		if l == nil {
			return
		}
		var ex *exchange
		if rep == 1 {
			ex = l.do(soapKindOf("Authorize"), &cpreq.Authorize{IdTag: text}, nil, errors.New(text))
		} else {
			ex = l.do(soapKindOf("RemoteStartTransaction"), &csreq.RemoteStartTransaction{IdTag: text}, nil, errors.New(text))
		}
		x.Settle()
		if ex.err == nil {
			x.Fail("C30", "send", "the Send returned no error")
		}
		errs("the error of a SOAP handler", text, 1)
		m := ex.wireReq
		if d.with(m) != 2 {
			x.Fail("C30", "debug-soap", "the SOAP request is %d times in the debug log of the client and the server: %q", d.with(m), d.lines)
		}
	}
	for _, s := range append(append([]string{}, e.lines...), d.lines...) {
		if strings.Contains(s, "%!") {
			x.Fail("C30", "format", "a logger printed %q", short(errors.New(s)))
		}
	}
}

func init() {
	reg(&Scenario{ID: "logs", Props: []string{"C30"}, Hist: true, Logs: true, Quick: 0, Thorough: 0,
		Desc: "18 kinds of errors and messages, with 14 texts, most of which are special in formats; what the error and the debug logger print", Run: logsRun})
}
