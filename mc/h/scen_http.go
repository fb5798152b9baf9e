//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/voltbras/go-ocpp/messages"
)

// The forms of HTTP that peers of other makes use for the same SOAP message.

func chunked(body string, sizes ...int) string {
	var sb strings.Builder
	for i := 0; len(body) > 0; i++ {
		n := sizes[i%len(sizes)]
		if n > len(body) {
			n = len(body)
		}
		fmt.Fprintf(&sb, "%x\r\n%s\r\n", n, body[:n])
		body = body[n:]
	}
	return sb.String() + "0\r\n\r\n"
}

type httpForm struct {
	name string
	raw  func(body string) string
}

var reqForms = []httpForm{
	{"one chunk", func(b string) string {
		return "POST / HTTP/1.1\r\nHost: sim\r\nContent-Type: application/soap+xml\r\nTransfer-Encoding: chunked\r\n\r\n" + chunked(b, 1<<20)
	}},
	{"many chunks", func(b string) string {
		return "POST / HTTP/1.1\r\nHost: sim\r\nContent-Type: application/soap+xml\r\nTransfer-Encoding: chunked\r\n\r\n" + chunked(b, 1, 7, 100)
	}},
	{"a chunk with an extension, and a trailer", func(b string) string {
		return fmt.Sprintf("POST / HTTP/1.1\r\nHost: sim\r\nTransfer-Encoding: chunked\r\nTrailer: X-T\r\n\r\n%x;a=b\r\n%s\r\n0\r\nX-T: 1\r\n\r\n", len(b), b)
	}},
	{"names of headers in lower case", func(b string) string {
		return fmt.Sprintf("POST / HTTP/1.1\r\nhost: sim\r\ncontent-type: text/xml\r\ncontent-length: %d\r\n\r\n%s", len(b), b)
	}},
	{"no Content-Type", func(b string) string {
		return fmt.Sprintf("POST / HTTP/1.1\r\nHost: sim\r\nContent-Length: %d\r\n\r\n%s", len(b), b)
	}},
	{"HTTP/1.0", func(b string) string {
		return fmt.Sprintf("POST /a/b HTTP/1.0\r\nContent-Type: text/xml\r\nContent-Length: %d\r\n\r\n%s", len(b), b)
	}},
	{"a query, an action and other headers", func(b string) string {
		return fmt.Sprintf("POST /ocpp/cp1?x=1 HTTP/1.1\r\nHost: sim:80\r\nUser-Agent: cp/1\r\nSOAPAction: \"/x\"\r\nAccept: */*\r\nAccept-Encoding: gzip, deflate\r\nConnection: TE\r\nTE: trailers\r\nContent-Type: application/soap+xml; charset=UTF-8; action=\"/x\"\r\nContent-Length: %d\r\n\r\n%s", len(b), b)
	}},
	{"an absolute URL", func(b string) string {
		return fmt.Sprintf("POST http://sim/ HTTP/1.1\r\nHost: sim\r\nContent-Length: %d\r\n\r\n%s", len(b), b)
	}},
	{"Expect", func(b string) string {
		return fmt.Sprintf("POST / HTTP/1.1\r\nHost: sim\r\nConnection: close\r\nExpect: 100-continue\r\nContent-Length: %d\r\n\r\n%s", len(b), b)
	}},
	{"PUT", func(b string) string {
		return fmt.Sprintf("PUT / HTTP/1.1\r\nHost: sim\r\nContent-Length: %d\r\n\r\n%s", len(b), b)
	}},
}

var respForms = []httpForm{
	{"one chunk", func(b string) string {
		return "HTTP/1.1 200 OK\r\nContent-Type: application/soap+xml\r\nTransfer-Encoding: chunked\r\n\r\n" + chunked(b, 1<<20)
	}},
	{"many chunks", func(b string) string {
		return "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n" + chunked(b, 1, 7, 100)
	}},
	{"names of headers in lower case", func(b string) string {
		return fmt.Sprintf("HTTP/1.1 200 OK\r\ncontent-type: text/xml\r\ncontent-length: %d\r\n\r\n%s", len(b), b)
	}},
	{"HTTP/1.0 without a reason", func(b string) string {
		return fmt.Sprintf("HTTP/1.0 200 \r\nContent-Length: %d\r\n\r\n%s", len(b), b)
	}},
	{"an interim response", func(b string) string {
		return fmt.Sprintf("HTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s", len(b), b)
	}},
	{"other headers", func(b string) string {
		return fmt.Sprintf("HTTP/1.1 200 OK\r\nServer: x\r\nSet-Cookie: a=b\r\nConnection: keep-alive\r\nKeep-Alive: timeout=5\r\nCache-Control: no-cache\r\nContent-Type: application/soap+xml; charset=UTF-8\r\nContent-Length: %d\r\n\r\n%s", len(b), b)
	}},
}

func soapHTTP(x *X) {
	k := soapKinds[pick(len(soapKinds))]
	rq := newBase(func() interface{} { return k.Req() }, k.XReq, true).(messages.Request)
	rs := newBase(func() interface{} { return k.Resp() }, k.XResp, true).(messages.Response)
	if pick(2) == 0 {
		l := newSoapLink(x, "cp1")
		if l == nil {
			return
		}
		body := soapEnvelope(soapElem(k, rq, false, 0), soapHeader(k, "cp1", "http://h/"), 0)
		for _, f := range reqForms {
			for _, e := range []error{nil, errors.New("refused")} {
				x.cases++
				l.ex, l.gotID = &exchange{}, ""
				l.resp, l.rerr = rs, e
				r := httpExchangeT(x, l.port(k), f.raw(body))
				x.Settle()
				_, flt := isFault(r.body)
				switch {
				case l.ex.handled != 1 || msgDiff(rq, l.ex.gotReq, false) != "":
					x.Fail("C16,C24", "http:request", "%s by %s: handled %d times, answered by %d %s", k.Action, f.name, l.ex.handled, r.status, r.body)
				case k.FromCP && l.gotID != "cp1":
					x.Fail("C16", "http:identity", "%s by %s: handled with the identity %q", k.Action, f.name, l.gotID)
				case flt != (e != nil) || !flt && r.status != 200:
					x.Fail("C16,C17", "http:answer", "%s by %s: answered by %d %s", k.Action, f.name, r.status, r.body)
				}
				if len(x.viols) > 0 {
					return
				}
			}
		}
		return
	}
	s := newScriptedSoap(x, k, "cp1")
	if s == nil {
		return
	}
	body := soapEnvelope(soapElem(k, rs, true, 0), soapHeader(k, "cp1", "http://h/"), 0)
	for _, f := range respForms {
		x.cases++
		resp, err := s.send(rq, f.raw(body), true)
		if err != nil {
			x.Fail("C16,C24", "http:response", "%s answered by %s: %s", k.Action, f.name, short(err))
		} else if d := msgDiff(rs, resp, false); d != "" {
			x.Fail("C16,C24", "http:response", "%s answered by %s: received with %s", k.Action, f.name, d)
		}
		if len(x.viols) > 0 {
			return
		}
	}
}

func init() {
	reg(&Scenario{ID: "soap-http", Props: []string{"C16", "C17", "C24"}, Hist: true,
		Desc: "every action in ten forms of HTTP requests, answered and refused, and in six forms of HTTP responses", Run: soapHTTP})
}
