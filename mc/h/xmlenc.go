//go:build go1.22

package main

// An independent encoder of SOAP messages for scripted peers, in several
// styles that are all the same XML infoset.

import (
	"bufio"
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"net/http"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

const (
	nsSOAP = "http://www.w3.org/2003/05/soap-envelope"
	nsWSA  = "http://www.w3.org/2005/08/addressing"
	nsCs   = "urn://Ocpp/Cs/2012/06/"
	nsCp   = "urn://Ocpp/Cp/2012/06/"
)

func (k *msgKind) serviceNS() string {
	if k.FromCP {
		return nsCs
	}
	return nsCp
}

const nStyles = 4

type xenc struct {
	sb    strings.Builder
	style int
	depth int
}

func (e *xenc) nl() {
	if e.style == 2 {
		e.sb.WriteString("\r\n" + strings.Repeat("\t", e.depth))
	}
}

func xesc(s string) string {
	var b bytes.Buffer
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

func (e *xenc) text(s string) {
	if e.style == 3 && !strings.Contains(s, "]]>") && s != "" {
		e.sb.WriteString("<![CDATA[" + s + "]]>")
		return
	}
	if e.style == 2 && len(s) > 1 {
		_, n := utf8.DecodeRuneInString(s)
		e.sb.WriteString(xesc(s[:n]) + "<!-- c -->" + xesc(s[n:]))
		return
	}
	e.sb.WriteString(xesc(s))
}

func (e *xenc) name(n string) string {
	switch e.style {
	case 0:
		return "ocpp:" + n
	case 3:
		return "ns2.x:" + n
	}
	return n
}

func xtext(v reflect.Value, s *spec) string {
	switch {
	case v.Type() == timeT:
		return v.Interface().(time.Time).Format(time.RFC3339Nano)
	case v.Kind() == reflect.Float64:
		return strconv.FormatFloat(v.Float(), 'f', -1, 64)
	case v.Kind() == reflect.String:
		return v.String()
	}
	return fmt.Sprint(v.Interface())
}

// elem writes an element with the fields of v.
func (e *xenc) elem(name string, attrs string, v reflect.Value, s *spec) {
	for v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	e.nl()
	e.sb.WriteString("<" + e.name(name) + attrs)
	if s.Kind != "obj" {
		t := xtext(v, s)
		if t == "" && e.style != 1 {
			e.sb.WriteString("/>")
			return
		}
		e.sb.WriteString(">")
		e.text(t)
		e.sb.WriteString("</" + e.name(name) + ">")
		return
	}
	field := func(p sprop) (reflect.Value, bool) {
		i := goField(v.Type(), p.Name)
		if i < 0 {
			return reflect.Value{}, false
		}
		f := v.Field(i)
		if f.Kind() == reflect.Ptr {
			return f, !f.IsNil()
		}
		if p.Req {
			return f, true
		}
		return f, !f.IsZero()
	}
	for _, p := range s.Props {
		if !p.Attr {
			continue
		}
		if f, ok := field(p); ok {
			e.sb.WriteString(" " + p.Name + `="` + xesc(xtext(f, p.Spec)) + `"`)
		}
	}
	e.sb.WriteString(">")
	e.depth++
	for _, p := range s.Props {
		f, ok := field(p)
		if p.Attr || !ok {
			continue
		}
		if p.Text {
			e.text(f.String())
			e.depth--
			e.sb.WriteString("</" + e.name(name) + ">")
			return
		}
		if f.Kind() == reflect.Slice {
			if p.Wrap != "" && f.Len() > 0 {
				e.nl()
				e.sb.WriteString("<" + e.name(p.Name) + ">")
			}
			for i := 0; i < f.Len(); i++ {
				n := p.Name
				if p.Wrap != "" {
					n = p.Wrap
				}
				e.elem(n, "", f.Index(i), p.Spec.Item)
			}
			if p.Wrap != "" && f.Len() > 0 {
				e.sb.WriteString("</" + e.name(p.Name) + ">")
			}
			continue
		}
		e.elem(p.Name, "", f, p.Spec)
	}
	e.depth--
	e.nl()
	e.sb.WriteString("</" + e.name(name) + ">")
}

// body encodes the body element of a message.
func soapElem(k *msgKind, msg interface{}, isResp bool, style int) string {
	e := &xenc{style: style, depth: 2}
	n, s := k.XElem+"Request", k.XReq
	if isResp {
		n, s = k.XElem+"Response", k.XResp
	}
	ns := k.serviceNS()
	a := ` xmlns="` + ns + `"`
	switch style {
	case 0:
		a = ` xmlns:ocpp="` + ns + `"`
	case 3:
		a = ` xmlns:ns2.x="` + ns + `" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance"`
	}
	e.elem(n, a, reflect.ValueOf(msg), s)
	return e.sb.String()
}

// soapEnvelope wraps a body element; header is the content of the header, no
// header if it is empty.
func soapEnvelope(body, header string, style int) string {
	p, x := "S", ""
	switch style {
	case 1:
		p = "soap"
		x = `<?xml version="1.0" encoding="UTF-8"?>` + "\n"
	case 2:
		p = "SOAP-ENV"
		x = `<?xml version='1.0' encoding='utf-8' standalone="yes"?>` + "\r\n<!-- a comment -->\r\n"
	}
	h := ""
	if header != "" {
		h = "<" + p + ":Header>" + header + "</" + p + ":Header>"
	}
	r := x + "<" + p + ":Envelope xmlns:" + p + `="` + nsSOAP + `">` + h + "<" + p + ":Body>" + body + "</" + p + ":Body></" + p + ":Envelope>"
	if style == 2 {
		r += "\r\n"
	}
	return r
}

func soapHeader(k *msgKind, id, to string) string {
	return `<wsa5:To xmlns:wsa5="` + nsWSA + `">` + xesc(to) + `</wsa5:To><wsa5:Action xmlns:wsa5="` + nsWSA + `">/` + k.Action + `</wsa5:Action><wsa5:MessageID xmlns:wsa5="` + nsWSA +
		`">uuid:543a0a2e-5d97-44ac-a275-6372b8a5c44c</wsa5:MessageID><wsa5:From xmlns:wsa5="` + nsWSA + `"><wsa5:Address>http://10.0.0.1/</wsa5:Address></wsa5:From><chargeBoxIdentity xmlns="` + k.serviceNS() + `">` + xesc(id) + `</chargeBoxIdentity>`
}

// scripted HTTP ---------------------------------------------------------------

// httpMsg is one parsed HTTP request or response.
type httpMsg struct {
	ok     bool
	req    *http.Request
	resp   *http.Response
	status int
	body   string
	err    string
}

func parseHTTPRequest(b []byte) httpMsg {
	r, err := http.ReadRequest(bufio.NewReader(bytes.NewReader(b)))
	if err != nil {
		return httpMsg{err: err.Error()}
	}
	body, err := io.ReadAll(r.Body)
	m := httpMsg{ok: err == nil, req: r, body: string(body)}
	if err != nil {
		m.err = err.Error()
	}
	return m
}

func parseHTTPResponse(b []byte) httpMsg {
	r, err := http.ReadResponse(bufio.NewReader(bytes.NewReader(b)), nil)
	if err != nil {
		return httpMsg{err: err.Error()}
	}
	body, err := io.ReadAll(r.Body)
	m := httpMsg{ok: err == nil, resp: r, status: r.StatusCode, body: string(body)}
	if err != nil {
		m.err = err.Error()
	}
	return m
}

// httpServer is a scripted server; answer returns the raw bytes to send for a
// request, and whether the connection is closed afterwards (it stays open and
// silent otherwise).
type httpServer struct {
	x      *X
	l      *simListener
	n      int
	answer func(req httpMsg) (string, bool)
}

func listenHTTP(x *X, port string, answer func(req httpMsg) (string, bool)) *httpServer {
	l, err := simListen(nil, "tcp", ":"+port)
	if err != nil {
		return nil
	}
	s := &httpServer{x: x, l: l.(*simListener), answer: answer}
	go func() {
		for {
			c, err := s.l.Accept()
			if err != nil {
				return
			}
			go s.serve(c.(*simConn))
		}
	}()
	return s
}

func (s *httpServer) serve(c *simConn) {
	var buf []byte
	b := make([]byte, 8192)
	for {
		n, err := c.Read(b)
		buf = append(buf, b[:n]...)
		if err != nil {
			c.Close()
			return
		}
		i := bytes.Index(buf, []byte("\r\n\r\n"))
		if i < 0 {
			continue
		}
		need := 0
		for _, ln := range strings.Split(string(buf[:i]), "\r\n") {
			if strings.HasPrefix(strings.ToLower(ln), "content-length:") {
				need, _ = strconv.Atoi(strings.TrimSpace(ln[15:]))
			}
		}
		if len(buf) < i+4+need {
			continue
		}
		s.n++
		out, cl := s.answer(parseHTTPRequest(buf[:i+4+need]))
		if out != "" {
			c.Write([]byte(out))
		}
		if cl {
			c.Close()
			return
		}
		// silent: wait until the client goes away
		for {
			if _, err := c.Read(b); err != nil {
				c.Close()
				return
			}
		}
	}
}

func httpReply(status int, ctype, body string) string {
	return fmt.Sprintf("HTTP/1.1 %d %s\r\nContent-Type: %s\r\nContent-Length: %d\r\n\r\n%s", status, http.StatusText(status), ctype, len(body), body)
}

// httpExchange sends raw bytes to a port and returns the parsed reply; half:
// close the sending side by closing the connection right away.
func httpExchange(x *X, port, raw string) httpMsg {
	nc, err := simDial(nil, "tcp", "sim:"+port)
	if err != nil {
		return httpMsg{err: err.Error()}
	}
	c := nc.(*simConn)
	c.Write([]byte(raw))
	var buf []byte
	b := make([]byte, 8192)
	c.SetReadDeadline(time.Now().Add(time.Minute))
	for {
		n, err := c.Read(b)
		buf = append(buf, b[:n]...)
		if err != nil {
			break
		}
		if m := parseHTTPResponse(buf); m.ok {
			break
		}
	}
	c.Close()
	return parseHTTPResponse(buf)
}

func soapPost(path, body string) string {
	return fmt.Sprintf("POST %s HTTP/1.1\r\nHost: sim\r\nContent-Type: application/soap+xml; charset=utf-8\r\nContent-Length: %d\r\nConnection: close\r\n\r\n%s", path, len(body), body)
}
