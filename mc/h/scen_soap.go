//go:build go1.22

package main

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
)

var soapKinds []*msgKind

func init() {
	for _, k := range kinds {
		if k.XReq != nil {
			soapKinds = append(soapKinds, k)
		}
	}
}

// soapLink is a real SOAP charge point and a real central system.
type soapLink struct {
	x      *X
	id     string
	csURL  string
	cpURL  string
	c      cp.ChargePoint
	csys   cs.CentralSystem
	svc    cpService
	resp   messages.Response
	rerr   error
	ex     *exchange
	gotID  string
	gotReq bool // metadata had the HTTP request
	req    httpMsg
	reply  httpMsg
	cancel context.CancelFunc
}

func newSoapLink(x *X, id string) *soapLink {
	l := &soapLink{x: x, id: id, ex: &exchange{}, csURL: "http://sim:9000", cpURL: "http://sim:9100"}
	l.csys = startCS(x, func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		l.ex.handled++
		l.ex.gotReq = r
		l.gotID = md.ChargePointID
		l.gotReq = md.HTTPRequest != nil
		if l.resp == nil {
			return nil, l.rerr
		}
		rs, ok := l.resp.(cpresp.ChargePointResponse)
		if !ok {
			return nil, errors.New("a request of the charge point reached the handler for another role")
		}
		return rs, l.rerr
	})
	c, cancel, err := startSoapCP(x, id, l.csURL, ":9100", func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		l.ex.handled++
		l.ex.gotReq = r
		l.gotID = l.id
		l.gotReq = true
		if l.resp == nil {
			return nil, l.rerr
		}
		rs, ok := l.resp.(csresp.CentralSystemResponse)
		if !ok {
			return nil, errors.New("a request of the central system reached the handler for another role")
		}
		return rs, l.rerr
	})
	if err != nil {
		x.Setup("cp.New: %v", err)
		return nil
	}
	l.c, l.cancel = c, cancel
	l.svc, err = l.csys.GetServiceOf(id, ocpp.V15, l.cpURL)
	if err != nil {
		x.Setup("GetServiceOf: %v", err)
		return nil
	}
	sn.tapAll = true
	return l
}

func newSoapCP(ctx context.Context, id, port string, h cpHandler) (cp.ChargePoint, error) {
	return cp.New(ctx, id, "http://sim:9000", ocpp.V15, ocpp.SOAP, &port, h)
}

func soapKindOf(action string) *msgKind {
	for _, k := range soapKinds {
		if k.Action == action {
			return k
		}
	}
	return nil
}

func startSoapCP(x *X, id, csURL, port string, h cpHandler) (cp.ChargePoint, context.CancelFunc, error) {
	ctx, cancel := context.WithCancel(context.Background())
	c, err := cp.New(ctx, id, csURL, ocpp.V15, ocpp.SOAP, &port, h)
	if err != nil {
		cancel()
		return nil, nil, err
	}
	x.Settle()
	return c, cancel, nil
}

// do sends rq from its role's side.
func (l *soapLink) do(k *msgKind, rq messages.Request, rs messages.Response, rerr error) *exchange {
	l.ex = &exchange{}
	l.resp, l.rerr = rs, rerr
	l.gotID, l.gotReq = "", false
	ex := l.ex
	n0 := len(sn.conns)
	if k.FromCP {
		resp, err := l.c.Send(rq.(cpreq.ChargePointRequest))
		ex.err = err
		if resp != nil {
			ex.gotResp = resp
		}
	} else {
		resp, err := l.svc.Send(rq.(csreq.CentralSystemRequest))
		ex.err = err
		if resp != nil {
			ex.gotResp = resp
		}
	}
	ex.nReq = (len(sn.conns) - n0) / 2
	l.req, l.reply = httpMsg{}, httpMsg{}
	if ex.nReq > 0 {
		l.req = parseHTTPRequest(sn.conns[n0].tap.buf)
		l.reply = parseHTTPResponse(sn.conns[n0+1].tap.buf)
		if l.req.ok && l.req.req != nil {
			if l.req.req.Method != "POST" {
				l.x.Fail("C25", "http-method", "%s request is sent by the HTTP method %s", k.Action, l.req.req.Method)
			}
			if w := soapContentType(l.req.req.Header["Content-Type"]); w != "" {
				l.x.Fail("C25", "http-type-request", "%s request: %s", k.Action, w)
			}
		}
		if l.reply.ok && l.reply.resp != nil && l.reply.status == 200 {
			if w := soapContentType(l.reply.resp.Header["Content-Type"]); w != "" {
				l.x.Fail("C25", "http-type-response", "%s response: %s", k.Action, w)
			}
		}
	}
	ex.wireReq, ex.wireResp = l.req.body, l.reply.body
	return ex
}

// soapContentType: there must be one Content-Type, the one of SOAP 1.2.
func soapContentType(h []string) string {
	if len(h) == 1 {
		f := strings.Split(h[0], ";")
		if strings.EqualFold(strings.TrimSpace(f[0]), "application/soap+xml") {
			for _, p := range f[1:] {
				if p = strings.ToLower(strings.TrimSpace(p)); strings.HasPrefix(p, "charset=") && strings.Trim(p[8:], `"`) != "utf-8" {
					return "the charset of the message is " + p
				}
			}
			return ""
		}
	}
	return fmt.Sprintf("the Content-Type headers are %q", h)
}

// checkEnvelope returns the element in the body of a SOAP message.
func checkEnvelope(raw string) (root, elem *xnode, e string) {
	root, err := xparse([]byte(raw))
	if err != nil {
		return nil, nil, "not well-formed: " + err.Error()
	}
	if root.name != "Envelope" || root.space != nsSOAP {
		return root, nil, "the root is " + root.space + " " + root.name
	}
	var body *xnode
	for i, n := range root.kids {
		if n.space != nsSOAP {
			return root, nil, n.name + " in the namespace " + n.space
		}
		switch {
		case n.name == "Header" && i == 0:
		case n.name == "Body" && i == len(root.kids)-1:
			body = n
		default:
			return root, nil, "unexpected " + n.name + " in the envelope"
		}
	}
	if body == nil {
		return root, nil, "no body"
	}
	if len(body.kids) != 1 {
		return root, nil, fmt.Sprintf("%d elements in the body", len(body.kids))
	}
	return root, body.kids[0], ""
}

// checkSoap compares one exchange with what was sent.
func (l *soapLink) checkSoap(k *msgKind, rq messages.Request, rs messages.Response, ex *exchange, what, key string) bool {
	x := l.x
	x.cases++
	n := len(x.viols)
	both := func(key, format string, args ...interface{}) {
		x.Fail("C16", key, format, args...)
		x.Fail("C24", key, format, args...)
	}
	if ex.err != nil {
		both("error:"+key, "%s: Send returned the error %s", what, short(ex.err))
	}
	if ex.handled != 1 {
		both("handled:"+key, "%s: the handler ran %d times", what, ex.handled)
	} else {
		if reflect.TypeOf(ex.gotReq) != reflect.TypeOf(rq) {
			both("type:"+key, "%s: the handler received a %T instead of a %T", what, ex.gotReq, rq)
		} else if d := msgDiff(rq, ex.gotReq, false); d != "" {
			both("request:"+key, "%s: the request was received with %s", what, d)
		}
		if l.gotID != l.id {
			x.Fail("C16", "identity:"+key, "%s: received with the identity %q instead of %q", what, l.gotID, l.id)
		}
		if !l.gotReq {
			x.Fail("C16", "http:"+key, "%s: no HTTP request in the metadata", what)
		}
	}
	if ex.err == nil {
		if reflect.TypeOf(ex.gotResp) != reflect.TypeOf(rs) {
			both("rtype:"+key, "%s: Send returned a %T instead of a %T", what, ex.gotResp, rs)
		} else if d := msgDiff(rs, ex.gotResp, false); d != "" {
			both("response:"+key, "%s: the response was received with %s", what, d)
		}
	}
	if ex.nReq != 1 {
		x.Fail("C16", "requests:"+key, "%s: %d HTTP requests were made", what, ex.nReq)
	}
	if l.req.ok {
		if l.req.req.Method != "POST" {
			x.Fail("C25", "method", "%s: sent by %s", what, l.req.req.Method)
		}
		root, elem, e := checkEnvelope(l.req.body)
		switch {
		case e != "":
			x.Fail("C25", "envelope:"+key, "%s: request: %s: %s", what, e, l.req.body)
		case elem.name != k.XElem+"Request" || elem.space != k.serviceNS():
			x.Fail("C25", "element:"+key, "%s: the body is %q %s: %s", what, elem.space, elem.name, l.req.body)
		case allowed(reflect.ValueOf(rq), k.XReq, true, true):
			if e := xcheck(elem, k.serviceNS(), k.XReq, reflect.ValueOf(rq), elem.name); e != "" {
				x.Fail("C25", "request:"+key, "%s: %s: %s", what, e, l.req.body)
			}
		}
		if root != nil {
			l.checkHeader(k, root, what)
		}
	} else {
		x.Fail("C25", "request-http:"+key, "%s: no proper HTTP request was sent: %s", what, l.req.err)
	}
	if l.reply.ok && ex.handled == 1 {
		_, elem, e := checkEnvelope(l.reply.body)
		switch {
		case l.reply.status != 200:
			x.Fail("C25", "status:"+key, "%s: answered by the HTTP status %d", what, l.reply.status)
		case e != "":
			x.Fail("C25", "renvelope:"+key, "%s: response: %s: %s", what, e, l.reply.body)
		case elem.name != k.XElem+"Response" || elem.space != k.serviceNS():
			x.Fail("C25", "relement:"+key, "%s: the body is %q %s: %s", what, elem.space, elem.name, l.reply.body)
		case allowed(reflect.ValueOf(rs), k.XResp, true, true):
			if e := xcheck(elem, k.serviceNS(), k.XResp, reflect.ValueOf(rs), elem.name); e != "" {
				x.Fail("C25", "response:"+key, "%s: %s: %s", what, e, l.reply.body)
			}
		}
	}
	return len(x.viols) == n
}

func (l *soapLink) checkHeader(k *msgKind, root *xnode, what string) {
	x := l.x
	if root.kids[0].name != "Header" {
		x.Fail("C25", "header", "%s: no header: %s", what, l.req.body)
		return
	}
	seen := map[string]string{}
	for _, h := range root.kids[0].kids {
		if _, dup := seen[h.space+h.name]; dup {
			x.Fail("C25", "header:"+h.name, "%s: two headers %s", what, h.name)
		}
		seen[h.space+h.name] = h.text
	}
	to := l.csURL
	if !k.FromCP {
		to = l.cpURL
	}
	for _, w := range [][2]string{{nsWSA + "Action", "/" + k.Action}, {nsWSA + "To", to}, {k.serviceNS() + "chargeBoxIdentity", l.id}} {
		if g, ok := seen[w[0]]; !ok {
			x.Fail("C25", "header:"+w[0], "%s: no header %s: %s", what, w[0], l.req.body)
		} else if g != w[1] {
			x.Fail("C25", "header:"+w[0], "%s: the header %s is %q instead of %q", what, w[0], g, w[1])
		}
	}
	m, ok := seen[nsWSA+"MessageID"]
	if !ok || len(m) < 10 {
		x.Fail("C25", "header:MessageID", "%s: the MessageID is %q", what, m)
	} else if x.count("mid", m) > 0 {
		x.Fail("C25", "header:MessageID", "%s: the MessageID %s was used before", what, m)
	}
	x.Log("mid", m, "", 0)
}

func soapData(x *X, pairs, full bool) {
	k := soapKinds[pick(len(soapKinds))]
	isResp := pick(2) == 1
	all := pick(2) == 1
	s, mk := k.XReq, func() interface{} { return k.Req() }
	if isResp {
		s, mk = k.XResp, func() interface{} { return k.Resp() }
	}
	base := newBase(mk, s, all)
	dir := "request"
	if isResp {
		dir = "response"
	}
	key := k.Action + " " + dir + " of the " + who(k.FromCP != isResp)
	devs := deviations(base, s, true, pairs && !full)
	const chunk = 16
	var idx int
	if pairs {
		idx = pick(len(devs) + 1)
	} else {
		idx = pick((len(devs) + chunk) / chunk)
	}
	l := newSoapLink(x, "cp 1/<&>")
	if l == nil {
		return
	}
	rq := newBase(func() interface{} { return k.Req() }, k.XReq, true).(messages.Request)
	rs := newBase(func() interface{} { return k.Resp() }, k.XResp, true).(messages.Response)
	try := func(ds ...deviation) bool {
		m := newBase(mk, s, all)
		w := []string{}
		site := ""
		for _, d := range ds {
			if !d.apply(m) {
				return true
			}
			w = append(w, d.String())
			site += " " + d.String()
		}
		b := "required fields"
		if all {
			b = "all fields"
		}
		what := fmt.Sprintf("%s (%s, %s)", key, b, strings.Join(w, ", "))
		r1, r2 := rq, rs
		if isResp {
			r2 = m.(messages.Response)
		} else {
			r1 = m.(messages.Request)
		}
		ok := l.checkSoap(k, r1, r2, l.do(k, r1, r2, nil), what, key+site)
		return ok || len(x.viols) < 8
	}
	if !pairs {
		for i := idx * chunk; i < (idx+1)*chunk && i <= len(devs); i++ {
			if i == len(devs) {
				if !try() {
					return
				}
			} else if !try(devs[i]) {
				return
			}
		}
		return
	}
	if idx == len(devs) {
		try()
		return
	}
	for i := idx + 1; i < len(devs); i++ {
		if reflect.DeepEqual(devs[i].s.path, devs[idx].s.path) {
			continue
		}
		if !try(devs[idx], devs[i]) {
			return
		}
	}
}

func init() {
	reg(&Scenario{ID: "soap-data-1", Props: []string{"C16", "C24", "C25"}, Hist: true, Quick: 0, Thorough: 0,
		Desc: "every message type of OCPP 1.5 between a real SOAP charge point and a real central system, with every single field (also nested and in lists) set to every value of its domain, starting from the required-only and from the all-set message; content and identity at the receiver, and the HTTP messages against the WSDL",
		Run:  func(x *X) { soapData(x, false, false) }})
	reg(&Scenario{ID: "soap-data-2", Props: []string{"C24", "C25"}, Hist: true, Quick: 0, Thorough: 0,
		Desc: "as soap-data-1, with every pair of fields set to every combination of the reduced domain",
		Run:  func(x *X) { soapData(x, true, false) }})
	reg(&Scenario{ID: "soap-data-3", Props: []string{"C24", "C25"}, Hist: true, Quick: 0, Thorough: 0,
		Desc: "as soap-data-1, with every pair of fields set to every combination of the full domain",
		Run:  func(x *X) { soapData(x, true, true) }})
}
