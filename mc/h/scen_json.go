//go:build go1.22

package main

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cp"
	"github.com/voltbras/go-ocpp/cpstatus"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/req"
	"github.com/voltbras/go-ocpp/messages/res"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
	"github.com/voltbras/go-ocpp/ws"
)

// wire taps ------------------------------------------------------------------

// tapTexts parses the websocket text messages captured in a tap.
func tapTexts(x *X, t *simPipe, masked bool) []string {
	p := &wsPeer{x: x, c: &simConn{rx: &simPipe{closed: true}}, client: !masked, rbuf: t.buf}
	t.buf = nil
	var r []string
	for len(p.rbuf) > 0 {
		op, fin, data, ok := p.readFrame()
		if !ok || p.bad != "" {
			x.Fail("C05", "frame", "malformed websocket frame on the wire: %s", p.bad)
			return r
		}
		if op == 1 || op == 0 {
			if op == 0 && len(r) > 0 {
				r[len(r)-1] += string(data)
			} else {
				r = append(r, string(data))
			}
		}
		_ = fin
	}
	return r
}

// result of exchanging one request and response
type exchange struct {
	handled  int
	gotReq   messages.Request
	gotResp  messages.Response
	err      error
	wireReq  string
	wireResp string
	nReq     int // frames from the requester
	nResp    int
}

type jlink interface {
	do(k *msgKind, rq messages.Request, rs messages.Response, rerr error) *exchange
}

// e2e is a real charge point connected to a real central system.
type e2e struct {
	x        *X
	c        cp.ChargePoint
	csys     cs.CentralSystem
	svc      cpService
	cpOut    *simPipe
	csOut    *simPipe
	resp     messages.Response
	rerr     error
	ex       *exchange
	id       string
	otherErr string
}

func newE2E(x *X, id string) *e2e {
	l := &e2e{x: x, id: id, ex: &exchange{}}
	l.csys = startCS(x, func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		l.ex.handled++
		l.ex.gotReq = r
		if l.resp == nil {
			return nil, l.rerr
		}
		rs, ok := l.resp.(cpresp.ChargePointResponse)
		if !ok {
			return nil, errors.New("a request of the charge point reached the handler for another role")
		}
		return rs, l.rerr
	})
	c, err := startCP(x, context.Background(), id, "9000", func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		l.ex.handled++
		l.ex.gotReq = r
		if l.resp == nil {
			return nil, l.rerr
		}
		rs, ok := l.resp.(csresp.CentralSystemResponse)
		if !ok {
			return nil, errors.New("a request of the central system reached the handler for another role")
		}
		return rs, l.rerr
	})
	if err != nil {
		x.Setup("cp.New: %v", err)
		return nil
	}
	l.c = c
	l.svc, err = l.csys.GetServiceOf(id, ocpp.V16, "")
	if err != nil {
		x.Setup("GetServiceOf: %v", err)
		return nil
	}
	l.cpOut, l.csOut = &simPipe{}, &simPipe{}
	n := len(sn.conns)
	sn.conns[n-2].tap = l.cpOut
	sn.conns[n-1].tap = l.csOut
	return l
}

func (l *e2e) do(k *msgKind, rq messages.Request, rs messages.Response, rerr error) *exchange {
	l.ex = &exchange{}
	l.resp, l.rerr = rs, rerr
	l.cpOut.buf, l.csOut.buf = nil, nil
	ex := l.ex
	if k.FromCP {
		r, ok := rq.(cpreq.ChargePointRequest)
		if !ok {
			ex.err = errors.New("not a ChargePointRequest")
			return ex
		}
		resp, err := l.c.Send(r)
		ex.err = err
		if resp != nil {
			ex.gotResp = resp
		}
	} else {
		r, ok := rq.(csreq.CentralSystemRequest)
		if !ok {
			ex.err = errors.New("not a CentralSystemRequest")
			return ex
		}
		resp, err := l.svc.Send(r)
		ex.err = err
		if resp != nil {
			ex.gotResp = resp
		}
	}
	a, b := tapTexts(l.x, l.cpOut, true), tapTexts(l.x, l.csOut, false)
	if !k.FromCP {
		a, b = b, a
	}
	ex.nReq, ex.nResp = len(a), len(b)
	if len(a) > 0 {
		ex.wireReq = a[0]
	}
	if len(b) > 0 {
		ex.wireResp = b[0]
	}
	return ex
}

// scripted is the library on one side and a scripted peer, which encodes its
// responses according to the schema, on the other.
type scripted struct {
	x     *X
	k     *msgKind
	c     cp.ChargePoint
	svc   cpService
	reply string
	ex    *exchange
	peer  *wsPeer
	srv   *wsServer
	// what the handler of the library saw and returns
	resp messages.Response
	rerr error
}

func newScripted(x *X, fromCP bool) *scripted {
	l := &scripted{x: x, ex: &exchange{}}
	onText := func(p *wsPeer, msg []byte) {
		m := parseMsg(string(msg))
		if m.Type == 2 {
			l.ex.nReq++
			l.ex.wireReq = string(msg)
			if l.reply != "" {
				p.sendText(strings.Replace(l.reply, "$ID", m.ID, 1))
			}
		} else {
			l.ex.nResp++
			l.ex.wireResp = string(msg)
		}
	}
	if fromCP {
		l.srv = listenPeer(x, "9001")
		l.srv.onText = onText
		c, err := startCP(x, context.Background(), "cp1", "9001", func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
			l.ex.handled++
			l.ex.gotReq = r
			if l.resp == nil {
				return nil, l.rerr
			}
			return l.resp.(csresp.CentralSystemResponse), l.rerr
		})
		if err != nil {
			x.Setup("cp.New: %v", err)
			return nil
		}
		l.c = c
		l.peer = l.srv.last()
		return l
	}
	csys := startCS(x, func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		l.ex.handled++
		l.ex.gotReq = r
		if l.resp == nil {
			return nil, l.rerr
		}
		return l.resp.(cpresp.ChargePointResponse), l.rerr
	})
	l.peer = connectPeer(x, "cp1")
	l.peer.onText = onText
	svc, err := csys.GetServiceOf("cp1", ocpp.V16, "")
	if err != nil {
		x.Setup("GetServiceOf: %v", err)
		return nil
	}
	l.svc = svc
	return l
}

func (l *scripted) do(k *msgKind, rq messages.Request, rs messages.Response, rerr error) *exchange {
	return l.send(k, rq, `[3,"$ID",`+jencode(jsonOf(rs, k.JResp))+`]`)
}

// send lets the library send rq and the peer answer it with reply.
func (l *scripted) send(k *msgKind, rq messages.Request, reply string) *exchange {
	ex := &exchange{}
	l.ex = ex
	l.reply = reply
	l.peer.nfr = 0
	if k.FromCP {
		resp, err := l.c.Send(rq.(cpreq.ChargePointRequest))
		ex.err = err
		if resp != nil {
			ex.gotResp = resp
		}
	} else {
		resp, err := l.svc.Send(rq.(csreq.CentralSystemRequest))
		ex.err = err
		if resp != nil {
			ex.gotResp = resp
		}
	}
	l.x.Sync()
	return ex
}

// receive lets the peer send a call to the library and returns what happened.
func (l *scripted) receive(id, action, payload string) *exchange {
	ex := &exchange{}
	l.ex = ex
	l.peer.nfr = 0
	l.peer.sendText(fmt.Sprintf(`[2,%s,%s,%s]`, q(id), q(action), payload))
	l.x.Settle()
	l.x.Sync()
	return ex
}

// C20, C21, C23 ---------------------------------------------------------------

// checkExchange compares one exchange with what was sent.
func checkExchange(x *X, k *msgKind, rq messages.Request, rs messages.Response, ex *exchange, scripted bool, what, key string) bool {
	x.cases++
	n := len(x.viols)
	if ex.err != nil {
		x.Fail("C20", "error:"+key, "%s: Send returned the error %s", what, short(ex.err))
	}
	if !scripted {
		if ex.handled != 1 {
			x.Fail("C20", "handled:"+key, "%s: the handler ran %d times", what, ex.handled)
		} else if reflect.TypeOf(ex.gotReq) != reflect.TypeOf(rq) {
			x.Fail("C23", "type:"+key, "%s: the handler received a %T instead of a %T", what, ex.gotReq, rq)
		} else if d := msgDiff(rq, ex.gotReq, true); d != "" {
			x.Fail("C20", "request:"+key, "%s: the request was received with %s", what, d)
		}
	}
	if ex.err == nil {
		if reflect.TypeOf(ex.gotResp) != reflect.TypeOf(rs) {
			x.Fail("C23", "rtype:"+key, "%s: Send returned a %T instead of a %T", what, ex.gotResp, rs)
		} else if d := msgDiff(rs, ex.gotResp, true); d != "" {
			x.Fail("C20", "response:"+key, "%s: the response was received with %s", what, d)
		}
	}
	wire := func(dir, raw string, nmsg int, msg interface{}, s *spec, typ int) {
		if nmsg != 1 {
			x.Fail("C20", "frames:"+key, "%s: %d messages with the %s were sent", what, nmsg, dir)
			return
		}
		m := parseMsg(raw)
		if m.Bad != "" || m.Type != typ {
			x.Fail("C21", "message:"+key, "%s: the %s is not a valid message (%s): %s", what, dir, m.Bad, raw)
			return
		}
		if typ == 2 && m.Action != k.Action {
			x.Fail("C23", "action:"+key, "%s: sent with the action %q", what, m.Action)
			return
		}
		if !allowed(reflect.ValueOf(msg), s, true, false) {
			return
		}
		v, err := jparse(m.Payload)
		if err != nil {
			x.Fail("C21", "json:"+key, "%s: %s payload: %v: %s", what, dir, err, m.Payload)
			return
		}
		if e := jvalid(v, s, "payload", true); e != "" {
			x.Fail("C21", "schema:"+dir+":"+key, "%s: the %s does not conform to the schema: %s: %s", what, dir, e, m.Payload)
			return
		}
		if e := jcompare(jsonOf(msg, s), v, "payload"); e != "" {
			x.Fail("C21", "wire:"+dir+":"+key, "%s: the %s was sent with the wrong content: %s: %s", what, dir, e, m.Payload)
		}
	}
	wire("request", ex.wireReq, ex.nReq, rq, k.JReq, 2)
	if !scripted {
		wire("response", ex.wireResp, ex.nResp, rs, k.JResp, 3)
	}
	return len(x.viols) == n
}

func who(fromCP bool) string {
	if fromCP {
		return "charge point"
	}
	return "central system"
}

// jsonData enumerates messages: all single deviations, or all pairs.
func jsonData(x *X, pairs, full bool) {
	k := kinds[pick(len(kinds))]
	isResp := pick(2) == 1
	all := pick(2) == 1
	s := k.JReq
	mk := func() interface{} { return k.Req() }
	if isResp {
		s = k.JResp
		mk = func() interface{} { return k.Resp() }
	}
	base := newBase(mk, s, all)
	dir := "request"
	if isResp {
		dir = "response"
	}
	key := k.Action + " " + dir + " of the " + who(k.FromCP != isResp)
	devs := deviations(base, s, false, pairs && !full)
	const chunk = 16
	var idx int
	if pairs {
		idx = pick(len(devs) + 1)
	} else {
		idx = pick((len(devs) + chunk) / chunk)
	}
	var l jlink
	el := newE2E(x, "cp1")
	if el == nil {
		return
	}
	l = el
	rq := newBase(func() interface{} { return k.Req() }, k.JReq, true).(messages.Request)
	rs := newBase(func() interface{} { return k.Resp() }, k.JResp, true).(messages.Response)
	try := func(ds ...deviation) bool {
		m := newBase(mk, s, all)
		w := []string{}
		site := ""
		for _, d := range ds {
			if !d.apply(m) {
				return true
			}
			w = append(w, d.String())
			site += d.s.name
		}
		b := "required fields"
		if all {
			b = "all fields"
		}
		what := fmt.Sprintf("%s (%s, %s)", key, b, strings.Join(w, ", "))
		r1, r2 := rq, rs
		if isResp {
			r2 = m.(messages.Response)
		} else {
			r1 = m.(messages.Request)
		}
		return checkExchange(x, k, r1, r2, l.do(k, r1, r2, nil), false, what, key+" "+site)
	}
	if !pairs {
		for i := idx * chunk; i < (idx+1)*chunk && i <= len(devs); i++ {
			if i == len(devs) {
				if !try() {
					return
				}
			} else if !try(devs[i]) {
				return
			}
		}
		return
	}
	if idx == len(devs) {
		try()
		return
	}
	for i := idx + 1; i < len(devs); i++ {
		if reflect.DeepEqual(devs[i].s.path, devs[idx].s.path) {
			continue
		}
		if !try(devs[idx], devs[i]) {
			return
		}
	}
}

func init() {
	reg(&Scenario{ID: "json-data-1", Props: []string{"C20", "C21", "C23"}, Hist: true, Quick: 0, Thorough: 0,
		Desc: "every message type of OCPP 1.6 between a real charge point and a real central system, with every single field (also nested and in lists) set to every value of its domain, starting from the required-only and from the all-set message; content at the receiver, and the JSON on the wire against the schema",
		Run:  func(x *X) { jsonData(x, false, false) }})
	reg(&Scenario{ID: "json-data-2", Props: []string{"C20", "C21", "C23"}, Hist: true, Quick: 0, Thorough: 0,
		Desc: "as json-data-1, with every pair of fields set to every combination of the reduced domain",
		Run:  func(x *X) { jsonData(x, true, false) }})
	reg(&Scenario{ID: "json-data-3", Props: []string{"C20", "C21"}, Hist: true, Quick: 0, Thorough: 0,
		Desc: "as json-data-1, with every pair of fields set to every combination of the full domain",
		Run:  func(x *X) { jsonData(x, true, true) }})
	reg(&Scenario{ID: "error-codes", Props: []string{"C21", "C06"}, Hist: true, Quick: 0, Thorough: 0,
		Desc: "every error code of a status notification the library provides: it is the one of the specification, of this name, and is sent as such; every one of the specification is provided; the codes of CallErrors the library provides are those of OCPP-J",
		Run: func(x *X) {
			l := newE2E(x, "cp1")
			if l == nil {
				return
			}
			codes := []struct{ got, want string }{
				{string(cpstatus.ConnectorLockFailure), "ConnectorLockFailure"}, {string(cpstatus.EVCommunicationError), "EVCommunicationError"}, {string(cpstatus.GroundFailure), "GroundFailure"}, {string(cpstatus.HighTemperature), "HighTemperature"}, {string(cpstatus.InternalError), "InternalError"}, {string(cpstatus.LocalListConflict), "LocalListConflict"}, {string(cpstatus.NoError), "NoError"}, {string(cpstatus.OtherError), "OtherError"}, {string(cpstatus.OverCurrentFailure), "OverCurrentFailure"}, {string(cpstatus.OverVoltage), "OverVoltage"}, {string(cpstatus.PowerMeterFailure), "PowerMeterFailure"}, {string(cpstatus.PowerSwitchFailure), "PowerSwitchFailure"}, {string(cpstatus.ReaderFailure), "ReaderFailure"}, {string(cpstatus.ResetFailure), "ResetFailure"}, {string(cpstatus.UnderVoltage), "UnderVoltage"}, {string(cpstatus.WeakSignal), "WeakSignal"},
			}
			k := kindOf("StatusNotification", true)
			rs := newBase(func() interface{} { return k.Resp() }, k.JResp, true).(messages.Response)
			known := map[string]bool{}
			for _, c := range codes {
				x.cases++
				known[c.got] = true
				if c.got != c.want {
					x.Fail("C21", "code:"+c.want, "the error code %s is %q", c.want, c.got)
					continue
				}
				rq := newBase(func() interface{} { return k.Req() }, k.JReq, true).(*cpreq.StatusNotification)
				rq.ErrorCode = cpstatus.ErrorCode(c.got)
				if !checkExchange(x, k, rq, rs, l.do(k, rq, rs, nil), false, "a status notification with the error code "+c.want, "code:"+c.want) {
					return
				}
			}
			for _, p := range k.JReq.Props {
				if p.Name == "errorCode" {
					for _, e := range p.Spec.Enum {
						if !known[e] {
							x.Fail("C21", "missing:"+e, "there is no error code %s", e)
						}
					}
				}
			}
			for _, c := range []struct {
				got  ws.ErrorCode
				want string
			}{{ws.NotSupported, "NotSupported"}, {ws.InternalError, "InternalError"}, {ws.ProtocolError, "ProtocolError"}, {ws.SecurityError, "SecurityError"}, {ws.FormationViolation, "FormationViolation"}, {ws.PropertyConstraintViolation, "PropertyConstraintViolation"}, {ws.OccurenceConstraintViolation, "OccurenceConstraintViolation"}, {ws.TypeConstraintViolation, "TypeConstraintViolation"}, {ws.GenericError, "GenericError"}} {
				x.cases++
				if string(c.got) != c.want && !ocppjCodes[string(c.got)] {
					x.Fail("C06", "code:"+c.want, "the error code %s is %q", c.want, string(c.got))
				}
			}
		}})
	reg(&Scenario{ID: "json-actions", Props: []string{"C23"}, Hist: true, Quick: 0, Thorough: 0,
		Desc: "the tables of actions of the public packages req and res, and the role of every type",
		Run: func(x *X) {
			k := kinds[pick(len(kinds))]
			x.cases++
			if k.Action != "DataTransfer" {
				if r := req.FromActionName(k.Action); reflect.TypeOf(r) != reflect.TypeOf(k.Req()) {
					x.Fail("C23", "req-table:"+k.Action, "the request type of %s is %T", k.Action, r)
				}
				if r := res.FromActionName(k.Action); reflect.TypeOf(r) != reflect.TypeOf(k.Resp()) {
					x.Fail("C23", "res-table:"+k.Action, "the response type of %s is %T", k.Action, r)
				}
			}
			rq, rs := k.Req(), k.Resp()
			if rq.Action() != k.Action {
				x.Fail("C23", "action:"+k.Action, "the action of %T is %q", rq, rq.Action())
			}
			if r := rq.GetResponse(); reflect.TypeOf(r) != reflect.TypeOf(rs) {
				x.Fail("C23", "getresponse:"+k.Action, "the response of %T is a %T", rq, r)
			}
			_, a := rq.(cpreq.ChargePointRequest)
			_, b := rq.(csreq.CentralSystemRequest)
			_, c := rs.(cpresp.ChargePointResponse)
			_, d := rs.(csresp.CentralSystemResponse)
			if a != k.FromCP || b == k.FromCP || c != k.FromCP || d == k.FromCP {
				x.Fail("C23", "role:"+k.Action, "%T or %T has the wrong role", rq, rs)
			}
			for _, n := range []string{"", "Nope", strings.ToLower(k.Action), k.Action + " ", k.Action + "Response"} {
				if r := req.FromActionName(n); r != nil {
					x.Fail("C23", "req-table:"+n, "%q is taken for a %T", n, r)
				}
			}
		}})
}
