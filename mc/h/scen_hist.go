//go:build go1.22

package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"os"
	"runtime"
	"strings"
	"time"

	"github.com/gorilla/websocket"
	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
	"github.com/voltbras/go-ocpp/ws"
)

// Histories of one websocket connection: every sequence of operations of the
// application, the peer and the network up to a depth, checked step by step
// against a reference model.  The two rigs put the central system and the
// charge point on the library's side of the connection.

type rig struct {
	role    string
	peer    *wsPeer
	send    func(k string) *sendOp
	match   func(op *sendOp, k string) string // "" or what is wrong with the response
	okCall  func(id string, n int) string     // inbound call the handler accepts
	okReply func(m omsg, n int) string        // "" or what is wrong with the reply
	erCall  func(id string, n int) string     // inbound call the handler refuses
	erText  string
	wrong   func(id string) string // inbound call of the other role
	badFld  func(id string) string // inbound call whose payload has a field of a wrong type
	reqKey  func(m omsg) string    // the key carried by a call we received
	okRep   func(id, k string) string
	badRep  func(id string) string
	close   func()
	// another connection of the same kind
	other func() *rig
}

func csRig(x *X) *rig {
	h := func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		switch r := r.(type) {
		case *cpreq.StartTransaction:
			x.Log("handle", md.ChargePointID, "StartTransaction", int64(r.MeterStart))
			if x.onHandle != nil {
				x.onHandle(r.MeterStart)
			}
			switch r.MeterStart {
			case hNil:
				return nil, nil
			case hNilPtr:
				return (*cpresp.StartTransaction)(nil), nil
			case hBoth:
				return &cpresp.StartTransaction{}, errors.New("both")
			case hUnencodable:
				return &cpresp.BootNotification{Interval: math.NaN()}, nil
			}
			if i := r.MeterStart - hErrVal; i >= 0 && i < 2*len(errVals) {
				if i%2 == 1 {
					return &cpresp.StartTransaction{IdTagInfo: &cpresp.IdTagInfo{Status: "Accepted"}}, errVals[i/2]
				}
				return nil, errVals[i/2]
			}
			if e, ok := errTexts[r.MeterStart]; ok {
				return nil, errors.New(e)
			}
			return &cpresp.StartTransaction{IdTagInfo: &cpresp.IdTagInfo{Status: "Accepted"}, TransactionId: int32(r.MeterStart) + 1000}, nil
		case *cpreq.StopTransaction:
			x.Log("handle", md.ChargePointID, "StopTransaction", int64(r.TransactionId))
			return nil, errors.New("boom \"quoted\" é")
		}
		name := "nil"
		if r != nil {
			name = r.Action()
		}
		x.Log("handle", md.ChargePointID, name, -1)
		return nil, errors.New("unexpected")
	}
	csys := startCS(x, h)
	p := connectPeer(x, "cp1")
	svc, err := csys.GetServiceOf("cp1", ocpp.V16, "")
	if err != nil {
		return nil
	}
	rg := &rig{role: "cs", peer: p,
		send: func(k string) *sendOp { return goSendCP(svc, &csreq.GetConfiguration{Key: []string{k}}) },
		match: func(op *sendOp, k string) string {
			r, ok := op.resp.(*csresp.GetConfiguration)
			if !ok || r == nil {
				return fmt.Sprintf("response is a %T", op.resp)
			}
			if strings.Join(r.UnknownKey, ",") != k {
				return fmt.Sprintf("response is the one for %v", r.UnknownKey)
			}
			return ""
		},
		okCall: func(id string, n int) string {
			return fmt.Sprintf(`[2,%s,"StartTransaction",{"connectorId":1,"idTag":"T","meterStart":%d,"timestamp":"2020-01-01T00:00:00Z"}]`, q(id), n)
		},
		okReply: func(m omsg, n int) string {
			if field(m.Payload, "transactionId") != itoa(n+1000) {
				return "payload " + string(m.Payload)
			}
			return ""
		},
		erCall: func(id string, n int) string {
			return fmt.Sprintf(`[2,%s,"StopTransaction",{"transactionId":%d,"meterStop":1,"timestamp":"2020-01-01T00:00:00Z"}]`, q(id), n)
		},
		erText: "boom \"quoted\" é",
		wrong:  func(id string) string { return fmt.Sprintf(`[2,%s,"Reset",{"type":"Hard"}]`, q(id)) },
		badFld: func(id string) string {
			return fmt.Sprintf(`[2,%s,"StartTransaction",{"connectorId":"one","idTag":"T","meterStart":1,"timestamp":"2020-01-01T00:00:00Z"}]`, q(id))
		},
		reqKey: func(m omsg) string { return strings.Trim(field(m.Payload, "key"), `[]"`) },
		okRep:  func(id, k string) string { return fmt.Sprintf(`[3,%s,{"unknownKey":[%s]}]`, q(id), q(k)) },
		badRep: func(id string) string { return fmt.Sprintf(`[3,%s,{"unknownKey":5}]`, q(id)) },
		close:  func() {},
	}
	rg.other = func() *rig {
		o := *rg
		o.peer = connectPeer(x, "cp2")
		svc, err := csys.GetServiceOf("cp2", ocpp.V16, "")
		if err != nil {
			return nil
		}
		o.send = func(k string) *sendOp { return goSendCP(svc, &csreq.GetConfiguration{Key: []string{k}}) }
		return &o
	}
	return rg
}

func cpRig(x *X) *rig {
	s := listenPeer(x, "9001")
	ctx, cancel := context.WithCancel(context.Background())
	h := func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		switch r := r.(type) {
		case *csreq.RemoteStopTransaction:
			x.Log("handle", "cp1", "RemoteStopTransaction", int64(r.TransactionId))
			if x.onHandle != nil {
				x.onHandle(int(r.TransactionId))
			}
			switch int(r.TransactionId) {
			case hNil:
				return nil, nil
			case hNilPtr:
				return (*csresp.RemoteStopTransaction)(nil), nil
			case hBoth:
				return &csresp.RemoteStopTransaction{}, errors.New("both")
			case hUnencodable:
				return &csresp.GetCompositeSchedule{ChargingSchedule: &csresp.ChargingSchedule{MinChargingRate: math.NaN()}}, nil
			}
			if i := int(r.TransactionId) - hErrVal; i >= 0 && i < 2*len(errVals) {
				if i%2 == 1 {
					return &csresp.RemoteStopTransaction{Status: "Accepted"}, errVals[i/2]
				}
				return nil, errVals[i/2]
			}
			if e, ok := errTexts[int(r.TransactionId)]; ok {
				return nil, errors.New(e)
			}
			return &csresp.RemoteStopTransaction{Status: "S" + itoa(int(r.TransactionId))}, nil
		case *csreq.UnlockConnector:
			x.Log("handle", "cp1", "UnlockConnector", int64(r.ConnectorId))
			return nil, errors.New("boom \"quoted\" é")
		}
		name := "nil"
		if r != nil {
			name = r.Action()
		}
		x.Log("handle", "cp1", name, -1)
		return nil, errors.New("unexpected")
	}
	c, err := startCP(x, ctx, "cp1", "9001", h)
	if err != nil {
		return nil
	}
	rg := &rig{role: "cp", peer: s.last(),
		send: func(k string) *sendOp { return goSendCS(c, &cpreq.Authorize{IdTag: k}) },
		match: func(op *sendOp, k string) string {
			r, ok := op.resp.(*cpresp.Authorize)
			if !ok || r == nil {
				return fmt.Sprintf("response is a %T", op.resp)
			}
			if r.IdTagInfo.ParentIdTag != k {
				return fmt.Sprintf("response is the one for %v", r.IdTagInfo.ParentIdTag)
			}
			return ""
		},
		okCall: func(id string, n int) string {
			return fmt.Sprintf(`[2,%s,"RemoteStopTransaction",{"transactionId":%d}]`, q(id), n)
		},
		okReply: func(m omsg, n int) string {
			if field(m.Payload, "status") != `"S`+itoa(n)+`"` {
				return "payload " + string(m.Payload)
			}
			return ""
		},
		erCall: func(id string, n int) string {
			return fmt.Sprintf(`[2,%s,"UnlockConnector",{"connectorId":%d}]`, q(id), n)
		},
		erText: "boom \"quoted\" é",
		wrong:  func(id string) string { return fmt.Sprintf(`[2,%s,"Heartbeat",{}]`, q(id)) },
		badFld: func(id string) string {
			return fmt.Sprintf(`[2,%s,"RemoteStopTransaction",{"transactionId":"x"}]`, q(id))
		},
		reqKey: func(m omsg) string { return strings.Trim(field(m.Payload, "idTag"), `"`) },
		okRep: func(id, k string) string {
			return fmt.Sprintf(`[3,%s,{"idTagInfo":{"status":"Accepted","parentIdTag":%s}}]`, q(id), q(k))
		},
		badRep: func(id string) string { return fmt.Sprintf(`[3,%s,{"idTagInfo":7}]`, q(id)) },
		close:  func() { cancel(); s.l.Close() },
	}
	rg.other = func() *rig {
		o := *rg
		c, err := startCP(x, ctx, "cp2", "9001", h)
		if err != nil {
			return nil
		}
		o.peer = s.last()
		o.send = func(k string) *sendOp { return goSendCS(c, &cpreq.Authorize{IdTag: k}) }
		return &o
	}
	return rg
}

// what the handlers of the rigs do with special requests
const (
	hNil = 500 + iota
	hNilPtr
	hBoth
	hUnencodable
	hErrText // and more
)

var specialTexts = []string{"", "x", "with \"quotes\" and \\ backslash", "é 中 \U0001F600", "line\nbreak\ttab", "<b>&amp;</b>", "%s %d %!", "\x00\x01\x7f", strings.Repeat("long ", 200), "[4,\"id\"]", "null", "\u2028", "\ufffd", " spaces "}

var errTexts = map[int]string{}

// hErrVal: the handler returns errVals[i/2], for odd i with a response
const hErrVal = 7000

type customErr struct{ a, b string }

func (e *customErr) Error() string { return e.a + e.b }

type sliceErr []string

func (e sliceErr) Error() string { return strings.Join(e, ";") }

var errVals = []error{
	errors.New(""), errors.New("x"), io.EOF, io.ErrUnexpectedEOF, context.Canceled, context.DeadlineExceeded, net.ErrClosed, os.ErrNotExist,
	&net.OpError{Op: "read", Net: "tcp", Err: errors.New("refused")}, &websocket.CloseError{Code: 1006, Text: "abnormal"}, websocket.ErrCloseSent,
	ws.NotSupported, ws.GenericError, ws.FormationViolation, ws.ErrorCode("Custom"), ws.ErrorCode(""), ws.NewCallErrorMessage("zz", ws.SecurityError, "desc"),
	fmt.Errorf("wrapped: %w", ws.NotSupported), fmt.Errorf("wrapped: %w", io.EOF), errors.Join(errors.New("a"), errors.New("b")),
	&customErr{"a", "b"}, sliceErr{"a", "b"}, sliceErr(nil),
	cpreq.ErrorNotChargePointRequest, csreq.ErrorNotCentralSystemRequest, cpresp.ErrorNotChargePointResponse, csresp.ErrorNotCentralSystemResponse,
}

func init() {
	for i, t := range specialTexts {
		errTexts[hErrText+i] = t
	}
}

type outCall struct {
	k    string
	id   string
	op   *sendOp
	done bool
}

// hist drives one rig through a history.
type hist struct {
	x     *X
	r     *rig
	prop  string // property of the current operation
	susp  string // property of the last abnormal operation
	trace []string
	outs  []*outCall
	nk    int
	nmsg  int // messages of the library consumed so far
	nh    int // handler calls consumed so far
	ncall int
	dead  bool
	mf    int
	ids   map[string]bool
	prev  string // id of the last completed call
	fails int
}

func (h *hist) fail(key, format string, args ...interface{}) {
	h.fails++
	msg := fmt.Sprintf(format, args...) + "\nhistory: " + strings.Join(h.trace, "; ")
	h.x.Fail(h.prop, h.r.role+":"+key, "%s", msg)
	if h.susp != "" && h.susp != h.prop {
		h.x.Fail(h.susp, h.r.role+":after:"+key, "%s", msg)
	}
}

// newMsgs returns the messages the library sent since the last call.
func (h *hist) newMsgs() []omsg {
	m := h.r.peer.msgs()
	n := m[h.nmsg:]
	h.nmsg = len(m)
	for _, mm := range n {
		if mm.Bad != "" {
			h.fail("bad-frame", "sent an ill-formed message %q: %s", mm.Raw, mm.Bad)
		}
	}
	if h.r.peer.bad != "" {
		h.fail("bad-ws", "websocket protocol violation: %s", h.r.peer.bad)
	}
	return n
}

func (h *hist) newHandled() []event {
	h.x.Sync()
	var ev []event
	n := 0
	for _, e := range h.x.events() {
		if e.kind == "handle" {
			n++
			if n > h.nh {
				ev = append(ev, e)
			}
		}
	}
	h.nh = n
	return ev
}

func (h *hist) noHandled() {
	if ev := h.newHandled(); len(ev) > 0 {
		h.fail("handler", "the handler was called for %s (%d)", ev[0].b, ev[0].n)
	}
}

func (h *hist) noMsgs() {
	if m := h.newMsgs(); len(m) > 0 {
		h.fail("extra-msg", "unexpected message %s", m[0].Raw)
	}
}

func (h *hist) pending() []*outCall {
	var r []*outCall
	for _, o := range h.outs {
		if !o.done {
			r = append(r, o)
		}
	}
	return r
}

// checkPending: every outstanding Send is still waiting.
func (h *hist) checkPending() {
	for _, o := range h.pending() {
		if o.op.isDone() {
			o.done = true
			h.fail("premature", "Send(%s) returned (%T, %v) although it was not answered", o.k, o.op.resp, short(o.op.err))
		}
	}
}

func (h *hist) complete(o *outCall, wantErr []string, okResp bool) {
	o.done = true
	h.prev = o.id
	if !o.op.isDone() {
		h.fail("not-delivered", "Send(%s) did not return", o.k)
		return
	}
	if okResp {
		if o.op.err != nil {
			h.fail("error", "Send(%s) returned error %q", o.k, short(o.op.err))
		} else if w := h.r.match(o.op, o.k); w != "" {
			h.fail("wrong-response", "Send(%s): %s", o.k, w)
		}
		return
	}
	if o.op.err == nil {
		h.fail("no-error", "Send(%s) returned no error but (%T)", o.k, o.op.resp)
		return
	}
	for _, w := range wantErr {
		if !strings.Contains(o.op.err.Error(), w) {
			h.fail("error-text", "the error of Send(%s) is %q and does not tell %q", o.k, o.op.err.Error(), w)
		}
	}
}

var malformed = []string{
	`[ab`, ``, `[]`, `null`, `{}`, `[2]`, `[3,"id"]`, `[2,"id"]`, `[2,"id","Heartbeat"]`, `[3]`, `[4,"id"]`,
	`[4,"id","code"]`, `[4,"id","code","d"]`, `[9,"id",{}]`, `["2","id","Heartbeat",{}]`, `[2,7,"Heartbeat",{}]`, `[2,"id",7,{}]`,
	`[2,"id","Heartbeat",[]]`, `[2,"id","Heartbeat",null]`, `[3,"id",[]]`, `"x"`, `17`, `true`, `[null,null,null,null]`, `[2.5,"id","Heartbeat",{}]`,
	`[[],[],[]]`, `[0]`, `[-1,"x"]`, `[1e99,"x",{}]`, "\x00\xff\xfe", `[2,"id","Heartbeat",{}`, `[4,"id",1,2,3]`, `[4,"id","c","d",[]]`, `[1,"id",{}]`, `[5,"id",{}]`,
}

const (
	opStop = iota
	opSend
	opReplyOld
	opReplyNew
	opErrReply
	opStale
	opUnsol
	opCallOK
	opCallErr
	opWrong
	opUnknown
	opMalformed
	opBadReply
	opTimeout
	opClose
	opCut
	opBadField
	opCount
)

func (h *hist) step() bool {
	x, r := h.x, h.r
	// menu of the operations that make sense now
	menu := []int{opStop}
	pend := h.pending()
	if !h.dead {
		if len(pend) < 3 {
			menu = append(menu, opSend)
		}
		if len(pend) > 0 {
			menu = append(menu, opReplyOld, opErrReply, opBadReply, opTimeout)
		}
		if len(pend) > 1 {
			menu = append(menu, opReplyNew)
		}
		if h.prev != "" {
			menu = append(menu, opStale)
		}
		menu = append(menu, opUnsol, opCallOK, opCallErr, opWrong, opUnknown, opMalformed, opBadField, opClose, opCut)
	} else if r.role == "cs" {
		menu = append(menu, opSend)
	}
	op := menu[runtime.McChoose(len(menu))]
	switch op {
	case opStop:
		return false
	case opSend:
		h.nk++
		k := "k" + itoa(h.nk)
		h.prop = "C01"
		h.trace = append(h.trace, "Send("+k+")")
		o := &outCall{k: k, op: r.send(k)}
		h.outs = append(h.outs, o)
		x.Settle()
		if h.dead {
			h.prop = "C02"
			x.Advance(time.Second)
			h.complete(o, nil, false)
			break
		}
		m := h.newMsgs()
		if len(m) != 1 || m[0].Type != 2 {
			h.fail("no-call", "%d messages were sent for the call", len(m))
			o.done = true
			return false
		}
		if h.ids[m[0].ID] {
			h.fail("dup-id", "message id %s used twice", m[0].ID)
		}
		h.ids[m[0].ID] = true
		o.id = m[0].ID
		if g := r.reqKey(m[0]); g != k {
			h.fail("payload", "the call carries %q instead of %q", g, k)
		}
	case opReplyOld, opReplyNew:
		h.prop = "C01"
		o := pend[0]
		if op == opReplyNew {
			o = pend[len(pend)-1]
		}
		h.trace = append(h.trace, "reply("+o.k+")")
		r.peer.sendText(r.okRep(o.id, o.k))
		x.Settle()
		h.complete(o, nil, true)
		h.noMsgs()
	case opErrReply:
		h.prop = "C07"
		o := pend[0]
		h.trace = append(h.trace, "call-error("+o.k+")")
		r.peer.sendText(fmt.Sprintf(`[4,%s,"SecurityError","no \"way\" %s",{"a":1}]`, q(o.id), o.k))
		x.Settle()
		h.complete(o, []string{"SecurityError", "no \"way\" " + o.k}, false)
		h.noMsgs()
	case opBadReply:
		h.prop = "C07"
		h.susp = "C04"
		o := pend[0]
		h.trace = append(h.trace, "undecodable-result("+o.k+")")
		r.peer.sendText(r.badRep(o.id))
		x.Settle()
		h.complete(o, nil, false)
		h.noMsgs()
	case opStale:
		h.prop, h.susp = "C01", "C01"
		h.trace = append(h.trace, "second reply to an already completed call")
		r.peer.sendText(r.okRep(h.prev, "stale"))
		x.Settle()
		h.noMsgs()
	case opUnsol:
		h.prop, h.susp = "C01", "C01"
		h.trace = append(h.trace, "replies nobody asked for")
		r.peer.sendText(r.okRep("nobody", "unsolicited"))
		r.peer.sendText(`[4,"nobody2","GenericError","x",{}]`)
		x.Settle()
		h.noMsgs()
	case opCallOK, opCallErr:
		h.prop = "C03"
		h.ncall++
		id := "in" + itoa(h.ncall)
		n := 100 + h.ncall
		if op == opCallOK {
			h.trace = append(h.trace, "inbound call")
			r.peer.sendText(r.okCall(id, n))
		} else {
			h.trace = append(h.trace, "inbound call refused by the handler")
			r.peer.sendText(r.erCall(id, n))
		}
		x.Settle()
		ev := h.newHandled()
		if len(ev) != 1 || ev[0].n != int64(n) {
			h.fail("handled", "the handler was called %d times for one call", len(ev))
		}
		m := h.newMsgs()
		if len(m) != 1 || m[0].ID != id {
			h.fail("answers", "%d answers to one inbound call", len(m))
			break
		}
		if op == opCallOK {
			if m[0].Type != 3 {
				h.fail("answer-type", "answer %s to an accepted call", m[0].Raw)
			} else if w := r.okReply(m[0], n); w != "" {
				h.fail("answer-payload", "answer to call %d has %s", n, w)
			}
		} else if m[0].Type != 4 || !strings.Contains(m[0].Desc+field(m[0].Payload, "x"), r.erText) {
			h.fail("answer-error", "answer to a refused call: %s", m[0].Raw)
		}
	case opWrong, opUnknown, opBadField:
		h.prop, h.susp = "C06", "C06"
		h.ncall++
		id := "in" + itoa(h.ncall)
		switch op {
		case opWrong:
			h.trace = append(h.trace, "inbound call of the wrong role")
			r.peer.sendText(r.wrong(id))
		case opUnknown:
			h.trace = append(h.trace, "inbound call of an unknown action")
			r.peer.sendText(fmt.Sprintf(`[2,%s,"NoSuchAction",{}]`, q(id)))
		case opBadField:
			h.trace = append(h.trace, "inbound call with a field of a wrong type")
			r.peer.sendText(r.badFld(id))
		}
		x.Settle()
		h.noHandled()
		m := h.newMsgs()
		if len(m) != 1 || m[0].ID != id || m[0].Type != 4 {
			raw := ""
			if len(m) > 0 {
				raw = m[0].Raw
			}
			h.fail("not-refused", "%d answers (%s) instead of one CALLERROR", len(m), raw)
		}
	case opMalformed:
		h.prop, h.susp = "C04", "C04"
		f := malformed[h.mf%len(malformed)]
		h.mf++
		h.trace = append(h.trace, "malformed "+q(f))
		r.peer.sendText(f)
		x.Settle()
		h.noHandled()
		h.newMsgs() // an error reply is allowed
	case opTimeout:
		h.prop, h.susp = "C02", "C02"
		h.trace = append(h.trace, "70 s pass")
		x.Advance(70 * time.Second)
		for _, o := range pend {
			h.complete(o, nil, false)
			if o.op.isDone() && (o.op.took() < 30 || o.op.took() > 65) {
				h.fail("timeout-time", "Send(%s) gave up after %.1f s", o.k, o.op.took())
			}
		}
		h.noMsgs()
	case opClose, opCut:
		h.prop = "C02"
		if op == opClose {
			h.trace = append(h.trace, "peer closes")
			r.peer.sendFrame(8, true, []byte{0x03, 0xe8})
			x.Settle()
			r.peer.c.Close()
		} else {
			h.trace = append(h.trace, "connection breaks")
			r.peer.c.cut()
		}
		h.dead = true
		x.Advance(time.Second)
		for _, o := range pend {
			h.complete(o, nil, false)
		}
		h.newMsgs()
	}
	h.checkPending()
	if op != opCallOK && op != opCallErr {
		h.noHandled()
	}
	if !h.dead && r.peer.closed() {
		h.fail("closed", "the library closed the connection")
		h.dead = true
		return false
	}
	return h.fails == 0
}

// finish checks that the connection still works and that nothing is left
// behind after it ends.
func (h *hist) finish() {
	x, r := h.x, h.r
	if h.fails == 0 && !h.dead {
		// probe
		h.prop = "C03"
		h.trace = append(h.trace, "final probe")
		h.ncall++
		id := "probe"
		r.peer.sendText(r.okCall(id, 999))
		h.nk++
		op := r.send("kp")
		x.Settle()
		m := h.newMsgs()
		okc := false
		for _, mm := range m {
			if mm.Type == 3 && mm.ID == id && r.okReply(mm, 999) == "" {
				okc = true
			}
		}
		if !okc {
			h.fail("probe-call", "an inbound call at the end of the history was not answered correctly")
		}
		h.prop = "C01"
		o := &outCall{k: "kp", op: op}
		for _, mm := range m {
			if mm.Type == 2 {
				o.id = mm.ID
			}
		}
		if o.id == "" {
			h.fail("probe-send", "a Send at the end of the history sent nothing")
		} else {
			r.peer.sendText(r.okRep(o.id, "kp"))
			x.Settle()
			h.complete(o, nil, true)
		}
	}
	n := 0
	for _, o := range h.outs {
		if !o.done {
			n++
		}
	}
	x.Outcome("%s %d %d", strings.Join(h.trace, ";"), n, h.nmsg)
	if h.fails == 0 {
		// everything ends: no goroutine of the library may survive
		r.close()
		if !h.dead {
			r.peer.c.Close()
		}
		sn.closeAll()
		x.Advance(5 * time.Minute)
		h.prop, h.susp = "C08", ""
		if l := leaks(); len(l) > 0 {
			h.fail("leak", "%d goroutines of the library left after the connection ended: %v", len(l), l)
		}
	}
}

func runHist(x *X, mk func(x *X) *rig, depth int, mf int) {
	r := mk(x)
	if r == nil || r.peer == nil {
		x.Setup("the connection could not be set up")
		return
	}
	h := &hist{x: x, r: r, mf: mf, ids: map[string]bool{}}
	for i := 0; i < depth; i++ {
		if !h.step() {
			break
		}
	}
	h.finish()
}

func init() {
	for _, role := range []string{"cs", "cp"} {
		role := role
		mk := csRig
		if role == "cp" {
			mk = cpRig
		}
		props := []string{"C01", "C02", "C03", "C04", "C06", "C07", "C08"}
		reg(&Scenario{ID: "hist-" + role + "-4", Props: props, Hist: true, Quick: 0, Thorough: 0,
			Desc: "every history of 4 operations (17 kinds: sends, replies in and out of order, errors, stale and unsolicited replies, inbound calls, malformed frames, timeouts, close, cut) on one connection, " + role + " side",
			Run:  func(x *X) { runHist(x, mk, 4, 0) }})
		reg(&Scenario{ID: "hist-" + role + "-5", Props: props, Hist: true, Quick: -1, Thorough: 0,
			Desc: "every history of 5 operations on one connection, " + role + " side",
			Run:  func(x *X) { runHist(x, mk, 5, 7) }})
		reg(&Scenario{ID: "hist-" + role + "-6", Props: props, Hist: true,
			Desc: "every history of 6 operations on one connection, " + role + " side",
			Run:  func(x *X) { runHist(x, mk, 6, 7) }})
		reg(&Scenario{ID: "hist-" + role + "-sched", Props: props, Hist: true, Quick: -1, Thorough: 1,
			Desc: "every history of 2 operations on one connection under every schedule with one deviation, " + role + " side",
			Run: func(x *X) {
				r := mk(x)
				if r == nil || r.peer == nil {
					x.Setup("the connection could not be set up")
					return
				}
				h := &hist{x: x, r: r, mf: 3, ids: map[string]bool{}}
				x.Explore(true)
				for i := 0; i < 2; i++ {
					if !h.step() {
						break
					}
				}
				x.Explore(false)
				h.finish()
			}})
	}
}
