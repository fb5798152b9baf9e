//go:build go1.22

package main

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
)

// Every pair of actions on one connection: two calls, two Sends, a call
// during a Send, a Send during a call.  No action is treated differently.

type actRun struct {
	x       *X
	role    string
	peer    *wsPeer
	c       csService
	svc     cpService
	delay   float64
	running int
	resp    messages.Response
	rerr    error
	got     []messages.Request
	names   []string // starts and ends
	calls   map[string]*msgKind
}

// schema checks everything that the library has sent since the last forget.
func (a *actRun) schema(what string) {
	for _, m := range a.peer.msgs() {
		var k *msgKind
		var s *spec
		switch {
		case m.Bad != "":
			a.x.Fail("C21", "pairs:message", "%s: not a valid message (%s): %s", what, m.Bad, m.Raw)
			return
		case m.Type == 2:
			if k = kindOf(m.Action, a.role == "cp"); k != nil {
				s = k.JReq
			}
		case m.Type == 3:
			if k = a.calls[m.ID]; k != nil {
				s = k.JResp
			}
		}
		if s == nil {
			continue
		}
		v, err := jparse(m.Payload)
		e := ""
		if err != nil {
			e = err.Error()
		} else {
			e = jvalid(v, s, "payload", true)
		}
		if e != "" {
			a.x.Fail("C21", "pairs:"+k.Action, "%s: does not conform to the schema of %s: %s: %s", what, k.Action, e, m.Raw)
			return
		}
	}
}

func (a *actRun) handle(r messages.Request) (messages.Response, error) {
	name := "nil"
	if r != nil {
		name = r.Action()
	}
	a.got = append(a.got, r)
	a.names = append(a.names, "+"+name)
	k := kindOf(name, a.role == "cs")
	if a.delay > 0 {
		time.Sleep(sec(a.delay))
	}
	a.names = append(a.names, "-"+name)
	if k == nil {
		return nil, errors.New("unknown")
	}
	if a.rerr != nil {
		return nil, a.rerr
	}
	return newBase(func() interface{} { return k.Resp() }, k.JResp, true).(messages.Response), nil
}

func newActRun(x *X, role string) *actRun {
	a := &actRun{x: x, role: role}
	if role == "cp" {
		srv := listenPeer(x, "9001")
		c, err := startCP(x, context.Background(), "cp1", "9001", func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
			resp, err := a.handle(r)
			if err != nil {
				return nil, err
			}
			return resp.(csresp.CentralSystemResponse), nil
		})
		if err != nil {
			x.Setup("cp.New: %v", err)
			return nil
		}
		a.c = c
		a.peer = srv.last()
		return a
	}
	csys := startCS(x, func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		resp, err := a.handle(r)
		if err != nil {
			return nil, err
		}
		return resp.(cpresp.ChargePointResponse), nil
	})
	a.peer = connectPeer(x, "cp1")
	svc, err := csys.GetServiceOf("cp1", ocpp.V16, "")
	if err != nil {
		x.Setup("GetServiceOf: %v", err)
		return nil
	}
	a.svc = svc
	return a
}

func (a *actRun) request(k *msgKind) messages.Request {
	return newBase(func() interface{} { return k.Req() }, k.JReq, true).(messages.Request)
}

func (a *actRun) call(k *msgKind, id string) string {
	if a.calls == nil {
		a.calls = map[string]*msgKind{}
	}
	a.calls[id] = k
	return fmt.Sprintf(`[2,%s,%s,%s]`, q(id), q(k.Action), jencode(jsonOf(a.request(k), k.JReq)))
}

func (a *actRun) send(rq messages.Request) *sendOp {
	if a.role == "cp" {
		return goSendCS(a.c, rq.(cpreq.ChargePointRequest))
	}
	return goSendCP(a.svc, rq.(csreq.CentralSystemRequest))
}

func (a *actRun) response(k *msgKind, n int) messages.Response {
	return newBaseN(func() interface{} { return k.Resp() }, k.JResp, true, n).(messages.Response)
}

// sent is how often the library sent a request of this kind, and its last id.
func (a *actRun) sent(k *msgKind) (int, string) {
	n, id := 0, ""
	for _, m := range callsOf(a.peer) {
		if m.Action == k.Action {
			n++
			id = m.ID
		}
	}
	return n, id
}

func (a *actRun) checkOp(op *sendOp, k *msgKind, n int, bad func(key, f string, v ...interface{})) {
	rs := a.response(k, n)
	switch {
	case !op.isDone() || op.err != nil:
		bad("send", "Send of %s: done %v, error %v", k.Action, op.isDone(), short(op.err))
	case reflect.TypeOf(op.resp) != reflect.TypeOf(rs):
		bad("send-type", "Send of %s returned a %T instead of a %T", k.Action, op.resp, rs)
	default:
		if d := msgDiff(rs, op.resp, true); d != "" {
			bad("send-content", "Send of %s returned the response with %s", k.Action, d)
		}
	}
}

func (a *actRun) checkCalls(ks []*msgKind, ids []string, fails bool, bad func(key, f string, v ...interface{})) {
	var want []string
	for _, k := range ks {
		want = append(want, "+"+k.Action, "-"+k.Action)
	}
	a.x.Sync()
	if strings.Join(want, " ") != strings.Join(a.names, " ") {
		bad("order", "the handler started (+) and returned (-) as %v instead of %v", a.names, want)
		return
	}
	for i, k := range ks {
		rq := a.request(k)
		if reflect.TypeOf(rq) != reflect.TypeOf(a.got[i]) {
			bad("type", "call %d, a %s, was handled as a %T", i, k.Action, a.got[i])
		} else if d := msgDiff(rq, a.got[i], true); d != "" {
			bad("content", "call %d, a %s, was handled with %s", i, k.Action, d)
		}
	}
	got := repliesOf(a.peer)
	if len(got) != len(ks) {
		bad("answers", "%d answers to %d calls", len(got), len(ks))
		return
	}
	for i, m := range got {
		if m.ID != ids[i] {
			bad("answer-order", "answer %d has the id %q instead of %q", i, m.ID, ids[i])
			return
		}
		if fails {
			if m.Type != 4 || m.Desc != a.rerr.Error() {
				bad("answer-error", "call %d, a %s, was answered by %s", i, ks[i].Action, m.Raw)
			}
			continue
		}
		if m.Type != 3 {
			bad("answer", "call %d, a %s, was answered by %s", i, ks[i].Action, m.Raw)
			continue
		}
		v, err := jparse(m.Payload)
		if err != nil {
			bad("answer", "call %d, a %s, was answered by %s", i, ks[i].Action, m.Raw)
		} else if e := jcompare(jsonOf(newBase(func() interface{} { return ks[i].Resp() }, ks[i].JResp, true), ks[i].JResp), v, "payload"); e != "" {
			bad("answer-content", "call %d, a %s, was answered by %s: %s", i, ks[i].Action, m.Raw, e)
		}
	}
}

func actionPairs(x *X, role string) {
	a := newActRun(x, role)
	if a == nil {
		return
	}
	p := a.peer
	inbound := func(k *msgKind) bool { return k.FromCP == (role == "cs") }
	ka := kinds[pick(len(kinds))]
	mode := pick(3)
	what := ""
	ok := true
	bad := func(key, f string, v ...interface{}) {
		ok = false
		props := "C01,C03"
		switch key {
		case "type", "send", "send-type", "sends":
			props += ",C23"
		}
		x.Fail(props, role+":"+key, "%s (%s)", fmt.Sprintf(f, v...), what)
	}
	n := 0
	for _, kb := range kinds {
		x.cases++
		n++
		p.forget()
		a.got, a.names, a.rerr, a.delay = nil, nil, nil, 0
		ids := []string{"x" + itoa(n), "y" + itoa(n)}
		switch {
		case inbound(ka) && inbound(kb): // two calls at once
			what = fmt.Sprintf("%s and %s received at once", ka.Action, kb.Action)
			switch mode {
			case 0:
				a.delay = 1.5
			case 1:
				a.rerr = errors.New("refused " + itoa(n))
				a.delay = 0.5
			}
			p.sendSplit([]string{a.call(ka, ids[0]), a.call(kb, ids[1])}, mode%2)
			x.Advance(4 * time.Second)
			a.checkCalls([]*msgKind{ka, kb}, ids, mode == 1, bad)
		case !inbound(ka) && !inbound(kb): // two Sends at once
			what = fmt.Sprintf("Sends of %s and %s at once, order of the answers %d", ka.Action, kb.Action, mode)
			ra, rb := a.request(ka), a.request(kb)
			if ka == kb && mode != 1 {
				rb = ra // the very same message
			}
			oa := a.send(ra)
			x.Settle()
			_, ia := a.sent(ka)
			ob := a.send(rb)
			x.Settle()
			nb, ib := a.sent(kb)
			wantB := 1
			if ka == kb {
				wantB = 2
			}
			if nb != wantB || ia == "" || ia == ib {
				bad("sends", "%d calls were sent: ids %q and %q", nb, ia, ib)
				break
			}
			reply := func(id string, k *msgKind, n int) {
				p.sendText(fmt.Sprintf(`[3,%s,%s]`, q(id), jencode(jsonOf(a.response(k, n), k.JResp))))
			}
			if mode == 2 {
				reply(ia, ka, n)
				x.Settle()
				if ob.isDone() {
					bad("early", "the Send of %s returned before its answer", kb.Action)
				}
				reply(ib, kb, n+1)
			} else {
				reply(ib, kb, n+1)
				x.Settle()
				if oa.isDone() {
					bad("early", "the Send of %s returned before its answer", ka.Action)
				}
				reply(ia, ka, n)
			}
			x.Settle()
			a.checkOp(oa, ka, n, bad)
			a.checkOp(ob, kb, n+1, bad)
		case inbound(ka): // a Send while a call is handled
			what = fmt.Sprintf("a Send of %s while %s is handled (%d)", kb.Action, ka.Action, mode)
			a.delay = 2
			p.sendText(a.call(ka, ids[0]))
			x.Advance(500 * time.Millisecond)
			ob := a.send(a.request(kb))
			x.Settle()
			nb, ib := a.sent(kb)
			if nb != 1 {
				bad("sends", "%d calls were sent", nb)
				break
			}
			if mode == 1 {
				x.Advance(2 * time.Second)
			}
			p.sendText(fmt.Sprintf(`[3,%s,%s]`, q(ib), jencode(jsonOf(a.response(kb, n), kb.JResp))))
			x.Advance(3 * time.Second)
			a.checkOp(ob, kb, n, bad)
			a.checkCalls([]*msgKind{ka}, ids, false, bad)
		default: // a call while a Send is pending
			what = fmt.Sprintf("%s received while a Send of %s is pending (%d)", kb.Action, ka.Action, mode)
			oa := a.send(a.request(ka))
			x.Settle()
			na, ia := a.sent(ka)
			if na != 1 {
				bad("sends", "%d calls were sent", na)
				break
			}
			// mode 1: with the very id of the pending Send
			if mode == 1 {
				ids[0] = ia
			}
			rep := fmt.Sprintf(`[3,%s,%s]`, q(ia), jencode(jsonOf(a.response(ka, n), ka.JResp)))
			if mode == 2 {
				a.delay = 1
				p.sendSplit([]string{a.call(kb, ids[0]), rep}, 0)
				x.Advance(2 * time.Second)
			} else {
				p.sendText(a.call(kb, ids[0]))
				x.Settle()
				if oa.isDone() {
					bad("early", "the Send of %s returned before its answer", ka.Action)
				}
				p.sendText(rep)
				x.Settle()
			}
			a.checkOp(oa, ka, n, bad)
			a.checkCalls([]*msgKind{kb}, ids, false, bad)
		}
		a.schema(what)
		if !ok {
			return
		}
	}
}

func init() {
	for _, role := range []string{"cs", "cp"} {
		role := role
		reg(&Scenario{ID: "action-pairs-" + role, Props: []string{"C01", "C03", "C21", "C23"}, Hist: true,
			Desc: "every pair of actions: two calls at once, two Sends at once, a call during a Send, a Send during a call, in three ways each, " + role + " side",
			Run:  func(x *X) { actionPairs(x, role) }})
	}
}

// soapActionPairs: every pair of actions of OCPP 1.5, one after the other over
// the same central system and charge point.
func soapActionPairs(x *X) {
	ka := soapKinds[pick(len(soapKinds))]
	all := pick(2) == 1
	l := newSoapLink(x, "cp1")
	if l == nil {
		return
	}
	for _, kb := range soapKinds {
		for _, k := range []*msgKind{ka, kb, ka} {
			k := k
			rq := newBase(func() interface{} { return k.Req() }, k.XReq, all).(messages.Request)
			rs := newBase(func() interface{} { return k.Resp() }, k.XResp, all).(messages.Response)
			ex := l.do(k, rq, rs, nil)
			if !l.checkSoap(k, rq, rs, ex, fmt.Sprintf("%s of the %s between %s and %s", k.Action, who(k.FromCP), ka.Action, kb.Action), "pair:"+k.Action) {
				return
			}
		}
	}
}

func init() {
	reg(&Scenario{ID: "soap-action-pairs", Props: []string{"C16", "C24", "C25"}, Hist: true,
		Desc: "every pair of actions of OCPP 1.5 after each other over the same SOAP charge point and central system",
		Run:  soapActionPairs})
}

// sameObjects: the application uses the same objects for all its requests and
// responses of an action, changing them in between, and does what it likes
// with the objects it received.
func sameObjects(x *X, soap bool) {
	list := kinds
	if soap {
		list = soapKinds
	}
	k := list[pick(len(list))]
	mode := pick(3) // received objects are kept and compared later; overwritten; sent back as they came
	s, rsS := k.JReq, k.JResp
	if soap {
		s, rsS = k.XReq, k.XResp
	}
	mkReq := func() interface{} { return newBase(func() interface{} { return k.Req() }, s, true) }
	mkResp := func() interface{} { return newBase(func() interface{} { return k.Resp() }, rsS, true) }
	var do func(rq messages.Request, rs messages.Response, what, key string) (*exchange, bool)
	if soap {
		l := newSoapLink(x, "cp1")
		if l == nil {
			return
		}
		do = func(rq messages.Request, rs messages.Response, what, key string) (*exchange, bool) {
			ex := l.do(k, rq, rs, nil)
			return ex, l.checkSoap(k, rq, rs, ex, what, key)
		}
	} else {
		l := newE2E(x, "cp1")
		if l == nil {
			return
		}
		do = func(rq messages.Request, rs messages.Response, what, key string) (*exchange, bool) {
			ex := l.do(k, rq, rs, nil)
			return ex, checkExchange(x, k, rq, rs, ex, false, what, key)
		}
	}
	props := "C01,C03,C20"
	if soap {
		props = "C16,C24"
	}
	rq, rs := mkReq().(messages.Request), mkResp().(messages.Response)
	dq, dr := deviations(rq, s, soap, true), deviations(rs, rsS, soap, true)
	rounds := len(dq)
	if len(dr) > rounds {
		rounds = len(dr)
	}
	if rounds > 24 {
		rounds = 24
	}
	type kept struct {
		what      string
		got, want interface{}
	}
	var keep []kept
	wq, wr := []deviation{}, []deviation{}
	for i := -1; i < rounds; i++ {
		if i >= 0 && i < len(dq) && dq[i].apply(rq) {
			wq = append(wq, dq[i])
		}
		if i >= 0 && i < len(dr) && dr[i].apply(rs) {
			wr = append(wr, dr[i])
		}
		what := fmt.Sprintf("%s of the %s, exchange %d of the same objects (request %s, response %s)", k.Action, who(k.FromCP), i+2, lastDev(wq), lastDev(wr))
		key := fmt.Sprintf("same:%s:%d", k.Action, mode)
		wantRq, wantRs := deepCopy(rq), deepCopy(rs)
		ex, ok := do(rq, rs, what, key)
		if !ok {
			x.Fail(props, key, "%s: what arrived differs from what was sent (request %s, response %s)", what, short2(ex.wireReq), short2(ex.wireResp))
			return
		}
		if d := msgDiff(wantRq, rq, false); d != "" {
			x.Fail(props, key, "%s: Send changed the request of the application: %s", what, d)
			return
		}
		if d := msgDiff(wantRs, rs, false); d != "" {
			x.Fail(props, key, "%s: answering changed the response of the application: %s", what, d)
			return
		}
		if ex.gotReq == nil || ex.gotResp == nil {
			continue
		}
		switch mode {
		case 0:
			keep = append(keep, kept{what + ", the request", ex.gotReq, wantRq}, kept{what + ", the response", ex.gotResp, wantRs})
		case 1:
			for _, o := range []interface{}{ex.gotReq, ex.gotResp} {
				reflect.ValueOf(o).Elem().Set(reflect.Zero(reflect.TypeOf(o).Elem()))
			}
		case 2:
			if _, ok := do(ex.gotReq, ex.gotResp, what+", sent on", key); !ok {
				x.Fail(props, key, "%s: the received objects, sent on, arrived differently", what)
				return
			}
		}
	}
	for _, e := range keep {
		if d := msgDiff(e.want, e.got, !soap); d != "" {
			x.Fail(props, "kept:"+k.Action, "%s, was changed by a later exchange: %s", e.what, d)
			return
		}
	}
}

// deepCopy copies a message.
func deepCopy(m interface{}) interface{} {
	var cp func(dst, src reflect.Value)
	cp = func(dst, src reflect.Value) {
		switch {
		case src.Kind() == reflect.Ptr && !src.IsNil():
			dst.Set(reflect.New(src.Type().Elem()))
			cp(dst.Elem(), src.Elem())
		case src.Kind() == reflect.Slice && !src.IsNil():
			dst.Set(reflect.MakeSlice(src.Type(), src.Len(), src.Len()))
			for i := 0; i < src.Len(); i++ {
				cp(dst.Index(i), src.Index(i))
			}
		case src.Kind() == reflect.Struct && src.Type() != timeT:
			for i := 0; i < src.NumField(); i++ {
				if src.Type().Field(i).PkgPath == "" {
					cp(dst.Field(i), src.Field(i))
				}
			}
		default:
			if dst.CanSet() {
				dst.Set(src)
			}
		}
	}
	v := reflect.ValueOf(m)
	n := reflect.New(v.Type()).Elem()
	cp(n, v)
	return n.Interface()
}

func short2(s string) string {
	if len(s) > 150 {
		s = s[:150] + "..."
	}
	return s
}

func lastDev(d []deviation) string {
	if len(d) == 0 {
		return "unchanged"
	}
	return d[len(d)-1].String()
}

func init() {
	reg(&Scenario{ID: "same-objects", Props: []string{"C01", "C03", "C20"}, Hist: true,
		Desc: "every action with the same request and response objects again and again, changed in between; received objects are kept, overwritten or sent on", Run: func(x *X) { sameObjects(x, false) }})
	reg(&Scenario{ID: "same-objects-soap", Props: []string{"C16", "C24", "C25"}, Hist: true,
		Desc: "the same via SOAP", Run: func(x *X) { sameObjects(x, true) }})
}
