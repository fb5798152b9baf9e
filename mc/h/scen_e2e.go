//go:build go1.22

package main

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
)

// The library on both ends: real charge points and a real central system.

// newBaseN is newBase with other values.
func newBaseN(mk func() interface{}, s *spec, all bool, n int) interface{} {
	m := mk()
	b := &builder{n: n}
	b.fill(reflect.ValueOf(m).Elem(), s, all)
	return m
}

type allOp struct {
	k      *msgKind
	cp     string
	round  int
	rq, rs interface{}
	err    error // the handler's
	op     *sendOp
	got    []interface{}
}

type allRun struct{ ops []*allOp }

// handle is called by the handlers: it records the request and finds the
// response to it.
//
//go:norace
func (a *allRun) handle(x *X, r interface{}, id string, fromCP, soap bool) (interface{}, error) {
	var found *allOp
	for _, o := range a.ops {
		if o.cp != id || o.k.FromCP != fromCP || len(o.got) > 0 || reflect.TypeOf(o.rq) != reflect.TypeOf(r) {
			continue
		}
		if msgDiff(o.rq, r, !soap) == "" {
			found = o
			break
		}
	}
	if found == nil {
		x.Log("unknown", id, fmt.Sprintf("%T %+v", r, r), 0)
		return nil, errors.New("not a request that was sent")
	}
	found.got = append(found.got, r)
	if found.err != nil {
		return nil, found.err
	}
	return found.rs, nil
}

// everyAction: all actions of both sides at the same time between two charge
// points and a central system.
func everyAction(x *X, soap bool, ncp, rounds int) {
	a := &allRun{}
	order := pick(3)
	errs := pick(2)
	sn.tapAll = soap
	csys := startCS(x, func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		if order == 2 {
			time.Sleep(time.Millisecond)
		}
		m, err := a.handle(x, r, md.ChargePointID, true, soap)
		rs, _ := m.(cpresp.ChargePointResponse)
		return rs, err
	})
	list := kinds
	prop, props := "C03,C20", "C01,C20"
	if soap {
		list = soapKinds
		prop, props = "C16,C24", "C16,C24"
	}
	var ops []*allOp
	var starters []func()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	for i := 0; i < ncp; i++ {
		id := "cp" + itoa(i)
		h := func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
			if order == 2 {
				time.Sleep(time.Millisecond)
			}
			m, err := a.handle(x, r, id, false, soap)
			rs, _ := m.(csresp.CentralSystemResponse)
			return rs, err
		}
		var c cp.ChargePoint
		var svc cpService
		var err error
		if soap {
			c, err = newSoapCP(ctx, id, ":"+itoa(9100+i), h)
			x.Settle()
			svc, _ = csys.GetServiceOf(id, ocpp.V15, "http://sim:"+itoa(9100+i))
		} else {
			c, err = startCP(x, ctx, id, "9000", h)
			svc, _ = csys.GetServiceOf(id, ocpp.V16, "")
		}
		if err != nil || svc == nil {
			x.Setup("%s is not connected: %v", id, err)
			return
		}
		for round := 0; round < rounds; round++ {
			for n, k := range list {
				k := k
				o := &allOp{k: k, cp: id, round: round}
				s1, s2 := k.JReq, k.JResp
				if soap {
					s1, s2 = k.XReq, k.XResp
				}
				start := 1000*i + 100*round
				o.rq = newBaseN(func() interface{} { return k.Req() }, s1, round%2 == 0, start)
				o.rs = newBaseN(func() interface{} { return k.Resp() }, s2, round%2 == 0, start+50)
				if errs == 1 && (n+round+i)%3 == 0 {
					o.err = fmt.Errorf("error %d of %s", start+n, id)
				}
				for _, e := range ops {
					// equal requests cannot be told apart
					if e.cp == id && e.k == k && msgDiff(e.rq, o.rq, false) == "" {
						o.rs, o.err = e.rs, e.err
					}
				}
				ops = append(ops, o)
			}
		}
		mine := ops[len(ops)-rounds*len(list):]
		for _, o := range mine {
			o := o
			if o.k.FromCP {
				rq, ok := o.rq.(cpreq.ChargePointRequest)
				if !ok {
					x.Fail("C23", "all:"+o.k.Action, "%T is not a request of a charge point", o.rq)
					return
				}
				starters = append(starters, func() { o.op = goSendCS(c, rq) })
			} else {
				rq, ok := o.rq.(csreq.CentralSystemRequest)
				if !ok {
					x.Fail("C23", "all:"+o.k.Action, "%T is not a request of a central system", o.rq)
					return
				}
				starters = append(starters, func() { o.op = goSendCP(svc, rq) })
			}
		}
	}
	a.ops = ops
	for i := range starters {
		f := starters[i]
		if order == 1 {
			f = starters[len(starters)-1-i]
		}
		f()
	}
	x.Advance(2 * time.Second)
	x.Sync()
	for _, o := range ops {
		x.cases++
		what := fmt.Sprintf("%s from the %s with %s, among %d concurrent Sends", o.k.Action, who(o.k.FromCP), o.cp, len(ops))
		key := "all:" + o.k.Action
		switch {
		case !o.op.isDone():
			x.Fail(props, key, "%s did not return", what)
		case len(o.got) != 1:
			x.Fail(prop, key, "%s was handled %d times (other requests: %v)", what, len(o.got), x.find("unknown", ""))
		case o.err != nil:
			if o.op.err == nil || !isNil(o.op.resp) || !strings.Contains(o.op.err.Error(), o.err.Error()) {
				x.Fail(props, key, "%s returned (%T, %v) instead of the error %q", what, o.op.resp, short(o.op.err), o.err)
			}
		case o.op.err != nil:
			x.Fail(props, key, "%s returned the error %s", what, short(o.op.err))
		case reflect.TypeOf(o.op.resp) != reflect.TypeOf(o.rs):
			x.Fail(props, key, "%s returned a %T", what, o.op.resp)
		default:
			if d := msgDiff(o.rs, o.op.resp, !soap); d != "" {
				x.Fail(props, key, "%s returned a response with %s", what, d)
			}
		}
		if len(x.viols) > 5 {
			return
		}
	}
	if soap {
		soapWire(x, func(id string) string { return "http://sim:" + itoa(9100+int(id[2]-'0')) })
	}
}

// soapWire checks all SOAP messages of the execution: each one is that of an
// action in the namespace of its service, and its headers say so.
func soapWire(x *X, cpURL func(id string) string) {
	mids := map[string]bool{}
	for i := 0; i+1 < len(sn.conns); i += 2 {
		rq := parseHTTPRequest(sn.conns[i].tap.buf)
		rs := parseHTTPResponse(sn.conns[i+1].tap.buf)
		if !rq.ok {
			x.Fail("C25", "wire:http", "no proper HTTP request was sent: %s", rq.err)
			return
		}
		root, elem, e := checkEnvelope(rq.body)
		if e != "" {
			x.Fail("C25", "wire:envelope", "request: %s: %s", e, rq.body)
			return
		}
		var k *msgKind
		for _, c := range soapKinds {
			if elem.name == c.XElem+"Request" && elem.space == c.serviceNS() {
				k = c
			}
		}
		if k == nil {
			x.Fail("C25", "wire:element", "the body is %q %s: %s", elem.space, elem.name, rq.body)
			return
		}
		head := map[string]string{}
		for _, h := range root.kids[0].kids {
			head[h.space+h.name] = h.text
		}
		id := head[k.serviceNS()+"chargeBoxIdentity"]
		to := "http://sim:9000"
		if !k.FromCP && len(id) == 3 {
			to = cpURL(id)
		}
		mid := head[nsWSA+"MessageID"]
		switch {
		case len(id) != 3:
			x.Fail("C25,C16", "wire:identity", "%s: no identity in the namespace of the service: %s", k.Action, rq.body)
		case head[nsWSA+"Action"] != "/"+k.Action:
			x.Fail("C25", "wire:action", "%s: the header Action is %q", k.Action, head[nsWSA+"Action"])
		case head[nsWSA+"To"] != to:
			x.Fail("C25", "wire:to", "%s: the header To is %q instead of %q", k.Action, head[nsWSA+"To"], to)
		case len(mid) < 10 || mids[mid]:
			x.Fail("C25", "wire:mid", "%s: the MessageID is %q", k.Action, mid)
		}
		mids[mid] = true
		if !rs.ok {
			x.Fail("C25", "wire:response", "%s: no proper HTTP response: %s", k.Action, rs.err)
			return
		}
		_, elem, e = checkEnvelope(rs.body)
		switch {
		case e != "":
			x.Fail("C25", "wire:envelope", "response: %s: %s", e, rs.body)
		case elem.name == "Fault":
		case elem.name != k.XElem+"Response" || elem.space != k.serviceNS():
			x.Fail("C25", "wire:element", "%s was answered by %q %s: %s", k.Action, elem.space, elem.name, rs.body)
		}
		if len(x.viols) > 0 {
			return
		}
	}
}

// both: Sends from both ends at the same time.
func e2ePar(x *X, ncp, nsend int, fails bool) {
	echo := echoCS(x, nil)
	csys := startCS(x, func(r cpreq.ChargePointRequest, m cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		resp, err := echo(r, m)
		if a, ok := r.(*cpreq.StartTransaction); ok && fails {
			return nil, fmt.Errorf("refused to %s: %d", m.ChargePointID, a.MeterStart)
		}
		return resp, err
	})
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type end struct {
		id  string
		c   cp.ChargePoint
		svc cpService
	}
	var ends []end
	for i := 0; i < ncp; i++ {
		id := "cp" + itoa(i)
		c, err := startCP(x, ctx, id, "9000", func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
			g, ok := r.(*csreq.GetConfiguration)
			if !ok {
				return nil, errors.New("unexpected")
			}
			x.Log("cp-handle", id, strings.Join(g.Key, ","), 0)
			if fails {
				return nil, fmt.Errorf("refused by %s: %s", id, strings.Join(g.Key, ","))
			}
			return &csresp.GetConfiguration{UnknownKey: append([]string{id}, g.Key...)}, nil
		})
		if err != nil {
			x.Setup("cp.New: %v", err)
			return
		}
		svc, err := csys.GetServiceOf(id, ocpp.V16, "")
		if err != nil {
			x.Setup("GetServiceOf: %v", err)
			return
		}
		ends = append(ends, end{id, c, svc})
	}
	var a, b []*sendOp
	x.Explore(true)
	for j := 0; j < nsend; j++ {
		for i, e := range ends {
			a = append(a, goSendCS(e.c, &cpreq.StartTransaction{ConnectorId: 1, IdTag: "T", MeterStart: 100*i + j, Timestamp: t0}))
			b = append(b, goSendCP(e.svc, &csreq.GetConfiguration{Key: []string{itoa(100*i + j)}}))
		}
	}
	x.Settle()
	x.Explore(false)
	x.Sync()
	for k := range a {
		e, n := ends[k%ncp], 100*(k%ncp)+k/ncp
		what := fmt.Sprintf("Send %d of %d concurrent ones of %s", n, 2*ncp*nsend, e.id)
		if op := a[k]; fails {
			if !op.isDone() || op.err == nil || !strings.Contains(op.err.Error(), fmt.Sprintf("refused to %s: %d", e.id, n)) {
				x.Fail("C01,C03,C07", "e2e-cp", "%s: done %v, error %v", what, op.isDone(), short(op.err))
			}
		} else if !op.isDone() || op.err != nil {
			x.Fail("C01,C02,C03", "e2e-cp", "%s: done %v, error %v", what, op.isDone(), short(op.err))
		} else if r, ok := op.resp.(*cpresp.StartTransaction); !ok || int(r.TransactionId) != n+1000 || r.IdTagInfo == nil || r.IdTagInfo.ParentIdTag != e.id {
			x.Fail("C01", "e2e-cp", "%s returned %v", what, op.resp)
		}
		if op := b[k]; fails {
			if !op.isDone() || op.err == nil || !strings.Contains(op.err.Error(), fmt.Sprintf("refused by %s: %d", e.id, n)) {
				x.Fail("C01,C03,C07", "e2e-cs", "%s to it: done %v, error %v", what, op.isDone(), short(op.err))
			}
		} else if !op.isDone() || op.err != nil {
			x.Fail("C01,C02,C03", "e2e-cs", "%s to it: done %v, error %v", what, op.isDone(), short(op.err))
		} else if r, ok := op.resp.(*csresp.GetConfiguration); !ok || strings.Join(r.UnknownKey, "/") != e.id+"/"+itoa(n) {
			x.Fail("C01", "e2e-cs", "%s to it returned %v", what, op.resp)
		}
		if c := x.count("handle", e.id); c != nsend {
			x.Fail("C03", "e2e-handled", "%d requests of %s were handled %d times", nsend, e.id, c)
		}
		if c := x.count("cp-handle", e.id); c != nsend {
			x.Fail("C03", "e2e-handled", "%d requests to %s were handled %d times", nsend, e.id, c)
		}
	}
}

// e2eHist: histories of charge points that lose their connections to a
// central system, which may be out of reach, stop and start.
type e2eCP struct {
	id     string
	c      cp.ChargePoint
	cancel context.CancelFunc
	up     bool // connected
	gone   bool
	conn   int // index of its connection in sn.conns
}

type e2eH struct {
	x              *X
	csys           cs.CentralSystem
	cps            []*e2eCP
	refuse         bool
	made, ended    map[string]int
	trace          []string
	n              int
	dials          int
	wc, wd         []<-chan struct{} // of cpA, with the state then
	wcMade, wdLast []int
}

func (h *e2eH) fail(props, key, f string, a ...interface{}) {
	h.x.Fail(props, "e2e:"+key, "%s\nhistory: %s", fmt.Sprintf(f, a...), strings.Join(h.trace, "; "))
}

func (h *e2eH) start(id string) {
	ctx, cancel := context.WithCancel(context.Background())
	n := len(h.cps)
	c, err := cp.New(ctx, id, "ws://sim:9000", ocpp.V16, ocpp.JSON, nil, func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		g, ok := r.(*csreq.GetConfiguration)
		if !ok {
			return nil, errors.New("unexpected")
		}
		h.x.Log("cp-handle", id, strings.Join(g.Key, ","), int64(n))
		return &csresp.GetConfiguration{UnknownKey: append([]string{id}, g.Key...)}, nil
	})
	if h.refuse {
		if err == nil {
			h.fail("C13", "new", "New succeeded although the central system is out of reach")
		}
		cancel()
		return
	}
	if err != nil {
		h.fail("C09,C13", "new", "New of %s: %v", id, err)
		cancel()
		return
	}
	h.cps = append(h.cps, &e2eCP{id: id, c: c, cancel: cancel, up: true, conn: len(sn.conns) - 1})
	h.made[id]++
}

func (h *e2eH) ups(id string) int {
	n := 0
	for _, c := range h.cps {
		if c.up && c.id == id {
			n++
		}
	}
	return n
}

func (h *e2eH) check() {
	x := h.x
	x.Settle()
	x.Sync()
	page := 0
	for _, id := range []string{"cpA", "cpB"} {
		up := h.ups(id)
		if up > 0 {
			page++
		}
		if a, b := x.count("connect", id), x.count("disconnect", id); a != h.made[id] || b != h.ended[id] {
			h.fail("C10", "notified", "%s connected %d times and disconnected %d times, notified %d and %d times", id, h.made[id], h.ended[id], a, b)
		}
		svc, err := h.csys.GetServiceOf(id, ocpp.V16, "")
		if (err == nil) != (up > 0) {
			h.fail("C09", "reachable", "%s has %d connections, GetServiceOf: %v", id, up, err)
		} else if err == nil {
			h.n++
			k := itoa(h.n)
			op := goSendCP(svc, &csreq.GetConfiguration{Key: []string{k}})
			x.Settle()
			if r, ok := op.resp.(*csresp.GetConfiguration); !op.isDone() || op.err != nil || !ok || strings.Join(r.UnknownKey, "/") != id+"/"+k {
				h.fail("C09,C13", "send-cs", "a Send to %s: done %v, (%v, %v)", id, op.isDone(), op.resp, short(op.err))
			}
		}
		if a, b := closedNow(h.csys.WaitConnect(id)), closedNow(h.csys.WaitDisconnect(id)); a != (up > 0) || b != (up == 0) {
			h.fail("C11", "wait", "%s has %d connections: WaitConnect %v, WaitDisconnect %v", id, up, a, b)
		}
	}
	if k := statusCount(x); k != page && !h.refuse {
		h.fail("C27", "page", "the page counts %d identities instead of %d", k, page)
	}
	for i, c := range h.cps {
		if a, b := closedNow(c.c.WaitConnect()), closedNow(c.c.WaitDisconnect()); !c.gone && (a != c.up || b == c.up) {
			h.fail("C13", "wait-cp", "charge point %d (%s) connected %v: WaitConnect %v, WaitDisconnect %v", i, c.id, c.up, a, b)
		}
		h.n++
		op := goSendCS(c.c, &cpreq.StartTransaction{ConnectorId: 1, IdTag: "T", MeterStart: h.n, Timestamp: t0})
		x.Settle()
		if !op.isDone() {
			h.fail("C13,C02", "send-cp", "a Send of charge point %d (%s), connected %v, did not return", i, c.id, c.up)
		} else if c.up {
			r, ok := op.resp.(*cpresp.StartTransaction)
			if op.err != nil || !ok || int(r.TransactionId) != h.n+1000 {
				h.fail("C13,C09", "send-cp", "a Send of charge point %d (%s): (%v, %v)", i, c.id, op.resp, short(op.err))
			} else if r.IdTagInfo == nil || r.IdTagInfo.ParentIdTag != c.id {
				h.fail("C12", "identity", "a Send of charge point %d (%s) was handled as one of %q", i, c.id, r.IdTagInfo)
			}
		} else if op.err == nil {
			p := "C13"
			if c.gone {
				p = "C14"
			}
			h.fail(p, "send-down", "a Send of charge point %d (%s), which is not connected, returned %v", i, c.id, op.resp)
		}
	}
	if h.refuse {
		return
	}
	// nothing else dials than what the model knows and the status page
	d := len(sn.dials) - h.dials
	h.dials = len(sn.dials)
	if d > 1 {
		h.fail("C13,C14", "dials", "%d dials while every charge point is connected or stopped", d-1)
	}
}

func (h *e2eH) step() bool {
	x := h.x
	type op struct {
		name string
		do   func()
	}
	menu := []op{{"stop", nil}}
	na, nb := 0, 0
	for i, c := range h.cps {
		c := c
		if c.gone {
			continue
		}
		if c.id == "cpA" {
			na++
		} else {
			nb++
		}
		if c.up {
			menu = append(menu, op{fmt.Sprintf("charge point %d (%s) loses its connection", i, c.id), func() {
				sn.conns[c.conn].cut()
				c.up = false
				h.ended[c.id]++
			}})
			menu = append(menu, op{fmt.Sprintf("the connection of charge point %d (%s) is closed by the application", i, c.id), func() {
				c.c.Connection().Close()
				c.up = false
				h.ended[c.id]++
			}})
		}
		menu = append(menu, op{fmt.Sprintf("charge point %d (%s) is stopped", i, c.id), func() {
			c.cancel()
			c.gone = true
			if c.up {
				c.up = false
				h.ended[c.id]++
			}
		}})
	}
	if na < 2 {
		menu = append(menu, op{"start of cpA", func() { h.start("cpA") }})
	}
	if nb < 1 {
		menu = append(menu, op{"start of cpB", func() { h.start("cpB") }})
	}
	name := "the central system is out of reach"
	if h.refuse {
		name = "the central system is within reach"
	}
	menu = append(menu, op{name, func() {
		h.refuse = !h.refuse
		sn.refuse = ""
		if h.refuse {
			sn.refuse = "9000"
		}
	}})
	o := menu[pick(len(menu))]
	if o.do == nil {
		return false
	}
	h.trace = append(h.trace, o.name)
	o.do()
	x.Settle()
	if !h.refuse {
		// everybody is back after the next retry
		x.Advance(5*time.Second + 100*time.Millisecond)
		for _, c := range h.cps {
			if !c.gone && !c.up {
				c.up = true
				h.made[c.id]++
				c.conn = -1
				for i := len(sn.conns) - 1; i >= 0 && c.conn < 0; i-- {
					if s := sn.conns[i]; string(s.raddr) == connAddr(c.c) {
						c.conn = i
					}
				}
				if c.conn < 0 {
					h.fail("C13", "not-back", "a charge point (%s) is not connected again", c.id)
					return false
				}
			}
		}
		h.dials = len(sn.dials)
	}
	h.check()
	return len(x.viols) == 0
}

func connAddr(c cp.ChargePoint) string {
	if k := c.Connection(); k != nil {
		return k.LocalAddr().String()
	}
	return ""
}

func e2eHist(x *X, depth int) {
	h := &e2eH{x: x, made: map[string]int{}, ended: map[string]int{}}
	h.csys = startCSOn(x, "9000", echoCS(x, nil), func(c cs.CentralSystem) {
		c.SetChargePointConnectionListener(func(id string) { x.Log("connect", id, "", 0) })
		c.SetChargePointDisconnectionListener(func(id string) { x.Log("disconnect", id, "", 0) })
	})
	h.start("cpA")
	h.dials = len(sn.dials)
	h.check()
	for i := 0; i < depth; i++ {
		if !h.step() {
			break
		}
	}
	x.Outcome("%s", strings.Join(h.trace, ";"))
	if len(x.viols) > 0 {
		return
	}
	for _, c := range h.cps {
		c.cancel()
	}
	x.Advance(200 * time.Second)
	if l := leaks(); len(l) > 1 {
		h.fail("C08,C14", "leak", "%d goroutines of the library left: %v", len(l), l)
	}
}

func init() {
	reg(&Scenario{ID: "e2e-all", Props: []string{"C01", "C20", "C23", "C05", "C03"}, Hist: true, Quick: 0, Thorough: 0,
		Desc: "every action of both sides four times at the same time between two charge points and a central system of the library, three orders, with and without errors of the handlers",
		Run:  func(x *X) { n := pick(2); everyAction(x, false, 2+4*n, 4-3*n) }})
	reg(&Scenario{ID: "soap-all", Props: []string{"C16", "C24", "C25", "C05"}, Hist: true, Quick: 0, Thorough: 0,
		Desc: "every action of OCPP 1.5 of both sides four times at the same time between two SOAP charge points and a central system, three orders, with and without errors of the handlers",
		Run:  func(x *X) { n := pick(2); everyAction(x, true, 2+4*n, 4-3*n) }})
	reg(&Scenario{ID: "e2e-par-1", Props: []string{"C01", "C02", "C03", "C05"}, Quick: 2, Thorough: 3,
		Desc: "a charge point and the central system send to each other at the same time, under every schedule within the bound", Run: func(x *X) { e2ePar(x, 1, 1, false) }})
	reg(&Scenario{ID: "e2e-par-2", Props: []string{"C01", "C02", "C03", "C05"}, Quick: 1, Thorough: 2,
		Desc: "a charge point and the central system send two requests each to each other at the same time, under every schedule within the bound", Run: func(x *X) { e2ePar(x, 1, 2, false) }})
	reg(&Scenario{ID: "e2e-par-fails", Props: []string{"C01", "C03", "C07"}, Quick: 1, Thorough: 2,
		Desc: "two charge points and the central system send to each other concurrently, all handlers fail",
		Run:  func(x *X) { e2ePar(x, 2, 1, true) }})
	reg(&Scenario{ID: "e2e-par-3", Props: []string{"C01", "C02", "C03"}, Quick: -1, Thorough: 2,
		Desc: "two charge points and the central system send to each other at the same time, under every schedule within the bound", Run: func(x *X) { e2ePar(x, 2, 1, false) }})
	eprops := []string{"C02", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C27"}
	reg(&Scenario{ID: "e2e-hist-5", Props: eprops, Hist: true, Quick: 0, Thorough: -1,
		Desc: "every history of 5 losses, closes by the application, stops and starts of up to three charge points and outages of the central system, both ends real; after every step everything observable is compared with the model", Run: func(x *X) { e2eHist(x, 5) }})
	reg(&Scenario{ID: "e2e-hist-7", Props: eprops, Hist: true, Quick: -1, Thorough: 0,
		Desc: "every history of 7 losses, closes, stops, starts and outages, both ends real", Run: func(x *X) { e2eHist(x, 7) }})
}
