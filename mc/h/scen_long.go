//go:build go1.22

package main

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"strconv"
	"strings"
	"time"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
)

// Long lives: thousands of messages over one connection, idle connections,
// slow handlers, thousands of connections.

//go:norace
func (p *wsPeer) forget() {
	for i := 0; i < p.nfr; i++ {
		p.frames[i] = wsFrame{}
	}
	p.nfr = 0
}

//go:norace
func (p *wsPeer) pongs() int {
	n := 0
	for i := 0; i < p.nfr; i++ {
		if p.frames[i].op == 10 {
			n++
		}
	}
	return n
}

//go:norace
func (x *X) forget() { x.nev = 0 }

var longKinds = []string{"answered Sends", "Sends answered by errors", "calls", "refused calls", "Sends and calls in turn", "pings", "malformed frames", "Sends without answers", "replies that nobody waits for", "calls of the other role", "unknown actions", "undecodable replies", "calls of one id", "bursts of Sends and calls"}

func longMsgs(x *X, role string, n, kind int) {
	r := rigOf(x, role)
	if r == nil {
		return
	}
	p := r.peer
	if kind < 0 {
		kind = pick(len(longKinds))
	}
	if w := r.usable(x, "first"); w != "" {
		x.Fail("C01,C03", role+":first", "%s", w)
		return
	}
	ids := map[string]bool{}
	x.Settle()
	g0 := len(leaks())
	fail := func(props, key, f string, a ...interface{}) {
		x.Fail(props, role+":long:"+key, "%s (%s)", fmt.Sprintf(f, a...), longKinds[kind])
	}
	send := func(i int) (*sendOp, omsg, bool) {
		p.forget()
		op := r.send("k" + itoa(i))
		x.Settle()
		c := callsOf(p)
		if len(c) != 1 || r.reqKey(c[0]) != "k"+itoa(i) {
			fail("C01,C02", "calls", "Send %d sent %d calls", i, len(c))
			return op, omsg{}, false
		}
		if ids[c[0].ID] {
			fail("C01", "id", "Send %d reuses the message id %q", i, c[0].ID)
			return op, omsg{}, false
		}
		ids[c[0].ID] = true
		return op, c[0], true
	}
	answered := func(op *sendOp, i int) bool {
		if !op.isDone() || op.err != nil || r.match(op, "k"+itoa(i)) != "" {
			fail("C01,C02", "response", "Send %d: done %v, (%T, %v)", i, op.isDone(), op.resp, short(op.err))
			return false
		}
		return true
	}
	call := func(i int, id string) bool {
		p.forget()
		x.forget()
		p.sendText(r.okCall(id, 20000+i))
		x.Settle()
		m := p.msgs()
		if len(m) != 1 || m[0].Type != 3 || m[0].ID != id || r.okReply(m[0], 20000+i) != "" || x.count("handle", "") != 1 {
			fail("C03", "answer", "call %d was handled %d times and answered by %d messages", i, x.count("handle", ""), len(m))
			return false
		}
		return true
	}
	refused := func(i int, m string, prop string, handled int) bool {
		p.forget()
		x.forget()
		p.sendText(m)
		x.Settle()
		a := p.msgs()
		if len(a) != 1 || a[0].Type != 4 || a[0].ID != "c"+itoa(i) || x.count("handle", "") != handled {
			fail(prop, "refused", "call %d was handled %d times and answered by %d messages", i, x.count("handle", ""), len(a))
			return false
		}
		return true
	}
	for i := 0; i < n; i++ {
		x.cases++
		ok := true
		switch kind {
		case 0, 1, 4, 11:
			op, m, k := send(i)
			if !k {
				return
			}
			switch {
			case kind == 1 && i%2 == 0:
				p.sendText(fmt.Sprintf(`[4,%s,"GenericError","e%d",{}]`, q(m.ID), i))
				x.Settle()
				if !op.isDone() || op.err == nil || !strings.Contains(op.err.Error(), "e"+itoa(i)) {
					fail("C07", "error", "Send %d: done %v, error %v", i, op.isDone(), short(op.err))
					return
				}
			case kind == 11 && i%2 == 0:
				p.sendText(r.badRep(m.ID))
				x.Settle()
				if !op.isDone() || op.err == nil {
					fail("C07", "undecodable", "Send %d: done %v, error %v", i, op.isDone(), short(op.err))
					return
				}
			default:
				p.sendText(r.okRep(m.ID, "k"+itoa(i)))
				x.Settle()
				ok = answered(op, i)
			}
			if kind == 4 {
				ok = ok && call(i, "c"+itoa(i))
			}
		case 2:
			ok = call(i, "c"+itoa(i))
		case 12:
			ok = call(i, "same")
		case 3:
			ok = refused(i, r.erCall("c"+itoa(i), i), "C03,C07", 1)
		case 9:
			ok = refused(i, r.wrong("c"+itoa(i)), "C06", 0)
		case 10:
			ok = refused(i, fmt.Sprintf(`[2,"c%d","Action%d",{}]`, i, i), "C06", 0)
		case 5:
			p.forget()
			p.sendFrame(9, true, []byte(itoa(i)))
			if i%10 == 9 {
				x.Settle()
			}
		case 6:
			p.forget()
			p.sendText(malformed[i%len(malformed)])
			if i%10 == 9 {
				x.Settle()
			}
		case 7:
			if i >= n/10 {
				continue
			}
			op, m, k := send(i)
			if !k {
				return
			}
			x.Advance(61 * time.Second)
			if !op.isDone() || op.err == nil {
				fail("C02", "timeout", "Send %d: done %v, error %v after 61 s without an answer", i, op.isDone(), short(op.err))
				return
			}
			if i%2 == 0 {
				p.sendText(r.okRep(m.ID, "late"))
				x.Settle()
			}
		case 8:
			p.forget()
			p.sendText(r.okRep("nobody"+itoa(i), "x"))
			if i%2 == 0 {
				p.sendText(fmt.Sprintf(`[4,"nobody%d","GenericError","x",{}]`, i))
			}
			if i%10 == 9 {
				x.Settle()
			}
		case 13: // everything at once, again and again
			if i%10 != 0 {
				continue
			}
			p.forget()
			x.forget()
			var ops []*sendOp
			for j := 0; j < 5; j++ {
				ops = append(ops, r.send("k"+itoa(i+j)))
				p.sendText(r.okCall("c"+itoa(i+j), 20000+i+j))
			}
			x.Settle()
			for _, m := range callsOf(p) {
				p.sendText(r.okRep(m.ID, r.reqKey(m)))
			}
			x.Settle()
			for j, op := range ops {
				if !answered(op, i+j) {
					return
				}
			}
			if a := repliesOf(p); len(a) != 5 || x.count("handle", "") != 5 {
				fail("C03", "burst", "5 calls were handled %d times and answered by %d messages", x.count("handle", ""), len(a))
				return
			}
		}
		if !ok {
			return
		}
		if p.closed() {
			fail("C01,C02,C03,C04,C06,C07", "closed", "the connection is closed after %d of them", i+1)
			return
		}
	}
	x.Settle()
	props := []string{"C01", "C07", "C03", "C07", "C01,C03", "C02", "C04", "C02", "C01", "C06", "C06", "C07", "C03", "C03"}[kind]
	p.forget()
	x.forget()
	if w := r.usable(x, "last"); w != "" {
		fail(props, "after", "after %d of them: %s", n, w)
	}
	x.Settle()
	if g := len(leaks()); g > g0+2 {
		fail("C08", "growth", "%d goroutines of the library before, %d after %d of them", g0, g, n)
	}
}

var idleTimes = []time.Duration{30 * time.Second, 59 * time.Second, 61 * time.Second, 125 * time.Second, 5 * time.Minute, 10*time.Minute + time.Second, time.Hour, 25 * time.Hour, 30 * 24 * time.Hour}

// longIdle: nothing happens on a connection for long, but perhaps pings.
func longIdle(x *X, role string) {
	r := rigOf(x, role)
	if r == nil {
		return
	}
	p := r.peer
	d := idleTimes[pick(len(idleTimes))]
	ping := pick(3)
	before := pick(4)
	switch before {
	case 1:
		if w := r.usable(x, "first"); w != "" {
			x.Fail("C01,C03", role+":first", "%s", w)
			return
		}
	case 2: // a Send that is not answered
		r.send("lost")
		x.Settle()
	case 3:
		p.sendText(r.erCall("e", 1))
		x.Settle()
	}
	dials := len(sn.dials)
	step := d
	if ping > 0 {
		step = 20 * time.Second
		if d/step > 200 {
			step = d / 200
		}
	}
	for t := time.Duration(0); t < d; t += step {
		x.Advance(step)
		switch ping {
		case 1:
			p.forget()
			p.sendFrame(9, true, []byte("ping"))
			x.Settle()
			if p.pongs() != 1 {
				x.Fail("C02,C03", role+":pong", "a ping was answered by %d pongs after %v", p.pongs(), t+step)
				return
			}
		case 2:
			p.sendFrame(10, true, []byte("pong"))
		}
	}
	x.cases++
	all := "C02,C03"
	if role == "cp" {
		all += ",C13"
		if n := len(sn.dials); n != dials {
			x.Fail("C13", "idle-dials", "%d dials during %v without a message", n-dials, d)
		}
	}
	if before == 1 {
		p.forget()
	}
	if w := r.usable(x, "last"); w != "" {
		x.Fail(all, role+":idle", "a connection that was idle for %v (pings %d, before %d): %s", d, ping, before, w)
	}
}

// longHandler: a handler takes long.
func longHandler(x *X, role string) {
	r := rigOf(x, role)
	if r == nil {
		return
	}
	p := r.peer
	d := append([]time.Duration{time.Second, 20 * time.Second}, idleTimes...)[pick(2+len(idleTimes))]
	x.onHandle = func(n int) {
		if n == 1 {
			time.Sleep(d)
		}
	}
	ping := pick(2) == 1
	p.sendText(r.okCall("slow", 1))
	x.Settle()
	for i := 2; i < 6; i++ {
		p.sendText(r.okCall("q"+itoa(i), i))
	}
	p.sendText(r.erCall("q6", 6))
	if ping {
		p.sendFrame(9, true, []byte("ping"))
	}
	x.Advance(d - 2*time.Millisecond)
	if m := p.msgs(); len(m) != 0 || p.closed() {
		x.Fail("C03", role+":slow-early", "%d answers while the first call is handled, closed %v", len(m), p.closed())
		return
	}
	x.Advance(time.Second)
	x.cases++
	m := p.msgs()
	if len(m) != 6 {
		x.Fail("C03", role+":slow-answers", "6 calls, the first handled for %v, were answered by %d messages, closed %v", d, len(m), p.closed())
		return
	}
	for i, a := range m {
		id := "slow"
		if i > 0 {
			id = "q" + itoa(i+1)
		}
		if a.ID != id || (a.Type == 3) != (i < 5) || (i < 5 && r.okReply(a, i+1) != "") {
			x.Fail("C03", role+":slow-answer", "answer %d after a call that was handled for %v: %s", i, d, a.Raw)
		}
	}
	if n := x.count("handle", ""); n != 6 {
		x.Fail("C03", role+":slow-handled", "6 calls were handled %d times", n)
	}
	x.onHandle = nil
	if w := r.usable(x, "last"); w != "" {
		x.Fail("C03", role+":slow-after", "after a handler that took %v: %s", d, w)
	}
}

// connIdle: connections and wait channels that last long.
func connIdle(x *X) {
	h := newConnHist(x, "cpA", "cpB")
	d := idleTimes[pick(len(idleTimes))]
	early := h.csys.WaitConnect("cpA")
	h.quiet()
	if pick(2) == 1 {
		x.Advance(d)
	}
	h.connect("cpA")
	h.connect("cpB")
	h.connect("cpA")
	x.Settle()
	if !closedNow(early) {
		h.fail("C11", "idle-early", "a WaitConnect obtained %v before the connection is not done", d)
	}
	h.trace = append(h.trace, "connections of cpA, cpB and cpA", "idle for "+d.String())
	h.quiet()
	h.note()
	x.Advance(d)
	h.quiet()
	x.cases++
	h.end(h.conns[pick(3)], pick(3))
	x.Advance(10 * time.Millisecond)
	h.quiet()
	x.Advance(d)
	h.quiet()
	h.connect("cpB")
	x.Settle()
	h.quiet()
	h.finish()
}

// longConns: a thousand connections one after the other.
func longConns(x *X, n int) {
	nid := []int{1, 7, n}[pick(3)]
	kind := pick(5)
	names := []string{"websocket close", "TCP close", "reset", "each of the three in turn", "refused or broken upgrades in between"}
	h := newConnHist(x)
	fail := func(prop, key, f string, a ...interface{}) {
		h.fail(prop, key, "%s (%d identities, ended by: %s)", fmt.Sprintf(f, a...), nid, names[kind])
	}
	x.Settle()
	for i := 0; i < n; i++ {
		x.cases++
		id := "cp" + itoa(i%nid)
		wc := h.csys.WaitConnect(id)
		if closedNow(wc) || !closedNow(h.csys.WaitDisconnect(id)) {
			fail("C11", "long-wait", "connection %d: WaitConnect is done or WaitDisconnect is not, without a connection", i)
		}
		if kind == 4 {
			switch i % 4 {
			case 0:
				rawUpgrade(x, "9000", "GET /"+id+" HTTP/1.1\r\nHost: cs\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 12\r\n\r\n").c.Close()
			case 1:
				nc, _ := simDial(nil, "tcp", "sim:9000")
				nc.Write([]byte("GET /" + id + " HTTP/1.1\r\nHost: cs\r\nUpgra"))
				nc.(*simConn).cut()
			case 2:
				httpGet(x, "9000", "/"+id)
			case 3:
				httpRaw(x, "9000", "POST /"+id+" HTTP/1.1\r\nHost: cs\r\nContent-Length: 1\r\nConnection: close\r\n\r\nx")
			}
		}
		x.forget()
		c := h.connect(id)
		if c == nil {
			return
		}
		x.Settle()
		if k := x.count("connect", id); k != 1 {
			fail("C10", "long-connect", "connection %d was notified %d times", i, k)
			return
		}
		wd := h.csys.WaitDisconnect(id)
		if !closedNow(wc) || closedNow(wd) {
			fail("C11", "long-wait", "connection %d: WaitConnect is not done or WaitDisconnect is", i)
			return
		}
		svc, err := h.csys.GetServiceOf(id, ocpp.V16, "")
		if err != nil {
			fail("C09", "long-unroutable", "connection %d: GetServiceOf: %v", i, err)
			return
		}
		op := goSendCP(svc, &csreq.GetConfiguration{Key: []string{"k"}})
		x.Settle()
		if rs, ok := op.resp.(*csresp.GetConfiguration); !op.isDone() || op.err != nil || !ok || strings.Join(rs.UnknownKey, "/") != id+"/"+itoa(i) {
			fail("C09", "long-misrouted", "connection %d: a Send: done %v, (%v, %v)", i, op.isDone(), op.resp, short(op.err))
			return
		}
		c.p.sendText(startTx("m", i))
		x.Settle()
		e := x.find("handle", "")
		if m := c.p.msgs(); e == nil || e.a != id || e.n != int64(i) || e.b != h.metaOf(c) || len(m) != 2 || m[1].ID != "m" {
			fail("C12", "long-metadata", "connection %d of %s: its request was handled as %+v", i, id, e)
			return
		}
		if i%100 == 50 {
			if k := statusCount(x); k != 1 {
				fail("C27", "long-page", "the page counts %d identities with one connection", k)
			}
		}
		how := kind
		if kind >= 3 {
			how = i % 3
		}
		h.end(c, how)
		x.Settle()
		if k := x.count("disconnect", id); k != 1 {
			fail("C10", "long-disconnect", "the end of connection %d was notified %d times", i, k)
			return
		}
		if !closedNow(wd) {
			fail("C11", "long-wait", "connection %d ended, WaitDisconnect is not done", i)
			return
		}
		if _, err := h.csys.GetServiceOf(id, ocpp.V16, ""); err == nil {
			fail("C09", "long-ghost", "connection %d ended, but the charge point is reachable", i)
			return
		}
		c.p.c.Close()
		c.p.forget()
		if i%100 == 99 {
			if l := leaks(); len(l) > 1 {
				fail("C08", "long-leak", "%d goroutines of the library left after %d connections: %v", len(l), i+1, l[:2])
				return
			}
			if k := statusCount(x); k != 0 {
				fail("C27", "long-page", "the page counts %d identities without a connection", k)
				return
			}
		}
	}
}

// longSoap: SOAP handlers that take long on either side, and idle charge points.
func longSoap(x *X) {
	d := []time.Duration{time.Second, 29 * time.Second, 31 * time.Second, 55 * time.Second, 90 * time.Second, time.Hour}[pick(6)]
	fromCP := pick(2) == 0
	idle := append([]time.Duration{0}, idleTimes...)[pick(1+len(idleTimes))]
	slow := time.Duration(0)
	csys := startCS(x, func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		st, ok := r.(*cpreq.StartTransaction)
		if !ok {
			return nil, errors.New("unexpected")
		}
		x.Log("handle", md.ChargePointID, "", int64(st.MeterStart))
		time.Sleep(slow)
		return &cpresp.StartTransaction{TransactionId: int32(st.MeterStart) + 1000, IdTagInfo: &cpresp.IdTagInfo{Status: "Accepted"}}, nil
	})
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	c, err := newSoapCP(ctx, "cp1", ":9100", func(rq csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		rs, ok := rq.(*csreq.RemoteStopTransaction)
		if !ok {
			return nil, errors.New("unexpected")
		}
		x.Log("handle", "cp1", "", int64(rs.TransactionId))
		time.Sleep(slow)
		return &csresp.RemoteStopTransaction{Status: "Accepted"}, nil
	})
	if err != nil {
		x.Setup("cp.New: %v", err)
		return
	}
	x.Settle()
	svc, err := csys.GetServiceOf("cp1", ocpp.V15, "http://sim:9100")
	if err != nil {
		x.Setup("GetServiceOf: %v", err)
		return
	}
	send := func(n int) *sendOp {
		if fromCP {
			return goSendCS(c, &cpreq.StartTransaction{ConnectorId: 1, IdTag: "T", MeterStart: n, Timestamp: time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)})
		}
		return goSendCP(svc, &csreq.RemoteStopTransaction{TransactionId: int32(n)})
	}
	good := func(op *sendOp, n int) bool {
		if !op.isDone() || op.err != nil {
			return false
		}
		if r, ok := op.resp.(*cpresp.StartTransaction); ok && fromCP {
			return r.TransactionId == int32(n+1000)
		}
		r, ok := op.resp.(*csresp.RemoteStopTransaction)
		return ok && !fromCP && r.Status == "Accepted"
	}
	check := func(n int, when string) bool {
		op := send(n)
		x.Settle()
		if !good(op, n) {
			x.Fail("C16", "long-soap", "a Send %s: done %v, (%T, %v)", when, op.isDone(), op.resp, short(op.err))
			return false
		}
		return true
	}
	x.cases++
	if !check(1, "at first") {
		return
	}
	x.Advance(idle)
	if !check(2, "after "+idle.String()+" without one") {
		return
	}
	slow = d
	op := send(3)
	x.Advance(time.Second / 2)
	slow = 0
	if !check(4, "while another one is handled") {
		return
	}
	x.Advance(d)
	if d < 60*time.Second {
		if !good(op, 3) {
			x.Fail("C16", "long-handler", "a Send whose handler took %v: done %v, (%T, %v)", d, op.isDone(), op.resp, short(op.err))
		}
	} else if !op.isDone() || op.err == nil || op.took() > 61 {
		x.Fail("C18", "long-handler", "a Send whose handler took %v: done %v, error %v after %.0f s", d, op.isDone(), short(op.err), op.took())
	}
	check(5, "after a handler that took "+d.String())
	if n := x.count("handle", ""); n != 5 {
		x.Fail("C16", "long-handled", "5 requests were handled %d times", n)
	}
}

func init() {
	for _, role := range []string{"cs", "cp"} {
		role := role
		props := []string{"C01", "C02", "C03", "C04", "C06", "C07", "C08"}
		reg(&Scenario{ID: "long-msgs-" + role, Props: props, Hist: true, Quick: 0, Thorough: -1,
			Desc: "5000 messages of one of 14 kinds over one connection, each verified, " + role + " side",
			Run:  func(x *X) { longMsgs(x, role, 5000, -1) }})
		reg(&Scenario{ID: "long-msgs-more-" + role, Props: props, Hist: true, Quick: -1, Thorough: 0,
			Desc: "70000 messages of one of 14 kinds over one connection, each verified, " + role + " side",
			Run:  func(x *X) { longMsgs(x, role, 70000, -1) }})
		reg(&Scenario{ID: "long-sends-" + role, Props: []string{"C01"}, Hist: true, Quick: 0, Thorough: 0,
			Desc: "70000 Sends over one connection: every id is new, " + role + " side",
			Run:  func(x *X) { longMsgs(x, role, 70000, 0) }})
		ip := []string{"C02", "C03"}
		if role == "cp" {
			ip = append(ip, "C13")
		}
		reg(&Scenario{ID: "long-idle-" + role, Props: ip, Hist: true, Quick: 0, Thorough: 0,
			Desc: "a connection that is idle between 30 s and 30 days, with or without pings or pongs of the peer, works afterwards, " + role + " side",
			Run:  func(x *X) { longIdle(x, role) }})
		reg(&Scenario{ID: "long-handler-" + role, Props: []string{"C03"}, Hist: true, Quick: 0, Thorough: 0,
			Desc: "a handler that takes between 1 s and 30 days with more calls behind it, " + role + " side",
			Run:  func(x *X) { longHandler(x, role) }})
	}
	cprops := []string{"C08", "C09", "C10", "C11", "C12", "C27"}
	reg(&Scenario{ID: "conn-idle", Props: cprops, Hist: true, Quick: 0, Thorough: 0,
		Desc: "connections and wait channels that last between 30 s and 30 days", Run: connIdle})
	reg(&Scenario{ID: "conn-long", Props: cprops, Hist: true, Quick: 0, Thorough: -1,
		Desc: "1100 connections one after the other, of 1, 7 or 1100 identities, ended in every way", Run: func(x *X) { longConns(x, 1100) }})
	reg(&Scenario{ID: "conn-long-more", Props: cprops, Hist: true, Quick: -1, Thorough: 0,
		Desc: "3000 connections one after the other, of 1, 7 or 3000 identities, ended in every way", Run: func(x *X) { longConns(x, 3000) }})
	reg(&Scenario{ID: "soap-broken", Props: []string{"C16", "C18", "C08"}, Hist: true, Quick: 0, Thorough: 0,
		Desc: "the connection of a SOAP exchange breaks after every number of bytes of the request and of the response: the request is never handled twice, Send returns an error unless the response was complete, nothing is left behind", Run: soapBroken})
	reg(&Scenario{ID: "soap-identities", Props: []string{"C16"}, Hist: true, Quick: 0, Thorough: 0,
		Desc: "requests of SOAP charge points of 40 identities, in every XML style of a foreign one and from the library's own", Run: soapIdentities})
	reg(&Scenario{ID: "soap-long", Props: []string{"C16", "C18"}, Hist: true, Quick: 0, Thorough: 0,
		Desc: "SOAP handlers that take between 1 s and 1 h and charge points that are idle up to 30 days, both directions", Run: longSoap})
}

// allGoroutines counts the goroutines of this execution.
func allGoroutines() int {
	buf := make([]byte, 4<<20)
	n := runtime.Stack(buf, true)
	id := "synctest bubble " + strconv.FormatUint(runtime.McBubbleID(), 10) + "]"
	k := 0
	for _, g := range strings.Split(string(buf[:n]), "\n\n") {
		if nl := strings.IndexByte(g, '\n'); nl >= 0 && strings.Contains(g[:nl], id) {
			k++
		}
	}
	return k
}

func soapBroken(x *X) {
	k := soapKindOf([]string{"StartTransaction", "Heartbeat", "RemoteStopTransaction", "ClearCache", "MeterValues", "GetConfiguration"}[pick(6)])
	resp := pick(2) == 1
	part := pick(8)
	l := newSoapLink(x, "cp1")
	if l == nil {
		return
	}
	rq := newBase(func() interface{} { return k.Req() }, k.XReq, true).(messages.Request)
	rs := newBase(func() interface{} { return k.Resp() }, k.XResp, true).(messages.Response)
	whole := func(when string) (int, int) {
		ex := l.do(k, rq, rs, nil)
		if ex.handled != 1 || ex.err != nil || ex.gotResp == nil || msgDiff(rs, ex.gotResp, false) != "" {
			x.Fail("C16", "broken-soap-"+when, "%s %s broken exchanges: handled %d times, Send returned (%v, %v)", k.Action, when, ex.handled, ex.gotResp, short(ex.err))
			return 0, 0
		}
		n := len(sn.conns)
		return len(sn.conns[n-2].tap.buf), len(sn.conns[n-1].tap.buf)
	}
	nq, nr := whole("before")
	if nq == 0 {
		return
	}
	n := nq
	if resp {
		n = nr
	}
	x.Advance(10 * time.Minute)
	gor := allGoroutines()
	calls := 0
	for i := 1 + part; i <= n; i += 8 {
		x.cases++
		calls++
		at := i
		first := true
		sn.onPair = func(c, s *simConn) {
			if !first {
				return // a second attempt is not disturbed
			}
			first = false
			if resp {
				s.tx.limit = at
			} else {
				c.tx.limit = at
			}
		}
		t := runtime.McNow()
		ex := l.do(k, rq, rs, nil)
		d := float64(runtime.McNow()-t) / 1e9
		sn.onPair = nil
		x.Settle()
		what := fmt.Sprintf("%s, connection broken after %d of %d bytes of the %s", k.Action, i, n, map[bool]string{true: "response", false: "request"}[resp])
		if ex.handled > 1 {
			x.Fail("C16", "twice:"+what, "%s: handled %d times", what, ex.handled)
		}
		switch {
		case !resp && i < n && ex.handled != 0:
			x.Fail("C18", "incomplete:"+what, "%s: the incomplete request was handled", what)
		case resp && ex.handled != 1:
			x.Fail("C16", "lost:"+what, "%s: the request was handled %d times", what, ex.handled)
		}
		if resp && i == n {
			// complete
			if ex.err == nil && msgDiff(rs, ex.gotResp, false) != "" {
				x.Fail("C16", "content:"+what, "%s: Send returned %v", what, ex.gotResp)
			}
		} else if ex.err == nil || ex.gotResp != nil && !isNil(ex.gotResp) {
			x.Fail("C18", "no-error:"+what, "%s: Send returned (%v, %v)", what, ex.gotResp, short(ex.err))
		}
		if d > 60.5 {
			x.Fail("C18", "time:"+what, "%s: Send took %.1f s", what, d)
		}
		if len(x.viols) > 3 {
			return
		}
	}
	if nq, _ := whole("after"); nq == 0 {
		return
	}
	x.Advance(10 * time.Minute)
	if g := allGoroutines() - gor; g > 4 && g > calls/4 {
		x.Fail("C08", "soap-leak", "%d goroutines were left by %d SOAP exchanges of which the connection broke", g, calls)
	}
}

func soapIdentities(x *X) {
	ids := []string{"cp1", "CP 1", " cp1", "cp1 ", "  two  spaces  ", "\tcp", "cp\t1", "cp\n1", "cp\n", "", "a/b", "/a", "a/", "%41", "%", "+", "a+b", "é", "日本", "😀", "<cp>", "&amp;", "&", "]]>", "'", "\"", "urn://x", "cp1?x=1", "cp1#x",
		strings.Repeat("x", 255), strings.Repeat("long ", 1000), "CP1", "Cp1", "0", "null", "-", "_", ".", "..", "http://h/", "cp1,cp2"}
	id := ids[pick(len(ids))]
	k := soapKindOf([]string{"Heartbeat", "StartTransaction"}[pick(2)])
	l := newSoapLink(x, id)
	if l == nil {
		return
	}
	rq := newBase(func() interface{} { return k.Req() }, k.XReq, true).(messages.Request)
	rs := newBase(func() interface{} { return k.Resp() }, k.XResp, true).(messages.Response)
	ex := l.do(k, rq, rs, nil)
	if ex.handled != 1 || ex.err != nil {
		x.Fail("C16", "identity-send", "a %s of the SOAP charge point %s: handled %d times, error %v", k.Action, q(id), ex.handled, short(ex.err))
		return
	}
	if l.gotID != id {
		x.Fail("C16", "identity", "a %s of the SOAP charge point %s was received as one of %s", k.Action, q(id), q(l.gotID))
	}
	for style := 0; style < nStyles; style++ {
		x.cases++
		body := soapEnvelope(soapElem(k, rq, false, style), soapHeader(k, id, "http://h/"), style)
		l.gotID = "(none)"
		ex, r := l.post(k, body, rs, nil)
		if ex.handled != 1 {
			x.Fail("C16", "identity-post", "a %s of the SOAP charge point %s: handled %d times, answered %d %s", k.Action, q(id), ex.handled, r.status, r.body)
		} else if l.gotID != id {
			x.Fail("C16", "identity-peer", "a %s of the SOAP charge point %s was received as one of %s: %s", k.Action, q(id), q(l.gotID), body)
		}
		if len(x.viols) > 3 {
			return
		}
	}
}
