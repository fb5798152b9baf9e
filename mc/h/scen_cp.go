//go:build go1.22

package main

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"time"

	"github.com/voltbras/go-ocpp/cp"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
)

// The life cycle of a charge point: how it loses and regains its connection
// (C13) and how it stops (C14).

// srvTime is how long a dial of this kind may take at most (0: over at once).
func srvTime(how int) float64 {
	switch how {
	case srvLost, srvSilent, srvHalf:
		return 60
	}
	return 0
}

// served: the dial yields a connection (that may end at once)
func served(how int) bool { return how == srvOK || how == srvOKClose || how == srvOKCut }

type cpRun struct {
	x      *X
	id     string
	s      *wsServer
	c      cp.ChargePoint
	cancel context.CancelFunc
	n      int
	slow   time.Duration // duration of the next handler call
	trace  []string
	fails  int
	plan   []int
}

func (r *cpRun) fail(prop, key, format string, args ...interface{}) {
	r.fails++
	r.x.Fail(prop, key, "%s\nhistory: %s", fmt.Sprintf(format, args...), strings.Join(r.trace, "; "))
}

func answerCall(p *wsPeer, msg []byte) {
	m := parseMsg(string(msg))
	if m.Type == 2 {
		p.sendText(replyTo(m))
	}
}

func newCPRun(x *X, id string) *cpRun {
	r := &cpRun{x: x, id: id}
	r.s = listenPeer(x, "9001")
	r.s.onText = answerCall
	ctx, cancel := context.WithCancel(context.Background())
	r.cancel = cancel
	c, err := startCP(x, ctx, id, "9001", func(rq csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		rs, ok := rq.(*csreq.RemoteStopTransaction)
		if !ok {
			return nil, errors.New("unexpected")
		}
		x.Log("handle", id, "", int64(rs.TransactionId))
		if d := r.slow; d > 0 {
			r.slow = 0
			time.Sleep(d)
		}
		x.Log("handled", id, "", int64(rs.TransactionId))
		return &csresp.RemoteStopTransaction{Status: "S" + itoa(int(rs.TransactionId))}, nil
	})
	if err != nil {
		x.Setup("cp.New: %v", err)
		return nil
	}
	r.c = c
	return r
}

func isDone(ch <-chan struct{}) bool {
	select {
	case <-ch:
		return true
	default:
		return false
	}
}

// works checks that the charge point is connected and serves both directions.
func (r *cpRun) works(prop string) {
	x := r.x
	p := r.s.last()
	r.n++
	if p == nil || p.closed() || p.status != 101 {
		r.fail(prop, "not-connected", "the charge point is not connected")
		return
	}
	if p.path != "/"+r.id {
		r.fail(prop, "identity", "the charge point %s connected as %q", r.id, p.path)
	}
	if o := headVal(p.hdr, "Sec-WebSocket-Protocol"); o != "ocpp1.6" {
		r.fail(prop, "subprotocol", "the charge point offered %q", o)
	}
	if !isDone(r.c.WaitConnect()) {
		r.fail(prop, "wait-connect", "WaitConnect is not done although the charge point is connected")
	}
	if isDone(r.c.WaitDisconnect()) {
		r.fail(prop, "wait-disconnect", "WaitDisconnect is done although the charge point is connected")
	}
	k := "w" + itoa(r.n)
	op := goSendCS(r.c, &cpreq.Authorize{IdTag: k})
	x.Settle()
	if !op.isDone() {
		r.fail(prop, "send-hangs", "a Send over the connection did not return although it was answered")
	} else if rs, ok := op.resp.(*cpresp.Authorize); op.err != nil || !ok || rs.IdTagInfo.ParentIdTag != k {
		r.fail(prop, "send", "a Send over the connection returned (%T, %v)", op.resp, short(op.err))
	}
	before := len(p.texts())
	nh := x.count("handle", r.id)
	p.sendText(fmt.Sprintf(`[2,"c%d","RemoteStopTransaction",{"transactionId":%d}]`, r.n, r.n))
	x.Settle()
	t := p.msgs()
	if len(t) != before+1 || t[before].Type != 3 || t[before].ID != "c"+itoa(r.n) || field(t[before].Payload, "status") != q("S"+itoa(r.n)) {
		r.fail(prop, "call", "a call over the connection was answered by %d messages", len(t)-before)
	}
	if x.count("handle", r.id) != nh+1 {
		r.fail(prop, "handled", "a call over the connection was handled %d times", x.count("handle", r.id)-nh)
	}
}

var lossNames = []string{"websocket close 1000", "websocket close 1001 and TCP close", "TCP close", "reset", "websocket close, TCP stays open", "protocol error", "TCP close while a request is handled", "reset while a Send is pending"}

// lose ends the connection p; it returns how long the charge point is busy
func (r *cpRun) lose(p *wsPeer, how int) (busy float64, pend *sendOp) {
	switch how {
	case 0:
		p.sendFrame(8, true, []byte{0x03, 0xe8})
		p.c.Close()
	case 1:
		p.sendFrame(8, true, []byte{0x03, 0xe9, 'b', 'y', 'e'})
		p.c.Close()
	case 2:
		p.c.Close()
	case 3:
		p.c.cut()
	case 4:
		p.sendFrame(8, true, []byte{0x03, 0xe8})
	case 5:
		p.sendFrame(3, true, []byte("x"))
	case 6:
		r.slow = 2 * time.Second
		r.n++
		p.sendText(fmt.Sprintf(`[2,"c%d","RemoteStopTransaction",{"transactionId":%d}]`, r.n, r.n))
		r.x.Settle()
		p.c.Close()
		busy = 2
	case 7:
		p.onText = nil
		pend = goSendCS(r.c, &cpreq.Authorize{IdTag: "pending"})
		r.x.Settle()
		p.c.cut()
	}
	return
}

// reconnect loses the connection, lets the central system follow the plan and
// checks the attempts.
func (r *cpRun) reconnect(loss int, plan []int, sendAt float64) {
	x := r.x
	var nm []string
	for _, h := range plan {
		nm = append(nm, srvNames[h])
	}
	r.trace = append(r.trace, "the connection is lost by "+lossNames[loss]+"; then the central system "+strings.Join(nm, ", "))
	r.s.usePlan(func(n int) int {
		if n < len(plan) {
			return plan[n]
		}
		return srvOK
	})
	old := r.s.last()
	wd := r.c.WaitDisconnect()
	t0 := runtime.McNow()
	busy, pend := r.lose(old, loss)
	since := func() float64 { return float64(runtime.McNow()-t0) / 1e9 }
	var sends []*sendOp
	send := func() {
		op := goSendCS(r.c, &cpreq.Authorize{IdTag: "down"})
		sends = append(sends, op)
	}
	sent := sendAt < 0
	limit := 1 + busy
	for _, h := range plan {
		limit += srvTime(h) + 6
	}
	var wc <-chan struct{}
	nServed := 0
	checked := 0
	for since() < limit+1 {
		if !sent && since() >= sendAt {
			sent = true
			send()
		}
		x.Advance(50 * time.Millisecond)
		// the state between the attempts
		if n := r.s.dials; n > checked && n > 0 {
			checked = n
			if served(r.s.how) {
				nServed++
			}
			if r.s.how == srvOK {
				break
			}
			if !served(r.s.how) {
				ch := r.c.WaitConnect()
				if isDone(ch) {
					r.fail("C13", "wait-connect-down", "WaitConnect is done although the charge point is not connected (attempt %d: %s)", n, srvNames[r.s.how])
				}
				if wc == nil {
					wc = ch
				}
			}
		}
	}
	if pend != nil {
		if !pend.isDone() || pend.err == nil {
			r.fail("C13", "pending", "a Send that was pending when the connection was lost: done %v, error %v", pend.isDone(), short(pend.err))
		}
	}
	// attempts
	ok := false
	tm := r.s.times
	for i := range tm {
		var want, lo, hi float64
		if i == 0 {
			want = float64(t0)/1e9 + busy
			lo, hi = -0.01, 0.5
		} else {
			prev := r.s.plan(i - 1)
			want = float64(tm[i-1]) / 1e9
			if served(prev) {
				lo, hi = -0.01, 0.5
			} else {
				lo, hi = 4, 6
				if d := srvTime(prev); d > 0 {
					// given up at the latest after the request timeout
					hi += d + 0.5
				}
			}
		}
		if got := float64(tm[i])/1e9 - want; got < lo || got > hi {
			what := "the loss"
			if i > 0 {
				what = "an attempt at which the central system " + srvNames[r.s.plan(i-1)]
			}
			r.fail("C13", "attempt-time", "attempt %d came %.2f s after %s", i+1, got, what)
			break
		}
		if r.s.plan(i) == srvOK {
			ok = true
			if i != len(tm)-1 {
				r.fail("C13", "extra-attempt", "%d more attempts after the successful one", len(tm)-1-i)
			}
			break
		}
	}
	if !ok && r.fails == 0 {
		r.fail("C13", "gave-up", "no successful attempt within %.0f s, %d attempts", since(), len(tm))
	}
	if r.fails > 0 {
		return
	}
	x.Advance(20 * time.Millisecond)
	if !isDone(wd) {
		r.fail("C13", "old-wait-disconnect", "the WaitDisconnect of the lost connection is not done")
	}
	if wc != nil && !isDone(wc) {
		r.fail("C13", "old-wait-connect", "a WaitConnect obtained while disconnected is not done after the reconnection")
	}
	x.Settle()
	r.works("C13")
	if len(sends) > 0 {
		for i := 0; i < 62 && !sends[0].isDone(); i++ {
			x.Advance(time.Second)
		}
		if !sends[0].isDone() || sends[0].took() > 61 {
			r.fail("C13", "send-while-down", "a Send made %.0f s after the loss did not end within the request timeout", sendAt)
		}
	}
}

// stop cancels and checks that nothing is left.
func (r *cpRun) stop(prop string, within time.Duration) {
	x := r.x
	d0 := len(sn.dials)
	r.cancel()
	x.Advance(within)
	for _, c := range sn.conns {
		if c.raddr == "10.0.0.2:9001" && !c.closed {
			r.fail(prop, "open", "a connection of the charge point is still open %v after the context was done", within)
			break
		}
	}
	x.Advance(5 * time.Minute)
	if n := len(sn.dials) - d0; n > 0 {
		r.fail(prop, "dials", "the charge point dialed %d times after its context was done", n)
	}
	if l := leaks(); len(l) > 0 {
		r.fail(prop, "leak", "%d goroutines left after the context was done: %v", len(l), l)
	}
}

// reconnectHist: all losses and plans of up to n failures.
func reconnectHist(x *X, n int) {
	r := newCPRun(x, "cp1")
	if r == nil {
		return
	}
	r.works("C13")
	loss := pick(len(lossNames))
	var plan []int
	for len(plan) < n {
		h := pick(srvKinds)
		if h == srvOK {
			break
		}
		plan = append(plan, h)
	}
	sendAt := []float64{-1, 0.5, 7, 63}[pick(4)]
	r.reconnect(loss, plan, sendAt)
	x.cases++
	if r.fails == 0 {
		// and once more
		r.reconnect((loss+1)%len(lossNames), []int{1 + (loss+len(plan))%(srvKinds-1)}, -1)
	}
	if r.fails == 0 {
		r.stop("C14", time.Second)
	}
}

// cancelHist: the context ends at every phase.
func cancelHist(x *X) {
	r := newCPRun(x, "cp1")
	if r == nil {
		return
	}
	r.works("C14")
	p := r.s.last()
	phase := pick(5)
	within := time.Second
	var ops []*sendOp
	switch phase {
	case 0:
		r.trace = append(r.trace, "idle")
	case 1:
		r.trace = append(r.trace, "while a request is handled")
		r.slow = 3 * time.Second
		p.sendText(`[2,"slow","RemoteStopTransaction",{"transactionId":77}]`)
		x.Settle()
		within = 4 * time.Second
	case 2:
		r.trace = append(r.trace, "with two pending Sends")
		p.onText = nil
		ops = append(ops, goSendCS(r.c, &cpreq.Authorize{IdTag: "a"}), goSendCS(r.c, &cpreq.Heartbeat{}))
		x.Settle()
	case 3:
		// handler running, then lost, then cancelled (or the reverse)
		r.trace = append(r.trace, "while a request is handled whose connection is lost")
		r.slow = 3 * time.Second
		p.sendText(`[2,"slow","RemoteStopTransaction",{"transactionId":77}]`)
		x.Advance(time.Second)
		if pick(2) == 0 {
			p.c.Close()
			x.Advance(time.Second)
			within = 2 * time.Second
		} else {
			r.trace = append(r.trace, "the other way round")
			x.Explore(true)
			r.cancel()
			x.Advance(time.Second)
			p.c.cut()
			within = 2 * time.Second
		}
		x.Explore(true) // both are ready when the handler returns
	case 4:
		how := pick(srvKinds-1) + 1
		at := []float64{0.02, 3.1, 4.9, 5.3, 11.2, 33.3, 61.5}[pick(7)]
		second := srvOK
		if pick(2) == 1 {
			second = how
		}
		r.trace = append(r.trace, fmt.Sprintf("%.2f s after the loss of the connection, when the central system %s, then %s", at, srvNames[how], srvNames[second]))
		r.s.usePlan(func(n int) int {
			if n == 0 {
				return how
			} else if n == 1 {
				return second
			}
			return srvOK
		})
		p.c.Close()
		x.Advance(sec(at))
		if srvTime(how) > 0 || srvTime(second) > 0 {
			within = 61 * time.Second // the attempt that is being made
		}
	}
	t0 := runtime.McNow()
	x.cases++
	r.stop("C14", within)
	for _, op := range ops {
		if !op.isDone() || op.err == nil {
			r.fail("C14", "pending", "a Send that was pending when the context was done: done %v, error %v", op.isDone(), short(op.err))
		} else if d := float64(op.t-t0) / 1e9; d > 2 {
			r.fail("C14", "pending-slow", "a Send that was pending when the context was done returned only after %.1f s", d)
		}
	}
	op := goSendCS(r.c, &cpreq.Heartbeat{})
	x.Advance(61 * time.Second)
	if !op.isDone() || op.err == nil {
		r.fail("C14", "send-after", "a Send after the context was done: done %v, error %v", op.isDone(), short(op.err))
	}
}

// firstDial: New with every behaviour of the central system.
func firstDial(x *X) {
	s := listenPeer(x, "9001")
	s.onText = answerCall
	how := pick(srvKinds)
	s.usePlan(func(n int) int {
		if n == 0 {
			return how
		}
		return srvOK
	})
	ctx, cancel := context.WithCancel(context.Background())
	type res struct {
		c   cp.ChargePoint
		err error
	}
	done := false
	var got res
	t0 := runtime.McNow()
	var t1 int64
	go func() {
		c, err := startCP(x, ctx, "cp1", "9001", nopCP(x))
		got = res{c, err}
		t1 = runtime.McNow()
		done = true
	}()
	x.Advance(70 * time.Second)
	x.cases++
	name := srvNames[how]
	if !done || float64(t1-t0)/1e9 > 61 {
		x.Fail("C13", "new-hangs", "cp.New has not returned within the request timeout; the central system %s", name)
		cancel()
		return
	}
	if served(how) {
		if got.err != nil {
			x.Fail("C13", "new-error", "cp.New failed (%v); the central system %s", got.err, name)
		}
	} else {
		if got.err == nil {
			x.Fail("C13", "new-ok", "cp.New succeeded; the central system %s", name)
		}
		if n := len(sn.dials); n != 1 {
			x.Fail("C13", "new-dials", "%d dials after cp.New failed; the central system %s", n, name)
		}
		x.Advance(time.Minute)
		if l := leaks(); len(l) > 0 {
			x.Fail("C14", "new-leak", "%d goroutines left after cp.New failed; the central system %s: %v", len(l), name, l)
		}
	}
	cancel()
}

func init() {
	reg(&Scenario{ID: "cp-first-dial", Props: []string{"C13", "C14"}, Hist: true, Quick: 0, Thorough: 0,
		Desc: "cp.New with every behaviour of the central system at the first dial", Run: firstDial})
	reg(&Scenario{ID: "cp-reconnect-2", Props: []string{"C13", "C14"}, Hist: true, Quick: 0, Thorough: -1,
		Desc: "every kind of loss, every sequence of up to 2 failing attempts out of 12 kinds, with and without a Send meanwhile, then a second loss",
		Run:  func(x *X) { reconnectHist(x, 2) }})
	reg(&Scenario{ID: "cp-reconnect-3", Props: []string{"C13", "C14"}, Hist: true, Quick: -1, Thorough: 0,
		Desc: "every kind of loss, every sequence of up to 3 failing attempts out of 12 kinds, with and without a Send meanwhile, then a second loss",
		Run:  func(x *X) { reconnectHist(x, 3) }})
	reg(&Scenario{ID: "cp-reconnect-4", Props: []string{"C13", "C14"}, Hist: true,
		Desc: "every kind of loss, every sequence of up to 4 failing attempts out of 12 kinds, with and without a Send meanwhile, then a second loss",
		Run:  func(x *X) { reconnectHist(x, 4) }})
	reg(&Scenario{ID: "cp-cancel", Props: []string{"C14"}, Hist: true, Quick: 1, Thorough: 2,
		Desc: "the context of the charge point ends while idle, handling a request, with pending Sends, during every kind of attempt and between attempts",
		Run:  cancelHist})
	// concurrency around a loss
	type act struct {
		name string
		do   func(r *cpRun)
	}
	lossA := act{"TCP close", func(r *cpRun) { r.s.last().c.Close() }}
	lossB := act{"websocket close", func(r *cpRun) { r.s.last().sendFrame(8, true, []byte{3, 0xe8}) }}
	lossC := act{"reset", func(r *cpRun) { r.s.last().c.cut() }}
	var theOp *sendOp
	send := act{"Send", func(r *cpRun) { theOp = goSendCS(r.c, &cpreq.Authorize{IdTag: "par"}) }}
	wait := act{"WaitConnect", func(r *cpRun) {
		r.c.WaitDisconnect()
		<-r.c.WaitConnect()
		r.x.Log("waited", "", "", 0)
	}}
	call := act{"inbound call", func(r *cpRun) { r.s.last().sendText(`[2,"par","RemoteStopTransaction",{"transactionId":55}]`) }}
	combos := [][]act{{lossA, send}, {lossB, send}, {lossC, call}, {lossA, wait, send}, {lossA, call}, {lossA}, {lossC, wait}}
	for i, acts := range combos {
		acts := acts
		var nm []string
		for _, a := range acts {
			nm = append(nm, a.name)
		}
		qb := 2
		if len(acts) > 2 {
			qb = 1
		}
		reg(&Scenario{ID: fmt.Sprintf("cp-loss-par-%d", i), Props: []string{"C13", "C05", "C03"}, Quick: qb, Thorough: qb + 1,
			Desc: "a charge point that loses its connection, concurrently: " + strings.Join(nm, " || ") + "; it must be connected and serve again",
			Run: func(x *X) {
				theOp = nil
				r := newCPRun(x, "cp1")
				if r == nil {
					return
				}
				r.trace = append(r.trace, strings.Join(nm, " || "))
				x.Explore(true)
				for _, a := range acts {
					a := a
					go a.do(r)
				}
				x.Advance(10 * time.Millisecond)
				x.Explore(false)
				x.Advance(7 * time.Second)
				r.works("C13")
				if n := x.count("handle", "cp1"); n > 2 {
					r.fail("C03", "twice", "one call was handled %d times", n-1)
				}
				x.Advance(61 * time.Second)
				if theOp != nil {
					if !theOp.isDone() {
						r.fail("C13", "send-hangs", "a Send during the loss of the connection did not return within the request timeout")
					} else if theOp.err == nil {
						if rs, ok := theOp.resp.(*cpresp.Authorize); !ok || rs.IdTagInfo.ParentIdTag != "par" {
							r.fail("C13", "send-wrong", "a Send during the loss of the connection returned a wrong response")
						}
					}
				}
				for _, a := range acts {
					if a.name == "WaitConnect" && x.count("waited", "") != 1 {
						r.fail("C13", "wait-hangs", "a goroutine waiting for WaitConnect was not woken by the reconnection")
					}
				}
				r.stop("C14", time.Second)
			}})
	}
	cancelA := act{"cancel", func(r *cpRun) { r.cancel() }}
	ccombos := [][]act{{cancelA, lossA}, {cancelA, send}, {cancelA, call}, {cancelA, lossC, send}, {cancelA}}
	for i, acts := range ccombos {
		acts := acts
		var nm []string
		for _, a := range acts {
			nm = append(nm, a.name)
		}
		qb := 2
		if len(acts) > 2 {
			qb = 1
		}
		reg(&Scenario{ID: fmt.Sprintf("cp-cancel-par-%d", i), Props: []string{"C14", "C05"}, Quick: qb, Thorough: qb + 1,
			Desc: "concurrently: " + strings.Join(nm, " || ") + "; the charge point must stop",
			Run: func(x *X) {
				theOp = nil
				r := newCPRun(x, "cp1")
				if r == nil {
					return
				}
				r.trace = append(r.trace, strings.Join(nm, " || "))
				x.Explore(true)
				for _, a := range acts {
					a := a
					go a.do(r)
				}
				x.Advance(10 * time.Millisecond)
				x.Explore(false)
				r.stop("C14", time.Second)
				if theOp != nil && !theOp.isDone() {
					r.fail("C14", "send-hangs", "a Send made while the context was done did not return")
				}
			}})
	}
	reg(&Scenario{ID: "soap-cancel", Props: []string{"C14"}, Hist: true, Quick: 1, Thorough: 2,
		Desc: "the context of a SOAP charge point ends before it listens, while idle, with an idle keep-alive connection, and while a request is handled",
		Run:  soapCancel})
}

func soapCancel(x *X) {
	phase := pick(4)
	ctx, cancel := context.WithCancel(context.Background())
	slow := time.Duration(0)
	port := ":9100"
	trace := []string{"before it listens", "while idle", "with an open connection", "while a request is handled"}[phase]
	if phase == 0 {
		x.Explore(true)
	}
	_, err := newSoapCP(ctx, "cp1", port, func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		time.Sleep(slow)
		return &csresp.ClearCache{Status: "Accepted"}, nil
	})
	if err != nil {
		x.Setup("cp.New: %v", err)
		cancel()
		return
	}
	k := soapKindOf("ClearCache")
	body := soapEnvelope(soapElem(k, &csreq.ClearCache{}, false, 0), soapHeader(k, "cp1", "http://h/"), 0)
	var ka *simConn
	switch phase {
	case 1:
		x.Settle()
		if m := httpExchange(x, "9100", soapPost("/ocpp", body)); m.status != 200 {
			x.Setup("the charge point answered %d", m.status)
		}
	case 2:
		x.Settle()
		nc, _ := simDial(nil, "tcp", "sim:9100")
		ka = nc.(*simConn)
		ka.Write([]byte(strings.Replace(soapPost("/ocpp", body), "Connection: close\r\n", "", 1)))
		x.Settle()
	case 3:
		x.Settle()
		slow = 3 * time.Second
		go httpExchange(x, "9100", soapPost("/ocpp", body))
		x.Settle()
	}
	cancel()
	x.Advance(10 * time.Millisecond)
	x.Explore(false)
	x.Advance(time.Second)
	x.cases++
	if c, err := simDial(nil, "tcp", "sim:9100"); err == nil {
		c.Close()
		x.Fail("C14", "listening", "the SOAP charge point still listens after its context was done %s", trace)
	}
	x.Advance(5 * time.Minute)
	if l := leaks(); len(l) > 0 {
		x.Fail("C14", "leak", "%d goroutines left after the context was done %s: %v", len(l), trace, l)
	}
}
