//go:build go1.22

package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
)

// Numbers beyond any queue, pool or limit one would put into such a library.

var many = func() int {
	if raceOn {
		return 200 // the race detector is slow
	}
	return 1100
}()

func scaleSends(x *X, role string) {
	r := rigOf(x, role)
	if r == nil {
		return
	}
	p := r.peer
	order := pick(4)
	unanswered := pick(2) // every 7th is left without an answer
	var ops []*sendOp
	for i := 0; i < many; i++ {
		ops = append(ops, r.send("k"+itoa(i)))
	}
	x.Advance(time.Second)
	c := callsOf(p)
	if len(c) != many {
		x.Fail("C01", role+":calls", "%d Sends sent %d calls", many, len(c))
		return
	}
	seen := map[string]bool{}
	for _, m := range c {
		if seen[m.ID] {
			x.Fail("C01", role+":id", "the message id %q is used twice", m.ID)
		}
		seen[m.ID] = true
	}
	skip := map[string]bool{}
	for j := 0; j < many; j++ {
		i := j
		switch order {
		case 1:
			i = many - 1 - j
		case 2:
			i = (j * 7) % many
			if many%7 == 0 {
				i = j
			}
		case 3:
			i = j ^ 1
		}
		k := r.reqKey(c[i])
		if unanswered == 1 && i%7 == 3 {
			skip[k] = true
			continue
		}
		p.sendText(r.okRep(c[i].ID, k))
	}
	x.Advance(time.Second)
	for i, op := range ops {
		k := "k" + itoa(i)
		x.cases++
		if skip[k] {
			if op.isDone() {
				x.Fail("C01", role+":premature", "Send %d of %d returned (%T, %v) without an answer", i, many, op.resp, short(op.err))
			}
			continue
		}
		if !op.isDone() || op.err != nil || r.match(op, k) != "" {
			x.Fail("C01", role+":response", "Send %d of %d concurrent ones: done %v, (%T, %v) %s", i, many, op.isDone(), op.resp, short(op.err), r.match(op, k))
			return
		}
	}
	if len(skip) > 0 {
		x.Advance(61 * time.Second)
		for i, op := range ops {
			if skip["k"+itoa(i)] && (!op.isDone() || op.err == nil) {
				x.Fail("C02", role+":timeout", "Send %d of %d concurrent ones, unanswered: done %v, error %v", i, many, op.isDone(), short(op.err))
				return
			}
		}
	}
	if e := r.usable(x, "u"); e != "" {
		x.Fail("C01", role+":after", "after %d concurrent Sends: %s", many, e)
	}
	r.breakIt(1)
	x.Advance(time.Second)
	if role == "cs" {
		if l := leaks(); len(l) > 1 { // the accept loop of net/http
			x.Fail("C08", "leak", "%d goroutines of the library left: %v", len(l), l)
		}
	}
}

func scaleCalls(x *X, role string) {
	r := rigOf(x, role)
	if r == nil {
		return
	}
	p := r.peer
	slowH := pick(2) == 1
	x.onHandle = func(int) {
		if slowH {
			time.Sleep(15 * time.Millisecond)
		}
	}
	op := r.send("s")
	x.Settle()
	c := callsOf(p)
	var ids []string
	for i := 0; i < many; i++ {
		ids = append(ids, "c"+itoa(i))
		p.sendText(r.okCall(ids[i], 2000+i))
		if i%50 == 10 {
			p.sendText(malformed[i%len(malformed)] + " ")
		}
	}
	if len(c) == 1 {
		p.sendText(r.okRep(c[0].ID, "s"))
	}
	x.Advance(20 * time.Second)
	x.onHandle = nil
	x.Sync()
	n := 0
	for i := range x.events() {
		if e := &x.events()[i]; e.kind == "handle" {
			if int(e.n) != 2000+n {
				x.Fail("C03", role+":order", "call %d of %d was handled as number %d", e.n-2000, many, n)
				return
			}
			n++
		}
	}
	if n != many {
		x.Fail("C03", role+":handled", "%d of %d calls were handled", n, many)
	}
	cnt := map[string]int{}
	for _, m := range repliesOf(p) {
		if m.Type == 3 {
			cnt[m.ID]++
		}
	}
	for i, id := range ids {
		x.cases++
		if cnt[id] != 1 {
			x.Fail("C03", role+":answers", "call %d of %d was answered %d times", i, many, cnt[id])
			return
		}
	}
	if !op.isDone() || op.err != nil || r.match(op, "s") != "" {
		x.Fail("C03", role+":send", "a Send answered after %d calls: done %v, (%T, %v)", many, op.isDone(), op.resp, short(op.err))
	}
	if e := r.usable(x, "u"); e != "" {
		x.Fail("C03", role+":after", "after %d calls: %s", many, e)
	}
}

// scaleBig: sizes of messages around every power of two.
func scaleBig(x *X, role string) {
	r := rigOf(x, role)
	if r == nil {
		return
	}
	p := r.peer
	bits := 5 + pick(17) // up to 2 MB
	for d := -2; d <= 2; d++ {
		n := 1<<bits + d
		x.cases++
		k := strings.Repeat("x", n-2) + "yz"
		nc := len(callsOf(p))
		op := r.send(k)
		x.Advance(time.Second)
		c := callsOf(p)
		if len(c) != nc+1 || r.reqKey(c[nc]) != k {
			x.Fail("C01,C02", role+":big-request", "a request with a value of %d bytes sent %d calls", n, len(c)-nc)
		} else {
			p.sendText(r.okRep(c[nc].ID, k))
			x.Advance(time.Second)
			if !op.isDone() || op.err != nil || r.match(op, k) != "" {
				x.Fail("C01,C02", role+":big-response", "a response with a value of %d bytes: done %v, error %v", n, op.isDone(), short(op.err))
			}
		}
		nr := len(repliesOf(p))
		id := "i" + k
		p.sendText(r.okCall(id, 7))
		x.Advance(time.Second)
		m := repliesOf(p)
		if len(m) != nr+1 || m[nr].ID != id || m[nr].Type != 3 {
			x.Fail("C03", role+":big-call", "a call with a message id of %d bytes was answered by %d messages", n, len(m)-nr)
		}
		if len(x.viols) > 0 {
			return
		}
	}
}

func scaleConns(x *X) {
	n := many
	mode := pick(5) // 0 nothing blocks, 1 the connection listener, 2 the disconnection listener, 3 both, 4 the handlers
	same := pick(4) // how many connections per identity
	per := []int{1, 2, 25, n}[same]
	hold := make(chan struct{})
	open, refused := map[string]int{}, 0
	csys := startCSOn(x, "9000", echoCS(x, func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) {
		if mode == 4 && md.HTTPRequest != nil && r.(*cpreq.StartTransaction).MeterStart == 1 {
			<-hold
		}
	}), func(c cs.CentralSystem) {
		c.SetChargePointConnectionListener(func(id string) {
			x.Log("connect", id, "", 0)
			if mode == 1 || mode == 3 {
				<-hold
			}
		})
		c.SetChargePointDisconnectionListener(func(id string) {
			x.Log("disconnect", id, "", 0)
			if mode >= 2 && mode < 4 {
				<-hold
			}
		})
	})
	var waits []<-chan struct{}
	for i := 0; i < n/per; i++ {
		waits = append(waits, csys.WaitConnect("cp"+itoa(i)))
	}
	var peers []*wsPeer
	for i := 0; i < n; i++ {
		id := "cp" + itoa(i/per)
		p := connectPeer(x, id)
		if p == nil || p.status != 101 {
			refused++
			x.Fail("C09", "refused", "connection %d of %d was refused", i, n)
			return
		}
		peers = append(peers, p)
		open[id]++
	}
	x.Settle()
	bad := func(prop, key, f string, a ...interface{}) {
		x.Fail(prop, key, "%s\n%d connections, %d per identity, mode %d", fmt.Sprintf(f, a...), n, per, mode)
	}
	for i, w := range waits {
		if !closedNow(w) {
			bad("C11", "scale-waitconnect", "WaitConnect(cp%d) is not done", i)
			return
		}
	}
	if k := x.count("connect", ""); k != n {
		bad("C10", "scale-connect", "%d notifications of %d connections", k, n)
	}
	for i := 0; i < n/per; i++ {
		if k := x.count("connect", "cp"+itoa(i)); k != per {
			bad("C10", "scale-connect", "%d notifications of %d connections of one identity", k, per)
			return
		}
	}
	if k := statusCount(x); k != n/per {
		bad("C27", "scale-status", "the page counts %d identities instead of %d", k, n/per)
	}
	if mode == 4 {
		for _, p := range peers[:n-per] {
			p.sendText(startTx("hold", 1))
		}
		x.Settle()
	}
	// the newest of the last identity is served
	last := "cp" + itoa(n/per-1)
	p := peers[n-1]
	if e := serves(x, csys, p, last, 77); e != "" {
		bad("C19", "scale-served", "the last charge point: %s", e)
	}
	if mode == 4 {
		close(hold)
		x.Settle()
		for i, p := range peers[:n-per] {
			if m := p.msgs(); len(m) != 1 || m[0].ID != "hold" || m[0].Type != 3 {
				bad("C19", "scale-answer", "the slow request of connection %d was answered by %d messages", i, len(m))
				return
			}
		}
	}
	var wd []<-chan struct{}
	for i := 0; i < n/per; i++ {
		wd = append(wd, csys.WaitDisconnect("cp"+itoa(i)))
	}
	for i, p := range peers {
		id := "cp" + itoa(i/per)
		switch i % 3 {
		case 0:
			p.c.Close()
		case 1:
			p.sendFrame(8, true, []byte{3, 0xe8})
		case 2:
			p.c.cut()
		}
		x.Settle()
		open[id]--
		_, err := csys.GetServiceOf(id, ocpp.V16, "")
		if (err == nil) != (open[id] > 0) {
			bad("C09", "scale-reachable", "%s has %d open connections, GetServiceOf: %v", id, open[id], err)
			return
		}
	}
	for i, w := range wd {
		if !closedNow(w) {
			bad("C11", "scale-waitdisconnect", "WaitDisconnect(cp%d) is not done", i)
			return
		}
	}
	if mode > 0 && mode < 4 {
		close(hold)
	}
	x.Advance(time.Second)
	if k := x.count("disconnect", ""); k != n {
		bad("C10", "scale-disconnect", "%d notifications of %d disconnections", k, n)
	}
	if k := statusCount(x); k != 0 {
		bad("C27", "scale-status", "the page counts %d identities without a connection", k)
	}
	if l := leaks(); len(l) > 1 {
		bad("C08", "scale-leak", "%d goroutines of the library left: %v", len(l), l[:2])
	}
	x.cases += int64(n)
}

// statusCount is the number on the status page.
func statusCount(x *X) int {
	code, body := httpGet(x, "9000", "/")
	i := strings.Index(body, "connected with ")
	n := -1
	if code == 200 && i >= 0 {
		fmt.Sscanf(body[i:], "connected with %d ", &n)
	}
	return n
}

// scaleRetry: a central system that is away for long.
func scaleRetry(x *X) {
	n := []int{20, 100, 500}[pick(3)]
	s := listenPeer(x, "9001")
	s.onText = answerCall
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	c, err := startCP(x, ctx, "cp1", "9001", func(rq csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		return nil, errors.New("none")
	})
	if err != nil {
		x.Setup("cp.New: %v", err)
		return
	}
	away := false
	s.usePlan(func(int) int {
		if away {
			return srv503
		}
		return srvOK
	})
	for round := 0; round < 2; round++ {
		away = true
		d0 := s.dials
		s.last().c.Close()
		x.Advance(time.Duration(n)*5*time.Second + time.Second)
		d := s.dials - d0
		if d < n-1 || d > n+2 {
			x.Fail("C13", "scale-dials", "%d dials in %d s", d, n*5)
			return
		}
		if closedNow(c.WaitConnect()) {
			x.Fail("C13", "scale-waitconnect", "WaitConnect is done while disconnected")
		}
		op := goSendCS(c, &cpreq.Heartbeat{})
		x.Settle()
		if !op.isDone() || op.err == nil {
			x.Fail("C13", "scale-send", "a Send while disconnected: done %v, error %v", op.isDone(), short(op.err))
		}
		away = false
		x.Advance(6 * time.Second)
		if !closedNow(c.WaitConnect()) {
			x.Fail("C13", "scale-connected", "not connected 6 s after the central system came back, after %d failures", d)
			return
		}
		op = goSendCS(c, &cpreq.Heartbeat{})
		x.Settle()
		if !op.isDone() || op.err != nil {
			x.Fail("C13", "scale-send", "a Send after the reconnection: done %v, error %v", op.isDone(), short(op.err))
		}
		x.cases += int64(d)
	}
	// and many losses in a row
	for i := 0; i < 1100; i++ {
		s.last().c.Close()
		x.Settle()
		if !closedNow(c.WaitConnect()) {
			x.Advance(6 * time.Second)
		}
		if s.last().closed() || !closedNow(c.WaitConnect()) {
			x.Fail("C13", "scale-losses", "not connected after %d losses", i+1)
			return
		}
	}
	x.cases += 1100
	cancel()
	x.Advance(time.Second)
	if l := leaks(); len(l) > 0 {
		x.Fail("C14", "scale-leak", "%d goroutines of the library left: %v", len(l), l)
	}
}

func scaleSoap(x *X) {
	const n = 600
	mode := pick(2)
	hold := make(chan struct{})
	startCS(x, func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		st, ok := r.(*cpreq.StartTransaction)
		if !ok {
			return nil, errors.New("unexpected")
		}
		x.Log("handle", md.ChargePointID, "", int64(st.MeterStart))
		if mode == 1 {
			<-hold
		}
		return &cpresp.StartTransaction{TransactionId: int32(st.MeterStart) + 1000, IdTagInfo: &cpresp.IdTagInfo{Status: "Accepted", ParentIdTag: md.ChargePointID}}, nil
	})
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var cps []cp.ChargePoint
	for i := 0; i < 4; i++ {
		c, err := newSoapCP(ctx, "cp"+itoa(i), ":"+itoa(9100+i), func(rq csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
			return nil, errors.New("none")
		})
		if err != nil {
			x.Setup("cp.New: %v", err)
			return
		}
		cps = append(cps, c)
	}
	var ops []*sendOp
	for i := 0; i < n; i++ {
		ops = append(ops, goSendCS(cps[i%4], &cpreq.StartTransaction{ConnectorId: 1, IdTag: "T", MeterStart: 3000 + i, Timestamp: time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)}))
	}
	x.Advance(time.Second)
	if k := x.count("handle", ""); k != n {
		x.Fail("C16", "scale-handled", "%d of %d concurrent requests were handled", k, n)
		if mode == 1 {
			x.Fail("C19", "soap-scale", "%d of %d concurrent SOAP requests reached the handler while the others were handled", k, n)
		}
	}
	close(hold)
	x.Advance(time.Second)
	for i, op := range ops {
		x.cases++
		r, ok := op.resp.(*cpresp.StartTransaction)
		if !op.isDone() || op.err != nil || !ok || r == nil || r.TransactionId != int32(4000+i) || r.IdTagInfo == nil || r.IdTagInfo.ParentIdTag != "cp"+itoa(i%4) {
			x.Fail("C16", "scale-response", "Send %d of %d concurrent ones: done %v, (%v, %v)", i, n, op.isDone(), op.resp, short(op.err))
			return
		}
	}
}

func init() {
	for _, role := range []string{"cs", "cp"} {
		role := role
		reg(&Scenario{ID: "scale-sends-" + role, Props: []string{"C05", "C01", "C02", "C08"}, Hist: true, Quick: 0, Thorough: 0,
			Desc: fmt.Sprintf("%d concurrent Sends, answered in four orders, all or six of seven, %s side", many, role),
			Run:  func(x *X) { scaleSends(x, role) }})
		reg(&Scenario{ID: "scale-calls-" + role, Props: []string{"C03"}, Hist: true, Quick: 0, Thorough: 0,
			Desc: fmt.Sprintf("%d calls at once, fast and slow handlers, %s side", many, role),
			Run:  func(x *X) { scaleCalls(x, role) }})
		reg(&Scenario{ID: "scale-big-" + role, Props: []string{"C01", "C03"}, Hist: true, Quick: 0, Thorough: 0,
			Desc: "requests, responses and message ids of sizes around every power of two up to 2 MB, " + role + " side",
			Run:  func(x *X) { scaleBig(x, role) }})
	}
	reg(&Scenario{ID: "scale-conns", Props: []string{"C05", "C08", "C09", "C10", "C11", "C19", "C27"}, Hist: true, Quick: 0, Thorough: 0,
		Desc: "100 connections, 1, 2 or 25 per identity, while nothing, the listeners or the handlers block", Run: scaleConns})
	reg(&Scenario{ID: "scale-retry", Props: []string{"C13", "C14"}, Hist: true, Quick: 0, Thorough: 0,
		Desc: "a central system that is away for 20, 100 and 500 retries, twice, and 200 losses in a row", Run: scaleRetry})
	reg(&Scenario{ID: "scale-soap", Props: []string{"C05", "C16", "C19"}, Hist: true, Quick: 0, Thorough: 0,
		Desc: "120 concurrent SOAP requests of 4 charge points", Run: scaleSoap})
}
