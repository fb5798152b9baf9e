//go:build go1.22

package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
)

// Several central systems and charge points in one process (C28).

type multiCS struct {
	x     *X
	csys  cs.CentralSystem
	name  string
	port  string // where it runs
	runs  int    // Runs that have to return an error
	peers map[string]*wsPeer
	made  map[string]int
	ended map[string]int
	nh    int // requests handled
	wc    map[string]<-chan struct{}
	wd    map[string]<-chan struct{}
}

type multi struct {
	x     *X
	css   []*multiCS
	ids   []string
	trace []string
	n     int
	fails int
	// the central system (1, 2...) that has no listeners
	silent int
}

func (m *multi) fail(key, f string, a ...interface{}) {
	m.fails++
	m.x.Fail("C28", key, "%s\nhistory: %s", fmt.Sprintf(f, a...), strings.Join(m.trace, "; "))
}

// run runs central system c on a port.
func (m *multi) run(c *multiCS, port string) {
	x := m.x
	name := c.name
	go func() {
		err := c.csys.Run(":"+port, func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
			st, ok := r.(*cpreq.StartTransaction)
			if !ok {
				return nil, errors.New("refused by " + name)
			}
			x.Log("handle"+name, md.ChargePointID, "", int64(st.MeterStart))
			return &cpresp.StartTransaction{IdTagInfo: &cpresp.IdTagInfo{Status: "Accepted", ParentIdTag: name}, TransactionId: int32(st.MeterStart)}, nil
		})
		x.Log("run"+name, fmt.Sprint(err), "", 0)
	}()
}

func (m *multi) add() *multiCS {
	x := m.x
	c := &multiCS{x: x, csys: cs.New(), name: string(rune('A' + len(m.css))), peers: map[string]*wsPeer{}, made: map[string]int{}, ended: map[string]int{}, wc: map[string]<-chan struct{}{}, wd: map[string]<-chan struct{}{}}
	m.css = append(m.css, c)
	if m.silent != len(m.css) {
		m.listen(c)
	}
	return c
}

func (m *multi) listen(c *multiCS) {
	x := m.x
	c.csys.SetChargePointConnectionListener(func(id string) { x.Log("connect"+c.name, id, "", 0) })
	c.csys.SetChargePointDisconnectionListener(func(id string) { x.Log("disconnect"+c.name, id, "", 0) })
}

func (m *multi) connect(c *multiCS, id string) {
	p := dialPeer(m.x, id, c.port, "/"+id, "ocpp1.6")
	if p == nil || p.status != 101 {
		m.fail("refused", "central system %s refused a connection of %s", c.name, id)
		return
	}
	who := id + "@" + c.name
	p.onText = func(p *wsPeer, msg []byte) {
		if o := parseMsg(string(msg)); o.Type == 2 {
			p.sendText(fmt.Sprintf(`[3,%s,{"unknownKey":["%s"]}]`, q(o.ID), who))
		}
	}
	p.start()
	c.peers[id] = p
	c.made[id]++
}

// quiet compares every central system with the model.
func (m *multi) quiet() {
	x := m.x
	for _, c := range m.css {
		x.Sync()
		if got := x.count("run"+c.name, ""); got != c.runs {
			m.fail("run", "%d Runs of central system %s returned instead of %d", got, c.name, c.runs)
		}
		nconn := 0
		for _, id := range m.ids {
			p := c.peers[id]
			if nc, nd := x.count("connect"+c.name, id), x.count("disconnect"+c.name, id); m.silent > 0 && c == m.css[m.silent-1] {
				if nc+nd > 0 {
					m.fail("listeners", "central system %s has no listeners, but was notified of %d connections and %d disconnections of %s", c.name, nc, nd, id)
				}
			} else if nc != c.made[id] || nd != c.ended[id] {
				m.fail("listeners", "central system %s was notified of %d connections and %d disconnections of %s instead of %d and %d", c.name, nc, nd, id, c.made[id], c.ended[id])
			}
			if got := closedNow(c.csys.WaitConnect(id)); got != (p != nil) {
				m.fail("wait-connect", "WaitConnect(%s) of central system %s is done: %v", id, c.name, got)
			}
			if got := closedNow(c.csys.WaitDisconnect(id)); got != (p == nil) {
				m.fail("wait-disconnect", "WaitDisconnect(%s) of central system %s is done: %v", id, c.name, got)
			}
			svc, err := c.csys.GetServiceOf(id, ocpp.V16, "")
			if (err == nil) != (p != nil) {
				m.fail("reachable", "%s at central system %s, connected: %v: GetServiceOf returned the error %v", id, c.name, p != nil, err)
				continue
			}
			if p == nil {
				continue
			}
			nconn++
			m.n++
			op := goSendCP(svc, &csreq.GetConfiguration{Key: []string{itoa(m.n)}})
			before := len(repliesOf(p))
			p.sendText(startTx("m"+itoa(m.n), m.n))
			x.Settle()
			r, _ := op.resp.(*csresp.GetConfiguration)
			if !op.isDone() || op.err != nil || r == nil || len(r.UnknownKey) != 1 || r.UnknownKey[0] != id+"@"+c.name {
				m.fail("send", "a Send of central system %s to %s: done %v, (%v, %v)", c.name, id, op.isDone(), r, short(op.err))
			}
			got := repliesOf(p)
			if len(got) != before+1 || got[before].Type != 3 || field(got[before].Payload, "transactionId") != itoa(m.n) || !strings.Contains(string(got[before].Payload), `"parentIdTag":"`+c.name+`"`) {
				m.fail("answer", "a request of %s to central system %s was answered by %v", id, c.name, got[before:])
			}
			c.nh++
			m.handled(c, id)
		}
		if c.port == "" {
			continue
		}
		// the page and a SOAP request
		if code, body := httpGet(x, c.port, "/"); code != 200 || !strings.Contains(body, fmt.Sprintf("connected with %d OCPP-J", nconn)) {
			m.fail("page", "central system %s: status %d, %q with %d connected charge points", c.name, code, body, nconn)
		}
		m.n++
		k := soapKindOf("StartTransaction")
		body := soapEnvelope(soapElem(k, &cpreq.StartTransaction{ConnectorId: 1, IdTag: "T", MeterStart: m.n, Timestamp: t0}, false, 0), soapHeader(k, "soap"+c.name, "http://sim"), 0)
		code, text := httpRaw(x, c.port, soapPost("/", body))
		if code != 200 || !strings.Contains(text, ">"+c.name+"<") || !strings.Contains(text, ">"+itoa(m.n)+"<") {
			m.fail("soap", "central system %s answered a SOAP request by %d %q", c.name, code, text)
		}
		c.nh++
		m.handled(c, "soap"+c.name)
	}
}

func (m *multi) handled(c *multiCS, id string) {
	x := m.x
	x.Sync()
	for _, o := range m.css {
		if got := x.count("handle"+o.name, ""); got != o.nh {
			m.fail("handled", "after a request of %s to central system %s: the handler of %s was called %d times instead of %d", id, c.name, o.name, got, o.nh)
			o.nh = got
		}
	}
	n := 0
	for _, e := range x.events() {
		if e.kind == "handle"+c.name && e.n == int64(m.n) && e.a == id {
			n++
		}
	}
	if n != 1 {
		m.fail("metadata", "a request of %s to central system %s was handled %d times as one of it", id, c.name, n)
	}
}

func (m *multi) step() bool {
	type op struct {
		name string
		do   func()
	}
	menu := []op{{"stop", nil}}
	var taken string
	for _, c := range m.css {
		if c.port != "" {
			taken = c.port
		}
	}
	nidle := 0
	for j, c := range m.css {
		c, port := c, itoa(9000+j)
		if c.port == "" {
			if nidle++; nidle == 1 {
				menu = append(menu, op{"run " + c.name, func() { m.run(c, port); c.port = port }})
			}
			if taken != "" && c.runs < 2 {
				menu = append(menu, op{"run " + c.name + " on a port that is taken", func() { m.run(c, taken); c.runs++ }})
			}
			continue
		}
		for _, id := range m.ids {
			id := id
			if c.peers[id] == nil {
				menu = append(menu, op{"connect " + id + " to " + c.name, func() { m.connect(c, id) }})
			} else {
				menu = append(menu, op{"disconnect " + id + " from " + c.name, func() {
					c.peers[id].c.Close()
					c.peers[id] = nil
					c.ended[id]++
				}})
			}
		}
	}
	o := menu[pick(len(menu))]
	if o.do == nil {
		return false
	}
	m.trace = append(m.trace, o.name)
	o.do()
	m.x.Advance(10 * time.Millisecond)
	m.quiet()
	return m.fails == 0
}

func (m *multi) finish() {
	x := m.x
	x.Outcome("%s", strings.Join(m.trace, ";"))
	if m.fails > 0 {
		return
	}
	for _, c := range m.css {
		for _, id := range m.ids {
			if p := c.peers[id]; p != nil {
				p.c.Close()
			}
		}
	}
	sn.closeAll()
	x.Advance(5 * time.Minute)
	if l := leaks(); len(l) > 0 {
		m.fail("leak", "%d goroutines of the library left after every connection ended: %v", len(l), l)
	}
}

func multiHist(x *X, ncs, depth, pre int) {
	m := &multi{x: x, ids: []string{"cpA", "cpB"}}
	if ncs == 2 {
		m.silent = pick(3)
	}
	for i := 0; i < ncs; i++ {
		m.add()
	}
	for i := 0; i < pre; i++ {
		m.css[i].port = itoa(9000 + i)
		m.run(m.css[i], m.css[i].port)
		x.Settle()
	}
	m.trace = append(m.trace, fmt.Sprintf("%d of %d central systems run", pre, ncs))
	m.quiet()
	for i := 0; i < depth && m.fails == 0; i++ {
		if !m.step() {
			break
		}
	}
	m.finish()
}

// multiPar: two central systems that start and serve charge points of the same
// identity at the same time.
func multiPar(x *X, kind int) {
	m := &multi{x: x, ids: []string{"cpA", "cpB"}}
	a, b := m.add(), m.add()
	a.port, b.port = "9000", "9001"
	if kind == 0 { // both start at the same time
		x.Explore(true)
		m.run(a, a.port)
		m.run(b, b.port)
		x.Settle()
		x.Explore(false)
		m.connect(a, "cpA")
		m.connect(b, "cpA")
	} else {
		m.run(a, a.port)
		m.run(b, b.port)
		x.Settle()
		if kind == 2 {
			m.connect(a, "cpA")
			x.Settle()
		}
		x.Explore(true)
		if kind == 2 {
			go func() {
				a.peers["cpA"].c.Close()
			}()
		} else {
			go m.connect(a, "cpA")
		}
		go m.connect(b, "cpA")
		x.Settle()
		x.Explore(false)
		if kind == 2 {
			a.peers["cpA"] = nil
			a.ended["cpA"]++
		}
	}
	x.Advance(10 * time.Millisecond)
	m.quiet()
	m.finish()
}

// multiE2E: real charge points, two of each identity, at two central systems.
func multiE2E(x *X, nsend int) {
	type end struct {
		who  string
		c    cp.ChargePoint
		svc  cpService
		stop context.CancelFunc
	}
	var ends []*end
	soap := pick(2) == 1
	stop := pick(5)
	var css []cs.CentralSystem
	for j := 0; j < 2; j++ {
		name := string(rune('A' + j))
		css = append(css, startCSOn(x, itoa(9000+j), func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
			st, ok := r.(*cpreq.StartTransaction)
			if !ok {
				return nil, errors.New("unexpected")
			}
			x.Log("handle", md.ChargePointID+"@"+name, "", int64(st.MeterStart))
			return &cpresp.StartTransaction{IdTagInfo: &cpresp.IdTagInfo{Status: "Accepted", ParentIdTag: name}, TransactionId: int32(st.MeterStart)}, nil
		}, nil))
	}
	for i := 0; i < 4; i++ {
		id, j := "cp"+itoa(i/2), i%2
		e := &end{who: id + "@" + string(rune('A'+j))}
		var ctx context.Context
		ctx, e.stop = context.WithCancel(context.Background())
		h := func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
			g, ok := r.(*csreq.GetConfiguration)
			if !ok {
				return nil, errors.New("unexpected")
			}
			x.Log("cp-handle", e.who, strings.Join(g.Key, ","), 0)
			return &csresp.GetConfiguration{UnknownKey: append([]string{e.who}, g.Key...)}, nil
		}
		var err error
		if soap {
			port := ":" + itoa(9100+i)
			e.c, err = cp.New(ctx, id, "http://sim:"+itoa(9000+j), ocpp.V15, ocpp.SOAP, &port, h)
			x.Settle()
			e.svc, _ = css[j].GetServiceOf(id, ocpp.V15, "http://sim"+port)
		} else {
			e.c, err = startCP(x, ctx, id, itoa(9000+j), h)
			e.svc, _ = css[j].GetServiceOf(id, ocpp.V16, "")
		}
		if err != nil || e.svc == nil {
			x.Fail("C28", "e2e-connect", "%s is not connected: %v", e.who, err)
			return
		}
		ends = append(ends, e)
	}
	what := "four JSON charge points at two central systems"
	if soap {
		what = "four SOAP charge points at two central systems"
	}
	if stop < 4 {
		// one of them stops
		ends[stop].stop()
		x.Advance(time.Second)
		what += ", " + ends[stop].who + " stopped"
	}
	var ups, downs []*sendOp
	for n := 0; n < nsend; n++ {
		for i, e := range ends {
			ups = append(ups, goSendCS(e.c, &cpreq.StartTransaction{ConnectorId: 1, IdTag: "T", MeterStart: 10*n + i, Timestamp: t0}))
			downs = append(downs, goSendCP(e.svc, &csreq.GetConfiguration{Key: []string{itoa(10*n + i)}}))
		}
	}
	x.Advance(time.Second)
	x.Sync()
	for k := range ups {
		i, n := k%4, k/4
		e := ends[i]
		x.cases++
		dead := i == stop
		if op := ups[k]; !dead || soap {
			r, _ := op.resp.(*cpresp.StartTransaction)
			if !op.isDone() || op.err != nil || r == nil || int(r.TransactionId) != 10*n+i || r.IdTagInfo == nil || r.IdTagInfo.ParentIdTag != e.who[4:] {
				x.Fail("C28", "e2e-up", "%s: Send %d of %s: done %v, (%v, %v)", what, n, e.who, op.isDone(), r, short(op.err))
			}
		} else if !op.isDone() || op.err == nil {
			x.Fail("C28", "e2e-stopped", "%s: its Send: done %v, error %v", what, op.isDone(), op.err)
		}
		if op := downs[k]; !dead {
			r, _ := op.resp.(*csresp.GetConfiguration)
			if !op.isDone() || op.err != nil || r == nil || strings.Join(r.UnknownKey, "/") != e.who+"/"+itoa(10*n+i) {
				x.Fail("C28", "e2e-down", "%s: Send %d to %s: done %v, (%v, %v)", what, n, e.who, op.isDone(), r, short(op.err))
			}
		} else if !op.isDone() || op.err == nil {
			x.Fail("C28", "e2e-stopped", "%s: a Send to it: done %v, error %v", what, op.isDone(), op.err)
		}
	}
	for i, e := range ends {
		wu, wd := nsend, nsend
		if i == stop {
			wd = 0
			if !soap {
				wu = 0
			}
		}
		if u, d := x.count("handle", e.who), x.count("cp-handle", e.who); u != wu || d != wd {
			x.Fail("C28", "e2e-handled", "%s: %d requests of %s and %d to it were handled instead of %d and %d", what, u, e.who, d, wu, wd)
		}
	}
	for _, e := range ends {
		e.stop()
	}
}

func init() {
	p := []string{"C28"}
	reg(&Scenario{ID: "multi-hist-2", Fresh: true, Props: p, Hist: true,
		Desc: "two central systems in one process: every history of 6 starts (also on a port that is taken), connects and disconnects of charge points of the same identities; after every step both are compared with the model, with websocket, SOAP and status requests",
		Run:  func(x *X) { multiHist(x, 2, 6, 0) }})
	reg(&Scenario{ID: "multi-hist-2-more", Props: p, Hist: true, Quick: -1,
		Desc: "two central systems in one process: every history of 8 operations", Run: func(x *X) { multiHist(x, 2, 8, 0) }})
	reg(&Scenario{ID: "multi-hist-3", Props: p, Hist: true,
		Desc: "three central systems in one process, two of them running: every history of 4 operations", Run: func(x *X) { multiHist(x, 3, 5, 2) }})
	for k, d := range []string{"two central systems start at the same time", "charge points of the same identity connect to two central systems at the same time", "a charge point leaves one central system while one of the same identity connects to another"} {
		k := k
		reg(&Scenario{ID: fmt.Sprintf("multi-par-%d", k), Props: []string{"C28", "C05"}, Quick: 2, Thorough: 3,
			Desc: d + ", under every schedule within the bound", Run: func(x *X) { multiPar(x, k) }})
	}
	reg(&Scenario{ID: "multi-e2e", Props: []string{"C28", "C05"}, Hist: true,
		Desc: "real charge points of the same identities at two central systems in one process, via OCPP-J and SOAP, send and are sent to at the same time; one of them may have stopped", Run: func(x *X) { multiE2E(x, 3) }})
}
