//go:build go1.22

package main

import (
	"fmt"
	"runtime"
	"strings"
	"time"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
)

// Histories of connections to one central system: which connection a service
// is routed to, the notifications, the wait channels and the metadata, against
// a reference model of the set of live connections.

type connRec struct {
	id    string
	p     *wsPeer
	ended bool
	svc   cpService // obtained while this was the newest connection
}

type chanRec struct {
	id     string
	ch     <-chan struct{}
	nEnded int // connections of id ended when it was obtained
	nConns int // connections of id made when it was obtained
	live   int // live connections when it was obtained
}

type connHist struct {
	x      *X
	csys   cs.CentralSystem
	conns  []*connRec
	wc, wd []chanRec
	trace  []string
	fails  int
	nReq   int
	nKey   int
	nHand  int
	sets   []string
}

func (h *connHist) fail(prop, key, format string, args ...interface{}) {
	h.fails++
	h.x.Fail(prop, key, "%s\nhistory: %s", fmt.Sprintf(format, args...), strings.Join(h.trace, "; "))
}

func closedNow(ch <-chan struct{}) bool {
	select {
	case <-ch:
		return true
	default:
		return false
	}
}

func newConnHist(x *X, ids ...string) *connHist {
	h := &connHist{x: x, sets: ids}
	h.csys = startCSOn(x, "9000", func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		if st, ok := r.(*cpreq.StartTransaction); ok {
			path := ""
			if md.HTTPRequest != nil {
				path = md.HTTPRequest.URL.Path + " from " + md.HTTPRequest.RemoteAddr
			}
			x.Log("handle", md.ChargePointID, path, int64(st.MeterStart))
			return &cpresp.StartTransaction{IdTagInfo: &cpresp.IdTagInfo{Status: "Accepted", ParentIdTag: md.ChargePointID}, TransactionId: int32(st.MeterStart)}, nil
		}
		return nil, fmt.Errorf("unexpected")
	}, func(c cs.CentralSystem) {
		c.SetChargePointConnectionListener(func(id string) {
			// reachable from the moment of the notification
			_, err := c.GetServiceOf(id, ocpp.V16, "")
			n := int64(1)
			if err != nil {
				n = 0
			}
			x.Log("connect", id, "", n)
		})
		c.SetChargePointDisconnectionListener(func(id string) {
			x.Log("disconnect", id, "", 0)
		})
	})
	return h
}

func (h *connHist) live(id string) []*connRec {
	var r []*connRec
	for _, c := range h.conns {
		if c.id == id && !c.ended {
			r = append(r, c)
		}
	}
	return r
}

func (h *connHist) made(id string) (n, ended int) {
	for _, c := range h.conns {
		if c.id == id {
			n++
			if c.ended {
				ended++
			}
		}
	}
	return
}

// metaOf is the HTTP request that opened a connection, as the handler sees it.
func (h *connHist) metaOf(c *connRec) string { return "/" + c.id + " from " + string(c.p.c.laddr) }

// answer replies to every GetConfiguration with the id and number of the connection
func (h *connHist) connect(id string) *connRec {
	rec := &connRec{id: id}
	p := dialPeer(h.x, id, "9000", "/"+id, "ocpp1.6")
	if p == nil || p.status != 101 {
		h.fail("C09", "refused", "the central system refused a connection of %s", id)
		return nil
	}
	rec.p = p
	n := len(h.conns)
	p.onText = func(p *wsPeer, msg []byte) {
		m := parseMsg(string(msg))
		if m.Type == 2 {
			p.sendText(fmt.Sprintf(`[3,%s,{"unknownKey":["%s","%d"]}]`, q(m.ID), id, n))
		}
	}
	p.start()
	h.conns = append(h.conns, rec)
	return rec
}

func (h *connHist) end(c *connRec, how int) {
	c.ended = true
	switch how {
	case 0: // websocket close handshake
		c.p.sendFrame(8, true, []byte{0x03, 0xe8})
	case 1: // TCP close
		c.p.c.Close()
	case 2:
		c.p.c.cut()
	}
}

// quiet checks everything that must hold once nothing is going on.
func (h *connHist) quiet() {
	x := h.x
	x.Sync()
	// notifications
	for _, id := range h.sets {
		made, ended := h.made(id)
		nc, nd := 0, 0
		for _, e := range x.events() {
			if e.a != id {
				continue
			}
			if e.kind == "connect" {
				nc++
				if e.n == 0 && made == 1 && ended == 0 {
					h.fail("C10", "not-reachable", "%s was not reachable when its connection was notified", id)
				}
			} else if e.kind == "disconnect" {
				nd++
				if nd > nc {
					h.fail("C10", "order", "the disconnection of %s was notified before its connection", id)
				}
			}
		}
		if nc != made {
			h.fail("C10", "connects", "%d connection notifications for %s after %d connections", nc, id, made)
		}
		if nd != ended {
			h.fail("C10", "disconnects", "%d disconnection notifications for %s after %d ended connections", nd, id, ended)
		}
		live := len(h.live(id))
		// wait channels
		wc, wd := h.csys.WaitConnect(id), h.csys.WaitDisconnect(id)
		if got := closedNow(wc); got != (live > 0) {
			h.fail("C11", "wait-connect", "WaitConnect(%s) is done: %v with %d live connections", id, got, live)
		}
		if got := closedNow(wd); got != (live == 0) {
			h.fail("C11", "wait-disconnect", "WaitDisconnect(%s) is done: %v with %d live connections", id, got, live)
		}
		h.wc = append(h.wc, chanRec{id, wc, ended, made, live})
		h.wd = append(h.wd, chanRec{id, wd, ended, made, live})
		for _, c := range h.wc {
			if c.id == id && c.live == 0 {
				if got, want := closedNow(c.ch), made > c.nConns; got != want {
					h.fail("C11", "wait-connect-old", "a WaitConnect(%s) obtained while disconnected is done: %v although %d connections were made since", id, got, made-c.nConns)
				}
			}
		}
		for _, c := range h.wd {
			if c.id != id || c.live == 0 {
				continue
			}
			if live == 0 && !closedNow(c.ch) {
				h.fail("C11", "wait-disconnect-missed", "a WaitDisconnect(%s) obtained while connected is still open although every connection ended", id)
			}
			if ended == c.nEnded && closedNow(c.ch) {
				h.fail("C11", "wait-disconnect-early", "a WaitDisconnect(%s) obtained while connected is done although no connection ended", id)
			}
		}
		// routing
		svc, err := h.csys.GetServiceOf(id, ocpp.V16, "")
		if live == 0 {
			if err == nil || svc != nil {
				h.fail("C09", "ghost", "GetServiceOf(%s) succeeded although no connection is open", id)
			}
			continue
		}
		if err != nil || svc == nil {
			h.fail("C09", "unroutable", "GetServiceOf(%s) failed although %d connections are open: %v", id, live, err)
			continue
		}
		h.nKey++
		op := goSendCP(svc, &csreq.GetConfiguration{Key: []string{itoa(h.nKey)}})
		x.Settle()
		h.routed(op, id)
	}
	// services of ended connections
	for i, c := range h.conns {
		if c.svc != nil && c.ended {
			op := goSendCP(c.svc, &csreq.GetConfiguration{Key: []string{"x"}})
			x.Settle()
			if !op.isDone() || op.err == nil {
				h.fail("C09", "dead-service", "a service of the ended connection %d of %s: done %v, err %v", i, c.id, op.isDone(), short(op.err))
			}
			c.svc = nil
		}
	}
	// metadata of a request over every live connection
	for i, c := range h.conns {
		if c.ended {
			if !c.p.closed() {
				x.Advance(time.Second)
			}
			continue
		}
		if c.p.closed() {
			h.fail("C09", "closed", "the central system closed connection %d of %s", i, c.id)
			continue
		}
		h.nReq++
		before := len(c.p.texts())
		c.p.sendText(fmt.Sprintf(`[2,"r%d","StartTransaction",{"connectorId":1,"idTag":"T","meterStart":%d,"timestamp":"2020-01-01T00:00:00Z"}]`, h.nReq, h.nReq))
		x.Settle()
		x.Sync()
		var ev *event
		n := 0
		for j := range x.events() {
			e := &x.events()[j]
			if e.kind == "handle" {
				n++
				ev = e
			}
		}
		if n != h.nHand+1 {
			h.fail("C12", "handled", "the handler was called %d times for one request of %s", n-h.nHand, c.id)
			h.nHand = n
			continue
		}
		h.nHand = n
		if ev.a != c.id || ev.b != h.metaOf(c) || ev.n != int64(h.nReq) {
			h.fail("C12", "metadata", "a request of %s (%s) was handled as one of %q with the HTTP request %q", c.id, h.metaOf(c), ev.a, ev.b)
		}
		t := c.p.msgs()
		if len(t) != before+1 || t[len(t)-1].ID != "r"+itoa(h.nReq) || field(t[len(t)-1].Payload, "transactionId") != itoa(h.nReq) {
			h.fail("C12", "answer", "the request of connection %d of %s was not answered on its connection", i, c.id)
		}
	}
	// the page
	ids := 0
	for _, id := range h.sets {
		if len(h.live(id)) > 0 {
			ids++
		}
	}
	code, body := httpGet(x, "9000", "/")
	if code != 200 || !strings.Contains(body, fmt.Sprintf("connected with %d OCPP-J", ids)) {
		h.fail("C27", "page", "status %d, %q with %d connected charge points", code, body, ids)
	}
}

func (h *connHist) routed(op *sendOp, id string) {
	if !op.isDone() {
		h.fail("C09", "no-answer", "a Send to %s over its open connection did not return", id)
		return
	}
	if op.err != nil {
		h.fail("C09", "send-error", "a Send to %s failed although a connection is open: %v", id, short(op.err))
		return
	}
	r, ok := op.resp.(*csresp.GetConfiguration)
	if !ok || len(r.UnknownKey) != 2 {
		h.fail("C09", "response", "a Send to %s returned %T", id, op.resp)
		return
	}
	if r.UnknownKey[0] != id {
		h.fail("C09", "misrouted", "a Send to %s was answered by %s", id, r.UnknownKey[0])
	}
}

// httpGet does a plain GET over the simulated network.
func httpGet(x *X, port, path string) (int, string) {
	return httpRaw(x, port, "GET "+path+" HTTP/1.1\r\nHost: cs\r\nConnection: close\r\n\r\n")
}

// httpRaw sends raw bytes and returns status and body (with headers stripped).
func httpRaw(x *X, port, req string) (int, string) {
	code, _, body := httpRawH(x, port, req)
	return code, body
}

func httpRawH(x *X, port, req string) (int, string, string) {
	nc, err := simDial(nil, "tcp", "sim:"+port)
	if err != nil {
		return -1, "", err.Error()
	}
	defer nc.Close()
	nc.Write([]byte(req))
	var sb strings.Builder
	buf := make([]byte, 4096)
	for {
		n, err := nc.Read(buf)
		sb.Write(buf[:n])
		if err != nil {
			break
		}
	}
	s := sb.String()
	i := strings.Index(s, "\r\n\r\n")
	if i < 0 {
		return 0, "", s
	}
	f := strings.Fields(s[:i])
	code := 0
	if len(f) > 1 {
		for _, c := range f[1] {
			code = code*10 + int(c-'0')
		}
	}
	return code, s[:i], s[i+4:]
}

func (h *connHist) note() {
	for _, id := range h.sets {
		if l := h.live(id); len(l) > 0 {
			if c := l[len(l)-1]; c.svc == nil {
				c.svc, _ = h.csys.GetServiceOf(id, ocpp.V16, "")
			}
		}
	}
}

// step performs one operation; pick chooses.
func (h *connHist) step(maxLive int) bool {
	type op struct {
		name string
		do   func()
	}
	var menu []op
	menu = append(menu, op{"stop", nil})
	for _, id := range h.sets {
		id := id
		l := h.live(id)
		if len(l) < maxLive {
			menu = append(menu, op{"connect " + id, func() { h.connect(id) }})
		}
		for i := range l {
			for how, name := range []string{"websocket close", "TCP close", "reset"} {
				if how == 2 && i > 0 {
					continue
				}
				c, how := l[i], how
				menu = append(menu, op{fmt.Sprintf("%s of connection %d of %s (%d open)", name, i, id, len(l)), func() { h.end(c, how) }})
			}
		}
	}
	o := menu[runtime.McChoose(len(menu))]
	if o.do == nil {
		return false
	}
	h.trace = append(h.trace, o.name)
	o.do()
	h.x.Advance(10 * time.Millisecond)
	h.quiet()
	h.note()
	return h.fails == 0
}

func (h *connHist) finish() {
	x := h.x
	x.Outcome("%s", strings.Join(h.trace, ";"))
	if h.fails > 0 {
		return
	}
	for _, c := range h.conns {
		c.p.c.Close()
	}
	sn.closeAll()
	x.Advance(5 * time.Minute)
	if l := leaks(); len(l) > 0 {
		h.fail("C08", "leak", "%d goroutines of the library left after every connection ended: %v", len(l), l)
	}
}

func init() {
	props := []string{"C08", "C09", "C10", "C11", "C12", "C27"}
	hist := func(depth, maxLive int, ids ...string) func(x *X) {
		return func(x *X) {
			h := newConnHist(x, ids...)
			h.trace = append(h.trace, "start")
			h.quiet()
			for i := 0; i < depth; i++ {
				if !h.step(maxLive) {
					break
				}
			}
			h.finish()
		}
	}
	reg(&Scenario{ID: "conn-hist-6", Props: props, Hist: true, Quick: 0, Thorough: -1,
		Desc: "every history of 6 connects, websocket closes, TCP closes and resets of two charge points with up to two open connections each; after every step routing, notifications, wait channels, metadata and the status page are compared with the model",
		Run:  hist(6, 2, "cpA", "cpB")})
	reg(&Scenario{ID: "conn-hist-8", Props: props, Hist: true, Quick: -1, Thorough: 0,
		Desc: "every history of 8 connection operations of two charge points with up to two open connections each",
		Run:  hist(8, 2, "cpA", "cpB")})
	reg(&Scenario{ID: "conn-hist-one-7", Props: props, Hist: true, Quick: 0, Thorough: -1,
		Desc: "every history of 7 connection operations of one charge point with up to three open connections",
		Run:  hist(7, 3, "cpA")})
	reg(&Scenario{ID: "conn-hist-one-9", Props: props, Hist: true, Quick: -1, Thorough: 0,
		Desc: "every history of 9 connection operations of one charge point with up to three open connections",
		Run:  hist(9, 3, "cpA")})
	reg(&Scenario{ID: "conn-hist-three-5", Props: props, Hist: true, Quick: 0, Thorough: 0,
		Desc: "every history of 5 connection operations of three charge points with up to two open connections each",
		Run:  hist(5, 2, "cpA", "cpB", "cp")})

	// two or three operations at the same time
	type cop struct {
		name string
		do   func(h *connHist)
	}
	pre := []string{"", "A", "AA", "AB"}
	ops := map[string][][]cop{}
	_ = ops
	conn := func(id string) cop { return cop{"connect " + id, func(h *connHist) { h.connect(id) }} }
	endN := func(i, how int) cop {
		return cop{fmt.Sprintf("end %d/%d", i, how), func(h *connHist) { h.end(h.conns[i], how) }}
	}
	combos := []struct {
		pre string
		ops []cop
	}{
		{"", []cop{conn("cpA"), conn("cpA")}},
		{"", []cop{conn("cpA"), conn("cpB")}},
		{"A", []cop{conn("cpA"), endN(0, 1)}},
		{"A", []cop{endN(0, 0), conn("cpB")}},
		{"AA", []cop{endN(0, 1), endN(1, 1)}},
		{"AA", []cop{endN(0, 0), endN(1, 2)}},
		{"AB", []cop{endN(0, 1), endN(1, 1)}},
		{"AA", []cop{endN(1, 1), conn("cpA")}},
		{"", []cop{conn("cpA"), conn("cpA"), conn("cpA")}},
	}
	_ = pre
	for i, c := range combos {
		c := c
		var names []string
		for _, o := range c.ops {
			names = append(names, o.name)
		}
		qb := 1
		if i == 0 || i == 2 || i == 4 {
			qb = 2
		}
		if len(c.ops) > 2 {
			qb = 1
		}
		reg(&Scenario{ID: fmt.Sprintf("conn-par-%d", i), Props: append([]string{"C05"}, props...), Quick: qb, Thorough: qb + 1,
			Desc: fmt.Sprintf("concurrently: %s, with [%s] connected before; the central system is compared with the model afterwards", strings.Join(names, " || "), c.pre),
			Run: func(x *X) {
				h := newConnHist(x, "cpA", "cpB")
				for _, r := range c.pre {
					h.connect("cp" + string(r))
					x.Settle()
				}
				h.trace = append(h.trace, "["+c.pre+"] "+strings.Join(names, " || "))
				x.Explore(true)
				for _, o := range c.ops {
					o := o
					go o.do(h)
				}
				x.Advance(10 * time.Millisecond)
				x.Explore(false)
				x.Advance(time.Second)
				h.quiet()
				h.finish()
			}})
	}
	// a connection that ends while it is being set up and while a request is handled
	reg(&Scenario{ID: "conn-blink", Props: append([]string{"C05"}, props...), Quick: 2, Thorough: 3,
		Desc: "a charge point connects and its connection ends at once, under every schedule within the bound",
		Run: func(x *X) {
			h := newConnHist(x, "cpA", "cpB")
			x.Explore(true)
			if c := h.connect("cpA"); c != nil {
				h.end(c, 1)
			}
			x.Advance(10 * time.Millisecond)
			x.Explore(false)
			x.Advance(time.Second)
			h.trace = append(h.trace, "connect and end at once")
			h.quiet()
			h.finish()
		}})
	// readers of the connection table while it changes
	reg(&Scenario{ID: "conn-readers", Props: append([]string{"C05"}, props...), Quick: 2, Thorough: 3,
		Desc: "GetServiceOf, WaitConnect, WaitDisconnect and the status page while a charge point reconnects",
		Run: func(x *X) {
			h := newConnHist(x, "cpA", "cpB")
			h.connect("cpA")
			x.Settle()
			x.Explore(true)
			go func() {
				svc, err := h.csys.GetServiceOf("cpA", ocpp.V16, "")
				if err == nil {
					svc.Send(&csreq.GetConfiguration{Key: []string{"r"}})
				}
			}()
			go func() {
				h.csys.WaitConnect("cpA")
				h.csys.WaitDisconnect("cpA")
			}()
			go h.end(h.conns[0], 1)
			x.Settle()
			h.connect("cpA")
			x.Advance(10 * time.Millisecond)
			x.Explore(false)
			x.Advance(time.Second)
			h.quiet()
			h.finish()
		}})
	// listeners that are replaced while charge points connect and leave
	reg(&Scenario{ID: "conn-listeners", Props: []string{"C05", "C10"}, Hist: true, Quick: 1, Thorough: 2,
		Desc: "the listeners are replaced while charge points connect and leave: one of them gets each notification",
		Run: func(x *X) {
			csys := startCS(x, nopCS(x))
			note := func(kind string) func(string) { return func(id string) { x.Log(kind, id, "", 0) } }
			csys.SetChargePointConnectionListener(note("connect"))
			csys.SetChargePointDisconnectionListener(note("disconnect"))
			what := pick(4)
			p := connectPeer(x, "cpA")
			x.Settle()
			x.Explore(true)
			go func() {
				if what&1 != 0 {
					csys.SetChargePointDisconnectionListener(note("disconnect"))
				}
				csys.SetChargePointConnectionListener(note("connect"))
				if what&2 != 0 {
					csys.SetChargePointDisconnectionListener(note("disconnect"))
				}
			}()
			go p.c.Close()
			o := connectPeer(x, "cpB")
			x.Settle()
			x.Explore(false)
			if n, m := x.count("connect", ""), x.count("disconnect", ""); n != 2 || m != 1 {
				x.Fail("C10", "replaced", "%d and %d notifications of 2 connections and 1 disconnection while the listeners were replaced", n, m)
			}
			o.c.Close()
			x.Settle()
			if n, m := x.count("connect", ""), x.count("disconnect", ""); n != 2 || m != 2 {
				x.Fail("C10", "replaced-after", "%d and %d notifications of 2 connections and 2 disconnections after the listeners were replaced", n, m)
			}
		}})
}
