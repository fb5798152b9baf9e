//go:build go1.22

package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
)

// closeCodes: the connection of a charge point ends by every kind of close
// frame; it dials again at once.
func closeCodes(x *X, few bool) {
	var codes []int
	for c := 998; c <= 1016; c++ {
		codes = append(codes, c)
	}
	codes = append(codes, -1, 0, 1, 999, 2000, 2999, 3000, 3001, 3999, 4000, 4001, 4100, 4999, 5000, 65535)
	reasons := []string{"", "bye", "policy violation", strings.Repeat("r", 123), "\xff\xfe"}
	rounds := 2
	if few {
		codes = []int{-1, 1000, 1001, 1002, 1003, 1008, 1011, 1012, 4000}
		reasons = reasons[1:2]
		rounds = 1
	}
	code := codes[pick(len(codes))]
	reason := reasons[pick(len(reasons))]
	then := pick(3) // the TCP connection: closed at once; later; left to the other side
	srv := listenPeer(x, "9001")
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	c, err := startCP(x, ctx, "cp-"+strings.Repeat("long", 6), "9001", func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		x.Log("handle", "", "", 0)
		return &csresp.ClearCache{Status: "Accepted"}, nil
	})
	if err != nil {
		x.Setup("cp.New: %v", err)
		return
	}
	what := fmt.Sprintf("a close frame of code %d, reason %.10q", code, reason)
	for round := 1; round <= rounds; round++ {
		x.cases++
		p := srv.last()
		op := goSendCS(c, &cpreq.Heartbeat{})
		x.Settle()
		nd := len(sn.dials)
		var b []byte
		if code >= 0 {
			b = append([]byte{byte(code >> 8), byte(code)}, reason...)
		}
		x.Explore(few)
		if few {
			// the charge point is busy when the frame arrives
			p.sendText(`[2,"b","ClearCache",{}]`)
		}
		p.sendFrame(8, true, b)
		if then == 0 {
			p.c.Close()
		}
		if then == 1 {
			x.Advance(time.Second)
			p.c.Close()
		}
		x.Advance(2 * time.Second)
		x.Explore(false)
		if !op.isDone() || op.err == nil {
			x.Fail("C13", "code-send", "a Send that was pending when the connection ended by %s: done %v, error %v", what, op.isDone(), short(op.err))
		}
		if len(sn.dials) != nd+1 || !closedNow(c.WaitConnect()) || srv.last() == p {
			x.Fail("C13", "code-redial", "2 s after %s: %d dials, connected: %v", what, len(sn.dials)-nd, closedNow(c.WaitConnect()))
			return
		}
		if got := srv.last().path; got != p.path {
			x.Fail("C13", "code-identity", "after %s the charge point dialled %q instead of %q", what, got, p.path)
		}
		p = srv.last()
		o2 := goSendCS(c, &cpreq.Heartbeat{})
		x.Settle()
		if cl := callsOf(p); len(cl) != 1 {
			x.Fail("C13", "code-after", "after %s a Send sent %d calls", what, len(cl))
			return
		} else {
			p.sendText(fmt.Sprintf(`[3,%s,{"currentTime":"2020-01-01T00:00:00Z"}]`, q(cl[0].ID)))
		}
		p.sendText(`[2,"c","ClearCache",{}]`)
		x.Settle()
		if !o2.isDone() || o2.err != nil || len(repliesOf(p)) != 1 || !few && x.count("handle", "") != round {
			x.Fail("C13", "code-after", "after %s: a Send: done %v, error %v; a call was answered %d times", what, o2.isDone(), short(o2.err), len(repliesOf(p)))
		}
	}
}

// listenerOrder: a connection listener that takes long, of a connection that
// ends meanwhile.
func listenerOrder(x *X) {
	T := []float64{0.01, 1, 31, 59, 61, 600, 20000}[pick(7)]
	end := []float64{0, 0.5, 2}[pick(3)]
	again := pick(3) // the identity connects again: never, before or after its listener returned
	inside := pick(6)
	var csys cs.CentralSystem
	n := map[string]int{}
	slow := true
	csys = startCSOn(x, "9000", echoCS(x, nil), func(c cs.CentralSystem) {
		c.SetChargePointDisconnectionListener(func(id string) {
			x.Log("disconnect", id, "", 0)
			// what a listener may do
			c.GetServiceOf(id, ocpp.V16, "")
			c.WaitConnect(id)
		})
		c.SetChargePointConnectionListener(func(id string) {
			n[id]++
			x.Log("connect", id, "", 0)
			switch inside {
			case 1:
				c.GetServiceOf(id, ocpp.V16, "")
			case 2:
				c.WaitConnect(id)
				c.WaitDisconnect(id)
			case 3:
				if id == "cpB" {
					svc, err := c.GetServiceOf(id, ocpp.V16, "")
					if err == nil {
						_, err = svc.Send(&csreq.GetConfiguration{Key: []string{"k"}})
					}
					if err != nil {
						x.Log("inside", id, err.Error(), 0)
					}
				}
			case 4:
				c.SetChargePointConnectionListener(func(id string) { x.Log("connect", id, "", 0); x.Log("returned", id, "", 0) })
			case 5:
				<-c.WaitConnect(id)
			}
			if slow && id == "cpA" && n[id] == 1 {
				time.Sleep(sec(T))
			}
			x.Log("returned", id, "", 0)
		})
	})
	what := fmt.Sprintf("the connection listener takes %.2f s, the connection ends after %.1f s (again %d, inside %d)", T, end, again, inside)
	x.cases++
	bad := func(key, f string, a ...interface{}) {
		x.Fail("C10", "order:"+key, "%s: %s", what, fmt.Sprintf(f, a...))
	}
	p := connectPeer(x, "cpA")
	x.Advance(sec(end))
	p.c.Close()
	x.Settle()
	wantD := 0
	at := end + 0.002
	if at > T {
		wantD = 1
	}
	check := func(when string, c, d int) bool {
		x.Sync()
		if x.count("connect", "cpA") != c || x.count("disconnect", "cpA") != d {
			bad("count", "%s: notified of %d connections and %d disconnections instead of %d and %d", when, x.count("connect", "cpA"), x.count("disconnect", "cpA"), c, d)
			return false
		}
		return true
	}
	if T != 0.01 || end > 0 {
		if !check("after the end", 1, wantD) {
			return
		}
	}
	made, ended := 1, 1
	if again == 1 && T > 1 && end < T {
		p2 := connectPeer(x, "cpA")
		x.Settle()
		p2.c.Close()
		x.Settle()
		made, ended = 2, 2
		if inside != 5 {
			if !check("after another connection of it", 2, wantD+1) {
				return
			}
		}
	}
	// somebody else
	b := dialPeer(x, "cpB", "9000", "/cpB", "ocpp1.6")
	if b == nil || b.status != 101 {
		bad("other", "another charge point cannot connect")
		return
	}
	b.name = "cpB"
	b.onText = func(p *wsPeer, msg []byte) {
		if o := parseMsg(string(msg)); o.Type == 2 {
			p.sendText(fmt.Sprintf(`[3,%s,{"unknownKey":["cpB"]}]`, q(o.ID)))
		}
	}
	b.start()
	x.Settle()
	x.Advance(10 * time.Millisecond)
	if e := serves(x, csys, b, "cpB", 5); e != "" && inside != 3 {
		bad("other", "another charge point is not served: %s", e)
	}
	b.c.Close()
	x.Settle()
	if x.count("connect", "cpB") != 1 || x.count("disconnect", "cpB") != 1 {
		bad("other", "notified of %d connections and %d disconnections of another charge point", x.count("connect", "cpB"), x.count("disconnect", "cpB"))
	}
	if e := x.find("inside", ""); e != nil {
		bad("inside", "a Send of the listener: %s", e.b)
	}
	now := at + 0.02
	if T > now+2 {
		x.Advance(sec(T - now - 1))
		if inside != 5 && !check("a second before the listener returns", made, ended-1) {
			return
		}
		if inside == 5 && x.count("disconnect", "cpA") > ended-1 {
			bad("early", "notified of %d disconnections before the connection listener returned", x.count("disconnect", "cpA"))
		}
	}
	x.Advance(3 * time.Second)
	if !check("after the listener returned", made, ended) {
		return
	}
	if again == 2 {
		p3 := connectPeer(x, "cpA")
		x.Settle()
		if !check("connected again", made+1, ended) {
			return
		}
		p3.c.Close()
		x.Settle()
		check("ended again", made+1, ended+1)
	}
	// in order: every disconnection after a return
	ret, dis := 0, 0
	for i := range x.events() {
		switch e := &x.events()[i]; {
		case e.kind == "returned" && e.a == "cpA":
			ret++
		case e.kind == "disconnect" && e.a == "cpA":
			if dis++; dis > ret {
				bad("before", "disconnection %d was notified before the connection listeners returned", dis)
			}
		}
	}
}

// soapHeaders: valid requests with unusual headers are answered.
func soapHeaders(x *X) {
	k := soapKinds[pick(len(soapKinds))]
	l := newSoapLink(x, "cp1")
	if l == nil {
		return
	}
	rq := newBase(func() interface{} { return k.Req() }, k.XReq, true)
	rs := newBase(func() interface{} { return k.Resp() }, k.XResp, true).(messages.Response)
	elem := soapElem(k, rq, false, 0)
	good := soapEnvelope(elem, soapHeader(k, "cp1", "http://h/"), 0)
	env := func(head string) string {
		return `<?xml version="1.0" encoding="UTF-8"?><S:Envelope xmlns:S="http://www.w3.org/2003/05/soap-envelope">` + head + `<S:Body>` + elem + `</S:Body></S:Envelope>`
	}
	for i, h := range []string{"", "<S:Header/>", "<S:Header></S:Header>", `<S:Header xmlns:o="urn:o"><o:other>x</o:other></S:Header>`, `<S:Header><chargeBoxIdentity/></S:Header>`,
		`<S:Header xmlns:o="urn:o"><o:chargeBoxIdentity>zzz</o:chargeBoxIdentity></S:Header>`, `<S:Header/><S:Header/>`, "<!-- no header -->"} {
		x.cases++
		ex, r := l.post(k, env(h), rs, nil)
		if !r.ok {
			x.Fail("C18", "header:answer", "%s with the header %q was not answered: %s", k.Action, h, r.err)
		} else if ex.handled > 1 || ex.handled == 0 && r.status < 400 {
			if _, f := isFault(r.body); !f {
				x.Fail("C18", "header:handled", "%s with the header %q was handled %d times and answered by %d %s", k.Action, h, ex.handled, r.status, r.body)
			}
		}
		ex, r = l.post(k, good, rs, nil)
		if ex.handled != 1 || r.status != 200 {
			x.Fail("C18", "header:after", "%s: a valid request after case %d is not handled any more: %d %s", k.Action, i, r.status, r.body)
			return
		}
	}
}

// soapBig: long values.
func soapBig(x *X) {
	l := newSoapLink(x, "cp1")
	if l == nil {
		return
	}
	bits := 5 + pick(17)
	for d := -2; d <= 2; d++ {
		n := 1<<bits + d
		x.cases++
		text := strings.Repeat("x&", n/2-1) + "yz"
		k := soapKindOf("DataTransfer")
		for _, k = range soapKinds {
			if k.Action == "DataTransfer" {
				break
			}
		}
		var rq messages.Request = &csreq.DataTransfer{VendorId: "v", MessageId: "m", Data: text}
		var rs messages.Response = &csresp.DataTransfer{Status: "Accepted", Data: text + "!"}
		if k.FromCP {
			rq, rs = &cpreq.DataTransfer{VendorId: "v", MessageId: "m", Data: text}, &cpresp.DataTransfer{Status: "Accepted", Data: text + "!"}
		}
		check := func(k *msgKind, rq messages.Request, rs messages.Response) bool {
			ex := l.do(k, rq, rs, nil)
			switch {
			case ex.err != nil || ex.handled != 1:
				x.Fail("C16", "big", "%s with a value of %d bytes: handled %d times, error %v", k.Action, n, ex.handled, short(ex.err))
			case msgDiff(rq, ex.gotReq, false) != "":
				x.Fail("C16", "big-request", "%s with a value of %d bytes was received changed", k.Action, n)
			case msgDiff(rs, ex.gotResp, false) != "":
				x.Fail("C16", "big-response", "%s: a response with a value of %d bytes was received changed", k.Action, n)
			default:
				return true
			}
			return false
		}
		if !check(k, rq, rs) {
			return
		}
		// many elements
		m := n / 64
		if m == 0 || m > 8192 {
			continue
		}
		gc := &csreq.GetConfiguration{}
		gr := &csresp.GetConfiguration{}
		for i := 0; i < m; i++ {
			gc.Key = append(gc.Key, "key "+itoa(i))
			gr.UnknownKey = append(gr.UnknownKey, "key "+itoa(i))
		}
		if g := soapKindOf("GetConfiguration"); g != nil && !check(g, gc, gr) {
			return
		}
	}
	_ = errors.New
}

func init() {
	reg(&Scenario{ID: "cp-close-codes", Props: []string{"C13"}, Hist: true,
		Desc: "a charge point whose connection ends by a close frame of every code, with five reasons, in three ways, twice", Run: func(x *X) { closeCodes(x, false) }})
	reg(&Scenario{ID: "cp-close-codes-1", Props: []string{"C13"},
		Desc: "a charge point whose connection ends by one of nine close frames, in three ways; schedules", Run: func(x *X) { closeCodes(x, true) }})
	reg(&Scenario{ID: "listener-order", Props: []string{"C10"}, Hist: true,
		Desc: "connection listeners of seven durations whose connection ends at three times, with another connection before or after, that call the central system in five ways", Run: listenerOrder})
	reg(&Scenario{ID: "soap-headers", Props: []string{"C18"}, Hist: true,
		Desc: "valid requests of every action with eight unusual headers, or none, are answered", Run: soapHeaders})
	reg(&Scenario{ID: "scale-big-soap", Props: []string{"C16"}, Hist: true,
		Desc: "values and lists of sizes around every power of two up to 2 MB over SOAP, request and response", Run: soapBig})
}
