//go:build go1.22

package main

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
)

// C08: the same thing again and again while the charge point or the central
// system lives on. The number of goroutines of the library stays the same.

type growthKind struct {
	name  string
	setup func(x *X) func(i int) // the returned function is one round
}

func growthOK(r cpreq.ChargePointRequest, _ cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
	if _, ok := r.(*cpreq.Heartbeat); ok {
		return &cpresp.Heartbeat{CurrentTime: t0}, nil
	}
	return nil, errors.New("refused")
}

func growthCP(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
	if _, ok := r.(*csreq.ClearCache); ok {
		return &csresp.ClearCache{Status: "Accepted"}, nil
	}
	return nil, errors.New("refused")
}

func growthLoss(how int, plan ...int) func(x *X) func(i int) {
	return func(x *X) func(i int) {
		r := newCPRun(x, "cp1")
		if r == nil {
			return nil
		}
		return func(i int) {
			r.s.usePlan(func(n int) int {
				if n < len(plan) {
					return plan[n]
				}
				return srvOK
			})
			p := r.s.last()
			if how < 0 {
				r.c.Connection().Close()
				x.Settle()
			} else {
				r.lose(p, how)
				p.onText = answerCall
			}
			x.Advance(5*time.Second + 100*time.Millisecond)
			for _, h := range plan {
				x.Advance(sec(srvTime(h)) + 5*time.Second)
			}
			x.Advance(4 * time.Second)
			p.c.Close()
			r.works("C08,C13")
		}
	}
}

func growthKinds() []growthKind {
	ks := []growthKind{}
	for how := range lossNames {
		ks = append(ks, growthKind{"a charge point loses its connection (" + lossNames[how] + ") and reconnects", growthLoss(how)})
	}
	ks = append(ks, growthKind{"the application closes the connection of a charge point, which reconnects", growthLoss(-1)})
	for how := srvOK + 1; how < srvKinds; how++ {
		ks = append(ks, growthKind{"a charge point loses its connection, the central system " + srvNames[how] + " once", growthLoss(3, how)})
	}
	for how := srvOK; how < srvOKClose; how++ {
		how := how
		ks = append(ks, growthKind{"a new charge point, the central system " + srvNames[how] + "; its context is cancelled", func(x *X) func(i int) {
			s := listenPeer(x, "9001")
			s.onText = answerCall
			s.usePlan(func(int) int { return how })
			return func(i int) {
				ctx, cancel := context.WithCancel(context.Background())
				done := false
				go func() {
					c, err := cp.New(ctx, "cp1", "ws://sim:9001", ocpp.V16, ocpp.JSON, nil, growthCP)
					if (err == nil) != (how == srvOK) {
						x.Fail("C13", "growth:new", "the central system %s: New returned %v", srvNames[how], err)
					}
					_ = c
					done = true
				}()
				x.Advance(time.Second + sec(srvTime(how)))
				if !done {
					x.Fail("C13", "growth:new", "the central system %s: New did not return", srvNames[how])
				}
				cancel()
				x.Advance(time.Second)
				for _, c := range sn.conns {
					c.Close()
				}
				sn.conns = sn.conns[:0]
				x.Settle()
			}
		}})
	}
	upgrade := func(name, head string) {
		ks = append(ks, growthKind{"a central system receives " + name, func(x *X) func(i int) {
			startCS(x, growthOK)
			return func(i int) {
				httpRaw(x, "9000", head)
				x.Settle()
			}
		}})
	}
	upgrade("requests of the status page", "GET / HTTP/1.1\r\nHost: cs\r\nConnection: close\r\n\r\n")
	upgrade("upgrades without a key", "GET /a HTTP/1.1\r\nHost: cs\r\nConnection: Upgrade, close\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\n\r\n")
	upgrade("upgrades of another version", "GET /a HTTP/1.1\r\nHost: cs\r\nConnection: Upgrade, close\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 8\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n")
	upgrade("empty SOAP requests", soapPost("/", ""))
	upgrade("SOAP requests", soapPost("/", `<Envelope xmlns="`+nsSOAP+`"><Body><heartbeatRequest xmlns="urn://Ocpp/Cs/2012/06/"/></Body></Envelope>`))
	upgrade("SOAP requests that are refused", soapPost("/", `<Envelope xmlns="`+nsSOAP+`"><Body><authorizeRequest xmlns="urn://Ocpp/Cs/2012/06/"><idTag>x</idTag></authorizeRequest></Body></Envelope>`))
	upgrade("SOAP requests of the other role", soapPost("/", `<Envelope xmlns="`+nsSOAP+`"><Body><clearCacheRequest xmlns="urn://Ocpp/Cp/2012/06/"/></Body></Envelope>`))
	upgrade("requests that are no XML", soapPost("/", `{"a":1}`))
	ks = append(ks, growthKind{"a central system is asked for services and channels, and told of listeners", func(x *X) func(i int) {
		csys := startCS(x, growthOK)
		p := connectPeer(x, "a")
		if p == nil {
			return nil
		}
		return func(i int) {
			for _, id := range []string{"a", "b", "c" + itoa(i)} {
				csys.GetServiceOf(id, ocpp.V16, "")
				csys.GetServiceOf(id, ocpp.V15, "http://sim:9100")
				csys.WaitConnect(id)
				csys.WaitDisconnect(id)
			}
			csys.SetChargePointConnectionListener(func(string) {})
			csys.SetChargePointDisconnectionListener(func(string) {})
			x.Settle()
		}
	}})
	ks = append(ks, growthKind{"a charge point is asked for its channels", func(x *X) func(i int) {
		r := newCPRun(x, "cp1")
		if r == nil {
			return nil
		}
		return func(i int) {
			r.c.WaitConnect()
			r.c.WaitDisconnect()
			r.c.Connection()
			x.Settle()
		}
	}})
	for how, name := range []string{"are answered", "are refused", "go to a closed port", "are not answered"} {
		how := how
		ks = append(ks, growthKind{"Sends of a SOAP charge point and to it that " + name, func(x *X) func(i int) {
			if how < 2 {
				startCS(x, growthOK)
			}
			csys := cs.New()
			c, _, err := startSoapCP(x, "cp1", "http://sim:9000", ":9100", growthCP)
			if err != nil {
				x.Setup("cp.New: %v", err)
				return nil
			}
			var l *simListener
			url := "http://sim:9100"
			if how >= 2 {
				url = "http://sim:9000"
			}
			if how == 3 {
				nl, _ := simListen(nil, "tcp", ":9000")
				l = nl.(*simListener)
			}
			svc, err := csys.GetServiceOf("cp1", ocpp.V15, url)
			if err != nil {
				x.Setup("GetServiceOf: %v", err)
				return nil
			}
			return func(i int) {
				var a, b *sendOp
				if how == 1 {
					a, b = goSendCS(c, &cpreq.Authorize{IdTag: "x"}), goSendCP(svc, &csreq.Reset{Type: "Soft"})
				} else {
					a, b = goSendCS(c, &cpreq.Heartbeat{}), goSendCP(svc, &csreq.ClearCache{})
				}
				x.Settle()
				if l != nil {
					x.Advance(61 * time.Second)
				}
				for _, o := range []*sendOp{a, b} {
					if !o.isDone() || (o.err == nil) != (how == 0) {
						x.Fail("C16,C18", "growth:send", "round %d: a Send: done %v, error %v", i, o.isDone(), short(o.err))
					}
				}
				for _, k := range sn.conns {
					k.Close()
				}
				sn.conns = sn.conns[:0]
				x.Settle()
			}
		}})
	}
	ks = append(ks, growthKind{"a SOAP charge point is started and cancelled", func(x *X) func(i int) {
		return func(i int) {
			_, cancel, err := startSoapCP(x, "cp1", "http://sim:9000", ":9100", growthCP)
			if err != nil {
				x.Setup("cp.New: %v", err)
				return
			}
			if code, _ := httpRaw(x, "9100", soapPost("/", `{}`)); code < 400 {
				x.Fail("C18", "growth:soap", "answered by %d", code)
			}
			cancel()
			x.Advance(time.Second)
		}
	}})
	return ks
}

var nGrowth = len(growthKinds())

func growth(x *X, n int) {
	k := growthKinds()[pick(nGrowth)]
	round := k.setup(x)
	if round == nil {
		return
	}
	x.Settle()
	g0 := 0
	for i := 0; i < n; i++ {
		round(i)
		if len(x.viols) > 0 {
			return
		}
		x.forget()
		x.cases++
		if i == 3 {
			x.Settle()
			g0 = len(leaks())
		}
	}
	x.Settle()
	if l := leaks(); len(l) >= g0+n/2 {
		x.Fail("C08", "growth", "%s: %d goroutines of the library after 4 times, %d after %d: %s", k.name, g0, len(l), n, fmt.Sprint(l[:3]))
	}
}

// slowDial: the central system takes its time to accept the charge point again.
// Sends made meanwhile end in time, and the charge point can be asked for its
// channels.
func slowDial(x *X) {
	r := newCPRun(x, "cp1")
	if r == nil {
		return
	}
	ds := []float64{0.5, 5, 30, 55, 59}
	d := ds[pick(len(ds))]
	loss := []int{0, 2, 3, 7}[pick(4)]
	answers := pick(2) == 1
	r.trace = append(r.trace, fmt.Sprintf("the connection is lost by %s; the upgrade takes %v s, requests are answered: %v", lossNames[loss], d, answers))
	r.s.delay = time.Duration(d * float64(time.Second))
	r.s.onText = nil
	if answers {
		r.s.onText = answerCall
	}
	r.lose(r.s.last(), loss)
	ats := []float64{0.1, d / 2, d - 0.2, d + 0.2, d + 1}
	var ops []*sendOp
	now := 0.0
	for _, at := range ats {
		if at > now {
			x.Advance(time.Duration((at - now) * float64(time.Second)))
			now = at
		}
		ops = append(ops, goSendCS(r.c, &cpreq.Authorize{IdTag: "slow"}))
		asked := false
		var wc, wd <-chan struct{}
		go func() {
			wc = r.c.WaitConnect()
			wd = r.c.WaitDisconnect()
			r.c.Connection()
			r.c.Identity()
			asked = true
		}()
		x.Settle()
		if !asked {
			r.fail("C13", "asking", "%v s after the loss: the charge point cannot be asked for its channels", at)
		} else if up := at > d; isDone(wc) != up || isDone(wd) == up {
			r.fail("C13", "channels", "%v s after the loss: WaitConnect done %v, WaitDisconnect done %v", at, isDone(wc), isDone(wd))
		}
	}
	x.Advance(62 * time.Second)
	for i, op := range ops {
		t := float64(op.t-op.t0) / 1e9
		if !op.isDone() || t > 61 {
			r.fail("C02,C13", "late", "a Send %v s after the loss: done %v after %v s, error %v", ats[i], op.isDone(), t, short(op.err))
		} else if (op.err == nil) && (!answers) {
			r.fail("C02", "answered", "a Send %v s after the loss returned without an answer", ats[i])
		} else if answers && ats[i] > d && op.err != nil {
			r.fail("C02,C13", "failed", "a Send %v s after the loss, over the new connection: %v", ats[i], short(op.err))
		}
	}
	x.cases++
	r.s.last().onText = answerCall
	r.works("C13,C02")
}

func init() {
	reg(&Scenario{ID: "cp-slow-dial", Props: []string{"C02", "C13"}, Hist: true, Quick: 0, Thorough: 0,
		Desc: "upgrades that take up to 59 s after a loss, Sends and questions at five times before and after", Run: slowDial})
	reg(&Scenario{ID: "growth", Props: []string{"C08", "C13"}, Hist: true, Quick: 0, Thorough: 0,
		Desc: "losses and reconnections in every way, failing dials, charge points that come and go, failing handshakes, SOAP requests and Sends, each 20 times while the charge point or the central system lives on",
		Run:  func(x *X) { growth(x, 20) }})
}
