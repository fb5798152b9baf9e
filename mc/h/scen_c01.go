//go:build go1.22

package main

import (
	"context"
	"fmt"
	"strings"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
)

// C01: every Send gets the reply to its own request, whatever the
// concurrency, the order of the replies and the noise on the connection.

// replyTo gives the scripted reply of a peer to a call.  The reply carries the
// key found in the request so that the monitor can tell replies apart.
func replyTo(m omsg) string {
	switch m.Action {
	case "GetConfiguration":
		k := field(m.Payload, "key")
		return fmt.Sprintf(`[3,%s,{"unknownKey":%s}]`, q(m.ID), k)
	case "ChangeConfiguration":
		return fmt.Sprintf(`[3,%s,{"status":"Rejected"}]`, q(m.ID))
	case "GetLocalListVersion":
		return fmt.Sprintf(`[3,%s,{"listVersion":77}]`, q(m.ID))
	case "Authorize":
		return fmt.Sprintf(`[3,%s,{"idTagInfo":{"status":"Accepted","parentIdTag":%s}}]`, q(m.ID), field(m.Payload, "idTag"))
	case "Heartbeat":
		return fmt.Sprintf(`[3,%s,{"currentTime":"2020-01-02T03:04:05Z"}]`, q(m.ID))
	case "StartTransaction":
		return fmt.Sprintf(`[3,%s,{"transactionId":%s,"idTagInfo":{"status":"Accepted"}}]`, q(m.ID), field(m.Payload, "meterStart"))
	}
	return fmt.Sprintf(`[3,%s,{}]`, q(m.ID))
}

func nopCS(x *X) csHandler {
	return func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		x.Log("handle", md.ChargePointID, r.Action(), 0)
		if r.Action() == "Heartbeat" {
			return &cpresp.Heartbeat{}, nil
		}
		return nil, fmt.Errorf("not supported")
	}
}

func nopCP(x *X) cpHandler {
	return func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		x.Log("handle", "cp", r.Action(), 0)
		if r.Action() == "GetConfiguration" {
			return &csresp.GetConfiguration{}, nil
		}
		return nil, fmt.Errorf("not supported")
	}
}

// checkGetConf: op must have returned the reply for key k.
func checkGetConf(x *X, op *sendOp, k string) {
	if !op.isDone() {
		x.Fail("C01,C02", "no-reply", "Send(GetConfiguration %s) did not return although the peer replied to it", k)
		return
	}
	if op.err != nil {
		x.Fail("C01,C02", "error", "Send(GetConfiguration %s) returned error %q although the peer replied to it", k, short(op.err))
		return
	}
	r, ok := op.resp.(*csresp.GetConfiguration)
	if !ok || r == nil {
		x.Fail("C01", "type", "Send(GetConfiguration %s) returned a %T", k, op.resp)
		return
	}
	if strings.Join(r.UnknownKey, ",") != k {
		x.Fail("C01", "mixed", "Send(GetConfiguration %s) returned the reply for %v", k, r.UnknownKey)
	}
}

func permutations(n int) [][]int {
	if n == 1 {
		return [][]int{{0}}
	}
	var res [][]int
	for _, p := range permutations(n - 1) {
		for i := n - 1; i >= 0; i-- {
			q := append([]int{}, p[:i]...)
			q = append(q, n-1)
			q = append(q, p[i:]...)
			res = append(res, q)
		}
	}
	return res
}

func init() {
	// central system side, n concurrent Sends, replies in every order
	for _, n := range []int{2, 3} {
		for pi, perm := range permutations(n) {
			n, perm := n, perm
			qb, tb := 2, 3
			if n == 3 {
				qb, tb = 1, 2
			}
			reg(&Scenario{ID: fmt.Sprintf("c01-cs-%dsends-perm%d", n, pi), Props: []string{"C01", "C02", "C05"}, Quick: qb, Thorough: tb,
				Desc: fmt.Sprintf("central system: %d concurrent Sends to one charge point, replies in order %v after all requests arrived", n, perm),
				Run: func(x *X) {
					csys := startCS(x, nopCS(x))
					p := connectPeer(x, "cp1")
					svc, err := csys.GetServiceOf("cp1", ocpp.V16, "")
					if err != nil {
						x.Setup("GetServiceOf: %v", err)
						return
					}
					got := 0
					var calls [8]string
					p.onText = func(p *wsPeer, msg []byte) {
						calls[got] = string(msg)
						got++
						if got == n {
							for _, i := range perm {
								p.sendText(replyTo(parseMsg(calls[i])))
							}
						}
					}
					x.Explore(true)
					var ops []*sendOp
					for i := 0; i < n; i++ {
						ops = append(ops, goSendCP(svc, &csreq.GetConfiguration{Key: []string{fmt.Sprintf("k%d", i)}}))
					}
					x.Settle()
					x.Explore(false)
					seen := map[string]bool{}
					for _, m := range p.msgs() {
						if m.Type == 2 {
							if seen[m.ID] {
								x.Fail("C01", "dup-id", "two concurrent calls share the id %s", m.ID)
							}
							seen[m.ID] = true
						}
					}
					for i, op := range ops {
						checkGetConf(x, op, fmt.Sprintf("k%d", i))
						x.Outcome("%v %v", op.isDone(), op.err)
					}
				}})
		}
	}
	// charge point side
	for pi, perm := range permutations(2) {
		perm := perm
		reg(&Scenario{ID: fmt.Sprintf("c01-cp-2sends-perm%d", pi), Props: []string{"C01", "C02", "C05"}, Quick: 2, Thorough: 3,
			Desc: fmt.Sprintf("charge point: two concurrent Sends of different types to a scripted central system, replies in order %v", perm),
			Run: func(x *X) {
				s := listenPeer(x, "9001")
				ctx, cancel := context.WithCancel(context.Background())
				defer cancel()
				got := 0
				var calls [8]string
				s.onText = func(p *wsPeer, msg []byte) {
					calls[got] = string(msg)
					got++
					if got == 2 {
						for _, i := range perm {
							p.sendText(replyTo(parseMsg(calls[i])))
						}
					}
				}
				c, err := startCP(x, ctx, "cp1", "9001", nopCP(x))
				if err != nil {
					x.Setup("cp.New: %v", err)
					return
				}
				x.Explore(true)
				op1 := goSendCS(c, &cpreq.Authorize{IdTag: "TAG1"})
				op2 := goSendCS(c, &cpreq.StartTransaction{ConnectorId: 1, IdTag: "TAG2", MeterStart: 4711})
				x.Settle()
				x.Explore(false)
				if !op1.isDone() || op1.err != nil {
					x.Fail("C01,C02", "no-reply", "Send(Authorize): done %v err %v although the peer replied", op1.isDone(), op1.err)
				} else if r, ok := op1.resp.(*cpresp.Authorize); !ok || r.IdTagInfo.ParentIdTag != "TAG1" {
					x.Fail("C01", "mixed", "Send(Authorize) returned %T %+v", op1.resp, op1.resp)
				}
				if !op2.isDone() || op2.err != nil {
					x.Fail("C01,C02", "no-reply", "Send(StartTransaction): done %v err %v although the peer replied", op2.isDone(), op2.err)
				} else if r, ok := op2.resp.(*cpresp.StartTransaction); !ok || r.TransactionId != 4711 {
					x.Fail("C01", "mixed", "Send(StartTransaction) returned %T %+v", op2.resp, op2.resp)
				}
			}})
	}
}
