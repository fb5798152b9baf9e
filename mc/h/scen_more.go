//go:build go1.22

package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/gorilla/websocket"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
)

// Replies that nobody waits for, and the errors of handlers.

func swapCase(s string) string {
	if u := strings.ToUpper(s); u != s {
		return u
	}
	return strings.ToLower(s)
}

// idVariants are ids near an id that are not that id.
func idVariants(id string) []string {
	v := []string{"", " ", id + " ", " " + id, id + "\n", id + "\x00", swapCase(id), id[:len(id)-1], id[1:], id[:8], id + "0", "0" + id, id + id,
		strings.Replace(id, "-", "", -1), "{" + id + "}", "urn:uuid:" + id, "null", "undefined", "-1", "0", "1", id + "\u00a0", "\ufeff" + id}
	var r []string
	for _, s := range v {
		if s != id {
			r = append(r, s)
		}
	}
	return r
}

// replies: two Sends are pending on a connection and one on another; up to n
// replies of every kind arrive on the first one.
func replies(x *X, role string, n int) {
	a := rigOf(x, role)
	if a == nil {
		return
	}
	b := a.other()
	if b == nil {
		x.Setup("the second connection could not be set up")
		return
	}
	ops := []*sendOp{a.send("k0"), a.send("k1"), b.send("k2")}
	x.Settle()
	var ids [3]string
	for _, c := range callsOf(a.peer) {
		switch a.reqKey(c) {
		case "k0":
			ids[0] = c.ID
		case "k1":
			ids[1] = c.ID
		}
	}
	for _, c := range callsOf(b.peer) {
		ids[2] = c.ID
	}
	if ids[0] == "" || ids[1] == "" || ids[2] == "" {
		x.Fail("C01", role+":calls", "not every Send sent a call")
		return
	}
	got := [3]string{} // what each Send must have returned
	var trace []string
	variants := idVariants(ids[0])
	near := pick(len(variants))
	step := func() {
		m := ""
		k := pick(11)
		switch k {
		case 0, 1: // a reply
			m = a.okRep(ids[k], "r"+itoa(len(trace)))
			if got[k] == "" {
				got[k] = "r" + itoa(len(trace))
			}
		case 2, 3: // an error
			m = fmt.Sprintf(`[4,%s,"GenericError","e%d",{}]`, q(ids[k-2]), len(trace))
			if got[k-2] == "" {
				got[k-2] = "!e" + itoa(len(trace))
			}
		case 4: // a reply to the Send of the other connection
			m = a.okRep(ids[2], "foreign")
		case 5:
			m = fmt.Sprintf(`[4,%s,"GenericError","foreign",{}]`, q(ids[2]))
		case 6: // an id near the one of a pending Send
			m = a.okRep(variants[near], "near")
		case 7:
			m = fmt.Sprintf(`[4,%s,"GenericError","near",{}]`, q(variants[near]))
		case 8: // a reply that doesn't decode to an id near
			m = a.badRep(variants[near])
		case 9: // the id in another type
			m = strings.Replace(a.okRep(ids[0], "near"), q(ids[0]), `{"id":`+q(ids[0])+`}`, 1)
		case 10: // a call that has the id of our own call
			m = a.okCall(ids[0], 40+len(trace))
		}
		trace = append(trace, m)
		a.peer.sendText(m)
	}
	for i := 0; i < n; i++ {
		step()
		if pick(2) == 0 {
			x.Settle()
		}
	}
	x.Settle()
	x.cases++
	check := func(when string) {
		for i, op := range ops {
			key := role + ":reply" + itoa(i)
			what := fmt.Sprintf("the Send with id %s, %s, after %q", ids[i], when, trace)
			switch {
			case got[i] == "" && op.isDone():
				x.Fail("C01", key, "%s returned (%v, %v) although it was not answered", what, op.resp, short(op.err))
			case got[i] != "" && !op.isDone():
				x.Fail("C01", key, "%s did not return although it was answered", what)
			case got[i] == "":
			case got[i][0] == '!':
				if op.err == nil || !isNil(op.resp) || !strings.Contains(op.err.Error(), got[i][1:]) {
					x.Fail("C01", key, "%s returned (%v, %v) instead of the error %s", what, op.resp, short(op.err), got[i][1:])
				}
			case op.err != nil:
				x.Fail("C01", key, "%s returned the error %s", what, short(op.err))
			case a.match(op, got[i]) != "":
				x.Fail("C01", key, "%s returned the wrong response: %s", what, a.match(op, got[i]))
			}
		}
	}
	check("at once")
	if len(x.viols) > 0 {
		return
	}
	// the rest is answered, and the connections are used again
	for i, g := range []*rig{a, a, b} {
		if got[i] == "" {
			got[i] = "l" + itoa(i)
			m := g.okRep(ids[i], got[i])
			trace = append(trace, m)
			g.peer.sendText(m)
		}
	}
	x.Settle()
	check("answered")
	for i, g := range []*rig{a, b} {
		if w := g.usable(x, "u"+itoa(i)); w != "" {
			x.Fail("C01", role+":after", "after %q: %s", trace, w)
		}
	}
	// responses don't change once they were returned
	check("at the end")
}

// replyTwice: the peer answers a Send twice, as soon as it has the call.
func replyTwice(x *X, role string) {
	r := rigOf(x, role)
	if r == nil {
		return
	}
	p := r.peer
	how := pick(3) // what the second one is
	n := 0
	p.onText = func(p *wsPeer, msg []byte) {
		m := parseMsg(string(msg))
		if m.Type != 2 || n > 0 {
			return
		}
		n++
		second := r.okRep(m.ID, "dup")
		switch how {
		case 1:
			second = fmt.Sprintf(`[4,%s,"GenericError","dup",{}]`, q(m.ID))
		case 2:
			second = r.badRep(m.ID)
		}
		p.sendSplit([]string{r.okRep(m.ID, "a"), second}, 1)
	}
	x.Explore(true)
	op := r.send("a")
	x.Settle()
	x.Explore(false)
	if !op.isDone() || op.err != nil || r.match(op, "a") != "" {
		x.Fail("C01,C02", role+":twice", "a Send answered twice: done %v, (%v, %v)", op.isDone(), op.resp, short(op.err))
		return
	}
	p.onText = nil
	if w := r.usable(x, "u"); w != "" {
		x.Fail("C01,C02", role+":twice-after", "after two answers to one Send: %s", w)
	}
	if r.match(op, "a") != "" {
		x.Fail("C01", role+":twice-later", "the response of a Send changed after it returned: %v", op.resp)
	}
}

// handlerErrors: errors of every kind, alone or next to a response.
func handlerErrors(x *X, role string) {
	r := rigOf(x, role)
	if r == nil {
		return
	}
	p := r.peer
	i := pick(2 * len(errVals))
	e := errVals[i/2]
	what := fmt.Sprintf("a call whose handler returned the error %T %q", e, e.Error())
	if i%2 == 1 {
		what += " and a response"
	}
	for _, id := range callIDs {
		x.cases++
		n := len(repliesOf(p))
		p.sendText(r.okCall(id, hErrVal+i))
		x.Settle()
		m := repliesOf(p)
		if len(m) != n+1 {
			x.Fail("C07,C03", role+":err-answers", "%s was answered by %d messages", what, len(m)-n)
			return
		}
		if m[n].Bad != "" || m[n].Type != 4 || m[n].ID != id {
			x.Fail("C07,C03", role+":err-answer", "%s with id %q was answered by %s", what, id, m[n].Raw)
			return
		}
		if m[n].Code != "InternalError" || m[n].Desc != e.Error() {
			x.Fail("C07", role+":err-text", "%s was answered by %s", what, m[n].Raw)
			return
		}
	}
	if w := r.usable(x, "u"); w != "" {
		x.Fail("C07,C03", role+":err-after", "after %s: %s", what, w)
	}
}

// direct: the application of a charge point writes on its Connection next to
// the messages of the library.
func direct(x *X) {
	s := listenPeer(x, "9001")
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	c, err := startCP(x, ctx, "cp1", "9001", nopCP(x))
	if err != nil {
		x.Setup("cp.New: %v", err)
		return
	}
	p := s.last()
	mode := pick(4)
	note := []interface{}{2, "own", "DataTransfer", map[string]string{"vendorId": strings.Repeat("v", 10000)}}
	switch mode {
	case 0, 1: // concurrently with a Send, an inbound call and a ping
		op := &sendOp{}
		p.onText = answerCall
		x.Explore(true)
		var werr error
		go func() { werr = c.Connection().WriteJSON(note) }()
		if mode == 1 {
			p.sendFrame(9, true, []byte("ping"))
			p.sendText(`[2,"in","GetConfiguration",{}]`)
		}
		op = goSendCS(c, &cpreq.Heartbeat{})
		x.Settle()
		x.Explore(false)
		x.Sync()
		if werr != nil || !op.isDone() || op.err != nil {
			x.Fail("C02,C05", "direct", "a message written directly: %v; a concurrent Send: done %v, error %v", werr, op.isDone(), short(op.err))
		}
		if p.bad != "" {
			x.Fail("C05", "frame", "malformed websocket frame on the wire: %s", p.bad)
		}
		own, all := 0, 2+mode
		for _, m := range p.msgs() {
			all--
			if m.Bad != "" {
				x.Fail("C05", "message", "ill-formed message on the wire: %s", m.Raw)
			}
			if m.ID == "own" && m.Action == "DataTransfer" {
				own++
			}
		}
		if own != 1 || all != 0 {
			x.Fail("C05", "messages", "the message written directly arrived %d times, %d others are missing", own, all)
		}
	case 2: // long after a Send
		p.onText = answerCall
		op := goSendCS(c, &cpreq.Heartbeat{})
		x.Advance([]time.Duration{59, 60, 61, 3600}[pick(4)] * time.Second)
		if !op.isDone() || op.err != nil {
			x.Fail("C02", "direct-send", "a Send: done %v, error %v", op.isDone(), short(op.err))
		}
		n := len(p.msgs())
		if err := c.Connection().WriteJSON(note); err != nil {
			x.Fail("C02", "direct-late", "a message written directly long after a Send: %v", err)
		}
		if err := c.Connection().WriteMessage(websocket.TextMessage, []byte(`[2,"x","Heartbeat",{}]`)); err != nil {
			x.Fail("C02", "direct-late", "a message written directly long after a Send: %v", err)
		}
		op = goSendCS(c, &cpreq.Heartbeat{})
		x.Settle()
		if !op.isDone() || op.err != nil || len(p.msgs()) != n+3 {
			x.Fail("C02", "direct-after", "a Send after messages written directly: done %v, error %v, %d messages", op.isDone(), short(op.err), len(p.msgs())-n)
		}
	case 3: // a peer that stopped reading
		p.c.setPeerBlocked(true)
		big := []interface{}{2, "own", "DataTransfer", map[string]string{"vendorId": strings.Repeat("v", 1<<20)}}
		go func() { c.Connection().WriteJSON(big) }()
		x.Settle()
		op := goSendCS(c, &cpreq.Heartbeat{})
		x.Advance(125 * time.Second)
		if !op.isDone() || op.err == nil {
			x.Fail("C02", "direct-stalled", "a Send behind a message that nobody reads: done %v, error %v", op.isDone(), short(op.err))
		}
	}
	x.cases++
}

func init() {
	reg(&Scenario{ID: "msg-direct", Props: []string{"C02", "C05"}, Hist: true, Quick: 2, Thorough: 3,
		Desc: "the application writes on the Connection of a charge point next to Sends, calls and pings, long after them, and to a peer that does not read", Run: direct})
	for _, role := range []string{"cs", "cp"} {
		role := role
		reg(&Scenario{ID: "replies-2-" + role, Props: []string{"C01"}, Hist: true, Quick: 0, Thorough: 0,
			Desc: "two Sends are pending on a connection and one on another: every pair of replies, errors, replies of the other connection, replies with 20 ids near the right one, calls with the id of a pending Send, " + role + " side",
			Run:  func(x *X) { replies(x, role, 2) }})
		reg(&Scenario{ID: "replies-3-" + role, Props: []string{"C01"}, Hist: true, Quick: -1, Thorough: 0,
			Desc: "the same with every triple of replies, " + role + " side",
			Run:  func(x *X) { replies(x, role, 3) }})
		reg(&Scenario{ID: "replies-twice-" + role, Props: []string{"C01", "C02"}, Hist: true, Quick: 2, Thorough: 3,
			Desc: "a call is answered twice at once, by responses and errors, under every schedule within the bound, " + role + " side",
			Run:  func(x *X) { replyTwice(x, role) }})
		reg(&Scenario{ID: "handler-errors-" + role, Props: []string{"C03", "C07"}, Hist: true, Quick: 0, Thorough: 0,
			Desc: "handlers that return errors of 27 kinds, alone or next to a response, " + role + " side",
			Run:  func(x *X) { handlerErrors(x, role) }})
	}
}
