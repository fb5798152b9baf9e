//go:build go1.22

package main

import (
	"fmt"
	"strings"
	"time"
)

// Control frames (C29): a ping is answered by one pong that has its payload, a
// pong that nobody asked for is ignored, a close frame is answered by one of
// the same code; none of them changes anything about the calls, wherever
// between (or inside) the messages it comes.

const slowN = 77

// control is one connection with the pings that are still to be answered.
type control struct {
	x       *X
	r       *rig
	p       *wsPeer
	pings   []string // the payloads sent
	replies []string // ids of the calls sent, in order, and what they are answered with
	nums    []int
	ops     []*sendOp
	keys    []string
	done    []bool
	ids     []string // of the calls of the Sends
	half    string   // the rest of a message of which only the first part was sent
	slow    bool
	trace   []string
}

func (c *control) fail(key, f string, a ...interface{}) {
	c.x.Fail("C29", c.r.role+":"+key, "%s\nhistory: %s", fmt.Sprintf(f, a...), strings.Join(c.trace, "; "))
}

var pingPayloads = []string{" \n\r\tp ", "", strings.Repeat("x", 125), "\x00\xff\n\"é", `[2,"c","Heartbeat",{}]`}

// what the other side sees
func (c *control) got(op byte) []string {
	var r []string
	for i := 0; i < c.p.nfr; i++ {
		if c.p.frames[i].op == op {
			r = append(r, string(c.p.frames[i].data))
		}
	}
	return r
}

func (c *control) busy() bool { return c.slow }

// check compares everything with the model.
func (c *control) check(end bool) bool {
	p, n := c.p, len(c.x.viols)
	if !end && p.closed() {
		c.fail("closed", "the connection ended")
		return false
	}
	if p.bad != "" {
		c.fail("bad", "%s", p.bad)
		return false
	}
	pong := c.got(10)
	for i, s := range pong {
		if i >= len(c.pings) || s != c.pings[i] {
			c.fail("pong", "pong %d has the payload %q, the pings had %q", i, s, c.pings)
			return false
		}
	}
	if len(pong) < len(c.pings) && !c.busy() {
		c.fail("no-pong", "%d of %d pings were answered", len(pong), len(c.pings))
		return false
	}
	if g := c.got(9); len(g) != 0 {
		c.fail("ping", "the library sent the ping %q although nothing asks for it", g)
	}
	m := repliesOf(p)
	want := len(c.replies)
	if len(m) > want || len(m) < want && !c.busy() {
		c.fail("replies", "%d of %d calls were answered", len(m), want)
		return false
	}
	for i, a := range m {
		if a.Type != 3 || a.ID != c.replies[i] || c.r.okReply(a, c.nums[i]) != "" {
			c.fail("reply", "answer %d: %s", i, a.Raw)
		}
	}
	calls := callsOf(p)
	if len(calls) != len(c.ops) {
		c.fail("calls", "%d calls were sent for %d Sends", len(calls), len(c.ops))
		return false
	}
	for i := len(c.ids); i < len(calls); i++ {
		c.ids = append(c.ids, calls[i].ID)
	}
	if end {
		return len(c.x.viols) == n
	}
	for i, op := range c.ops {
		switch {
		case !c.done[i] && op.isDone():
			c.fail("send-early", "Send %d returned %v, %v although it was not answered", i, op.resp, op.err)
		case c.done[i] && !op.isDone() && !c.busy():
			c.fail("send-late", "Send %d did not return although it was answered", i)
		case c.done[i] && op.isDone() && op.err != nil:
			c.fail("send-error", "Send %d: %v", i, op.err)
		case c.done[i] && op.isDone():
			if w := c.r.match(op, c.keys[i]); w != "" {
				c.fail("send-match", "Send %d: %s", i, w)
			}
		}
	}
	return len(c.x.viols) == n
}

func (c *control) ping() {
	s := pingPayloads[len(c.pings)%len(pingPayloads)]
	c.pings = append(c.pings, s)
	c.p.sendFrame(9, true, []byte(s))
}

func (c *control) call(n int) string {
	id := "c" + itoa(len(c.replies))
	c.replies = append(c.replies, id)
	c.nums = append(c.nums, n)
	return c.r.okCall(id, n)
}

// step is one operation; false if it can't be done now.
func (c *control) step(k int) bool {
	p := c.p
	names := []string{"ping", "pong", "Send", "answer", "call", "slow call", "half a message", "10 s", "two pings", "pong with the payload of a ping"}
	c.trace = append(c.trace, names[k])
	switch k {
	case 0:
		c.ping()
	case 1:
		p.sendFrame(10, true, []byte("nobody asked"))
		p.sendFrame(10, true, nil)
	case 2:
		k := "k" + itoa(len(c.ops))
		c.ops = append(c.ops, c.r.send(k))
		c.keys = append(c.keys, k)
		c.done = append(c.done, false)
	case 3:
		i := 0
		for i < len(c.done) && c.done[i] {
			i++
		}
		if c.half != "" || i == len(c.ids) {
			return false
		}
		c.done[i] = true
		p.sendText(c.r.okRep(c.ids[i], c.keys[i]))
	case 4:
		if c.half != "" {
			return false
		}
		p.sendText(c.call(len(c.replies) + 1))
	case 5:
		if c.half != "" || c.slow {
			return false
		}
		c.slow = true
		p.sendText(c.call(slowN))
	case 6:
		m := c.call(len(c.replies) + 1)
		// its answer isn't due yet
		c.replies, c.nums = c.replies[:len(c.replies)-1], c.nums[:len(c.nums)-1]
		p.sendFrame(1, false, []byte(m[:len(m)/2]))
		c.half = m[len(m)/2:]
	case 7:
		c.x.Advance(10 * time.Second)
	case 8:
		c.ping()
		c.ping()
	case 9:
		p.sendFrame(10, true, []byte(pingPayloads[0]))
	}
	return true
}

// finishHalf sends the rest of a message.
func (c *control) finishHalf() {
	if c.half == "" {
		return
	}
	c.replies = append(c.replies, "c"+itoa(len(c.replies)))
	c.nums = append(c.nums, len(c.replies))
	c.p.sendFrame(0, true, []byte(c.half))
	c.half = ""
}

var closePayloads = []string{"\x03\xe8", "\x03\xe9bye", "\x0f\xa0", "\x0b\xb8" + strings.Repeat("r", 100), "\x03\xea", "\x03\xf3", ""}

func newControl(x *X, role string) *control {
	r := rigOf(x, role)
	if r == nil {
		return nil
	}
	c := &control{x: x, r: r, p: r.peer}
	x.onHandle = func(n int) {
		if n == slowN {
			time.Sleep(25 * time.Second)
			c.slow = false
		}
	}
	return c
}

// controlHist: every history of depth operations, then one of the ends.
func controlHist(x *X, role string, depth int) {
	c := newControl(x, role)
	if c == nil {
		return
	}
	if pick(2) == 1 {
		x.Advance(70 * time.Second)
		c.trace = append(c.trace, "70 s")
	}
	for i := 0; i < depth; i++ {
		k := pick(10)
		if k == 6 && c.half != "" {
			c.trace = append(c.trace, "the rest of the message")
			c.finishHalf()
		} else if !c.step(k) {
			return
		}
		x.Settle()
		if !c.check(false) {
			return
		}
	}
	end := 0
	if !c.slow {
		end = pick(2 + len(closePayloads))
	}
	x.cases++
	if end > len(closePayloads) {
		// the Sends that are not answered time out before
		for i := range c.ops {
			if !c.done[i] {
				return
			}
		}
		x.Advance(150 * time.Second)
		c.trace = append(c.trace, "150 s")
		end = 0
	}
	if end == 0 {
		c.finishHalf()
		if c.slow {
			x.Advance(26 * time.Second)
		}
		x.Settle()
		c.trace = append(c.trace, "then")
		if !c.check(false) {
			return
		}
		if c.p.pongs() != len(c.pings) {
			c.fail("no-pong", "%d of %d pings were answered", c.p.pongs(), len(c.pings))
		}
		if w := c.r.usable(x, "last"); w != "" {
			c.fail("after", "%s", w)
		}
		return
	}
	s := closePayloads[end-1]
	c.trace = append(c.trace, fmt.Sprintf("a close frame %q", s))
	c.p.sendFrame(8, true, []byte(s))
	x.Settle()
	if !c.check(true) {
		return
	}
	g := c.got(8)
	want := s
	if len(want) > 2 {
		want = want[:2]
	}
	if len(g) != 1 || len(g[0]) < len(want) || g[0][:len(want)] != want || len(want) == 0 && len(g[0]) != 0 && g[0] != "\x03\xe8" {
		c.fail("close", "the close frame %q was answered by %q", s, g)
	}
	if !c.p.closed() {
		c.fail("close-end", "the connection goes on after a close frame")
	}
	for i, op := range c.ops {
		if !op.isDone() {
			c.fail("close-send", "Send %d did not return after the close frame", i)
		} else if !c.done[i] && op.err == nil {
			c.fail("close-send-nil", "Send %d returned a response after the close frame, although there was none", i)
		}
	}
}

// controlSched: pings while Sends and calls are sent, answered and handled.
func controlSched(x *X, role string) {
	c := newControl(x, role)
	if c == nil {
		return
	}
	p := c.p
	kind := pick(3)
	p.onText = func(p *wsPeer, msg []byte) {
		m := p.msgs()
		a := m[len(m)-1]
		if a.Type == 2 {
			if kind == 1 {
				c.ping()
			}
			p.sendText(c.r.okRep(a.ID, c.r.reqKey(a)))
		}
	}
	x.Explore(true)
	for i := 0; i < 2; i++ {
		k := "k" + itoa(i)
		c.ops = append(c.ops, c.r.send(k))
		c.keys = append(c.keys, k)
		c.done = append(c.done, true)
	}
	c.ping()
	if kind == 2 {
		m := c.call(1)
		p.sendFrame(1, false, []byte(m[:9]))
		c.ping()
		p.sendFrame(0, true, []byte(m[9:]))
	} else {
		p.sendText(c.call(1))
	}
	c.ping()
	x.Settle()
	x.Explore(false)
	x.Settle()
	x.cases++
	c.trace = append(c.trace, fmt.Sprintf("schedule, kind %d", kind))
	if c.check(false) {
		p.onText = nil
		if w := c.r.usable(x, "last"); w != "" {
			c.fail("after", "%s", w)
		}
	}
}

func init() {
	for _, role := range []string{"cs", "cp"} {
		role := role
		d := "pings, pongs, Sends, their answers, calls, calls whose handler takes long, halves of messages and pauses, then a close frame of one of seven codes or the use of the connection; " + role + " side"
		reg(&Scenario{ID: "control-4-" + role, Props: []string{"C29"}, Hist: true, Quick: 0, Thorough: -1,
			Desc: "every history of 4 " + d, Run: func(x *X) { controlHist(x, role, 4) }})
		reg(&Scenario{ID: "control-5-" + role, Props: []string{"C29"}, Hist: true, Quick: -1, Thorough: 0,
			Desc: "every history of 5 " + d, Run: func(x *X) { controlHist(x, role, 5) }})
		reg(&Scenario{ID: "control-sched-" + role, Props: []string{"C29", "C05"}, Quick: 2, Thorough: 3,
			Desc: "three or four pings while two Sends are sent and answered and a call is answered, also inside its message, under every schedule within the bound; " + role + " side", Run: func(x *X) { controlSched(x, role) }})
	}
}
