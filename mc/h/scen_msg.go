//go:build go1.22

package main

import (
	"fmt"
	"runtime"
	"strings"
	"time"
)

// Messages and time on one connection, on both sides.

func rigOf(x *X, role string) *rig {
	mk := csRig
	if role == "cp" {
		mk = cpRig
	}
	r := mk(x)
	if r == nil || r.peer == nil || r.peer.status != 101 {
		x.Setup("the connection could not be set up")
		return nil
	}
	return r
}

// callsOf returns the calls the library sent.
func callsOf(p *wsPeer) []omsg {
	var r []omsg
	for _, m := range p.msgs() {
		if m.Type == 2 {
			r = append(r, m)
		}
	}
	return r
}

func repliesOf(p *wsPeer) []omsg {
	var r []omsg
	for _, m := range p.msgs() {
		if m.Type != 2 {
			r = append(r, m)
		}
	}
	return r
}

// usable: both directions work.
func (r *rig) usable(x *X, tag string) string {
	p := r.peer
	if p.closed() {
		return "the connection is closed"
	}
	if p.bad != "" {
		return p.bad
	}
	n := 9000 + len(p.texts())
	id := "use" + itoa(n)
	nr := len(repliesOf(p))
	p.sendText(r.okCall(id, n))
	x.Settle()
	m := repliesOf(p)
	if len(m) != nr+1 || m[nr].Type != 3 || m[nr].ID != id || r.okReply(m[nr], n) != "" {
		return fmt.Sprintf("a call was answered by %d messages", len(m)-nr)
	}
	nc := len(callsOf(p))
	op := r.send(tag)
	x.Settle()
	c := callsOf(p)
	if len(c) != nc+1 || r.reqKey(c[nc]) != tag {
		return fmt.Sprintf("a Send sent %d calls", len(c)-nc)
	}
	p.sendText(r.okRep(c[nc].ID, tag))
	x.Settle()
	if !op.isDone() {
		return "a Send did not return although it was answered"
	}
	if op.err != nil {
		return "a Send returned the error " + short(op.err)
	}
	if w := r.match(op, tag); w != "" {
		return "a Send: " + w
	}
	return ""
}

// breakIt ends the connection in one of several ways.
var breakNames = []string{"websocket close", "websocket close and TCP close", "TCP close", "reset", "invalid frame", "unmasked or masked frame", "oversized control frame", "close frame with reason"}

func (r *rig) breakIt(how int) {
	p := r.peer
	switch how {
	case 0:
		p.sendFrame(8, true, []byte{0x03, 0xe8})
	case 1:
		p.sendFrame(8, true, []byte{0x03, 0xe9})
		p.c.Close()
	case 2:
		p.c.Close()
	case 3:
		p.c.cut()
	case 4:
		p.sendFrame(0xb, true, []byte("x"))
	case 5:
		p.client = !p.client
		p.sendText("[2]")
		p.client = !p.client
	case 6:
		p.sendFrame(9, true, []byte(strings.Repeat("x", 126)))
	case 7:
		p.sendFrame(8, true, append([]byte{0x03, 0xf3}, "service restart"...))
	}
}

func msgTiming(x *X, role string) {
	r := rigOf(x, role)
	if r == nil {
		return
	}
	p := r.peer
	bad := func(key, f string, a ...interface{}) { x.Fail("C02", role+":"+key, f, a...) }
	x.cases++
	switch pick(7) {
	case 0: // a reply after t seconds
		t := []float64{0, 0.5, 10, 29.9, 30.1, 45, 59, 59.9, 60.2, 61, 75, 120, 600}[pick(13)]
		kind := pick(2)
		op := r.send("a")
		x.Settle()
		c := callsOf(p)
		if len(c) != 1 {
			bad("no-call", "a Send sent %d calls", len(c))
			return
		}
		x.Advance(sec(t) - time.Millisecond)
		if t < 60 && op.isDone() {
			bad("early", "a Send returned after %.1f s without a reply: %v", op.took(), short(op.err))
			return
		}
		if kind == 0 {
			p.sendText(r.okRep(c[0].ID, "a"))
		} else {
			p.sendText(fmt.Sprintf(`[4,%s,"GenericError","late or not",{}]`, q(c[0].ID)))
		}
		x.Settle()
		switch {
		case !op.isDone():
			bad("hangs", "a Send answered after %.1f s has not returned", t)
			return
		case t < 60 && kind == 0 && (op.err != nil || r.match(op, "a") != ""):
			bad("lost", "a Send answered after %.1f s returned (%T, %v)", t, op.resp, short(op.err))
		case t < 60 && kind == 1 && (op.err == nil || !strings.Contains(op.err.Error(), "late or not")):
			bad("lost", "a Send answered by an error after %.1f s returned (%T, %v)", t, op.resp, short(op.err))
		case t < 60 && (op.took() < t-0.1 || op.took() > t+0.1):
			bad("when", "a Send answered after %.1f s returned after %.1f s", t, op.took())
		case t > 60 && (op.err == nil || op.took() < 59 || op.took() > 62):
			bad("timeout", "a Send without a reply for %.1f s returned (%T, %v) after %.1f s", t, op.resp, short(op.err), op.took())
		}
		if e := r.usable(x, "b"); e != "" {
			bad("after", "after a reply %.1f s after the request: %s", t, e)
		}
	case 1: // the connection ends t seconds after the request(s)
		how := pick(len(breakNames))
		t := []float64{0, 1, 31, 59}[pick(4)]
		np := 1 + pick(3)
		var ops []*sendOp
		for i := 0; i < np; i++ {
			ops = append(ops, r.send("a"+itoa(i)))
		}
		x.Settle()
		x.Advance(sec(t))
		for _, op := range ops {
			if op.isDone() {
				bad("early", "a Send returned after %.1f s without a reply: %v", op.took(), short(op.err))
				return
			}
		}
		r.breakIt(how)
		x.Advance(time.Second)
		for _, op := range ops {
			if !op.isDone() || op.err == nil || op.took() > t+1.1 {
				bad("loss", "%d Sends were pending for %.0f s when the connection ended by %s; one of them: done %v, error %v, after %.1f s", np, t, breakNames[how], op.isDone(), short(op.err), op.took())
				break
			}
		}
		if role == "cs" {
			op := r.send("later")
			x.Advance(time.Second)
			if !op.isDone() || op.err == nil {
				bad("dead", "a Send after the connection ended by %s: done %v, error %v", breakNames[how], op.isDone(), short(op.err))
			}
		}
	case 2: // the peer stops reading
		np := 1 + pick(3)
		gap := []float64{0, 20, 59}[pick(3)]
		first := pick(2) // 1: one request is on its way before
		var ops []*sendOp
		if first == 1 {
			ops = append(ops, r.send("before"))
			x.Settle()
		}
		p.c.setPeerBlocked(true)
		for i := 0; i < np; i++ {
			ops = append(ops, r.send("a"+itoa(i)))
			x.Advance(sec(gap))
		}
		x.Advance(sec(130))
		for i, op := range ops {
			if !op.isDone() || op.err == nil || op.took() > 61 {
				bad("stalled", "Send %d of %d (one every %.0f s) to a peer that does not read: done %v, error %v, after %.1f s", i+1, len(ops), gap, op.isDone(), short(op.err), op.took())
				break
			}
		}
	case 3: // the connection is lost silently
		np := 1 + pick(3)
		gap := []float64{0, 20, 59}[pick(3)]
		p.c.rx.stall = true // nothing arrives at the peer any more
		var ops []*sendOp
		for i := 0; i < np; i++ {
			ops = append(ops, r.send("a"+itoa(i)))
			x.Advance(sec(gap))
		}
		x.Advance(sec(130))
		for i, op := range ops {
			if !op.isDone() || op.err == nil || op.took() < 59 || op.took() > 62 {
				bad("silent", "Send %d of %d (one every %.0f s) over a silently lost connection: done %v, error %v, after %.1f s", i+1, np, gap, op.isDone(), short(op.err), op.took())
				break
			}
		}
		p.c.rx.stall = false
		if e := r.usable(x, "b"); e != "" {
			bad("after-silence", "after silence: %s", e)
		}
	case 4: // other traffic does not extend the time
		kind := pick(5)
		every := []float64{5, 25, 45}[pick(3)]
		op := r.send("a")
		x.Settle()
		a := callsOf(p)
		if len(a) != 1 {
			bad("no-call", "a Send sent %d calls", len(a))
			return
		}
		n := 0
		for t := 0.0; t < 119; t += every {
			n++
			switch kind {
			case 0:
				p.sendText(r.okCall("t"+itoa(n), n))
			case 1:
				p.sendFrame(9, true, []byte("ping"))
			case 2:
				p.sendText(r.okRep("other"+itoa(n), "x"))
			case 3:
				p.sendText("{malformed")
			case 4:
				o := r.send("o" + itoa(n))
				x.Settle()
				c := callsOf(p)
				p.sendText(r.okRep(c[len(c)-1].ID, "o"+itoa(n)))
				x.Settle()
				if !o.isDone() || o.err != nil {
					bad("other", "a Send while another one is pending: done %v, error %v", o.isDone(), short(o.err))
				}
			}
			x.Advance(sec(every))
		}
		if !op.isDone() || op.err == nil || op.took() < 59 || op.took() > 62 {
			bad("traffic", "a Send without a reply, with other traffic (kind %d) every %.0f s: done %v, error %v, after %.1f s", kind, every, op.isDone(), short(op.err), op.took())
		}
		p.sendText(r.okRep(a[0].ID, "a"))
		x.Settle()
		if e := r.usable(x, "b"); e != "" {
			bad("after-traffic", "after a timeout with other traffic: %s", e)
		}
	case 6: // the peer stops reading for a while, once or again and again
		np := 1 + pick(3)
		gap := []float64{0, 0.5, 10}[pick(3)]
		stop := []float64{1, 30, 50, 58}[pick(4)]
		kind := pick(3) // silent afterwards; answers; goes on reading one frame at a time
		p.c.setPeerBlocked(true)
		var ops []*sendOp
		t := 0.0
		for i := 0; i < np; i++ {
			ops = append(ops, r.send("a"+itoa(i)))
			x.Advance(sec(gap))
			t += gap
		}
		if t < stop {
			x.Advance(sec(stop - t))
			t = stop
		}
		if kind == 2 {
			for i := 0; i < np; i++ {
				p.c.setPeerBlocked(false)
				x.Settle()
				p.c.setPeerBlocked(true)
				x.Advance(sec(stop))
			}
			x.Advance(sec(130))
			for i, op := range ops {
				if !op.isDone() || op.err == nil || op.took() > 62 {
					bad("stop-go", "Send %d of %d (one every %.1f s) to a peer that reads for a moment every %.0f s: done %v, error %v, after %.1f s", i+1, np, gap, stop, op.isDone(), short(op.err), op.took())
					break
				}
			}
			break
		}
		p.c.setPeerBlocked(false)
		x.Settle()
		c := callsOf(p)
		if len(c) != np {
			bad("stop-calls", "%d Sends to a peer that did not read for %.0f s: it received %d calls", np, stop, len(c))
			break
		}
		if kind == 1 {
			for i := range ops {
				for j := range c {
					if strings.Contains(c[j].Raw, q("a"+itoa(i))) {
						p.sendText(r.okRep(c[j].ID, "a"+itoa(i)))
					}
				}
			}
		}
		x.Advance(sec(130))
		for i, op := range ops {
			switch {
			case kind == 1 && (!op.isDone() || op.err != nil || r.match(op, "a"+itoa(i)) != "" || op.took() > 59):
				bad("stop-answered", "Send %d of %d (one every %.1f s) to a peer that did not read for %.0f s and then answered: done %v, (%T, %v) after %.1f s", i+1, np, gap, stop, op.isDone(), op.resp, short(op.err), op.took())
			case kind == 0 && (!op.isDone() || op.err == nil || op.took() < 59 || op.took() > 62):
				bad("stop-silent", "Send %d of %d (one every %.1f s) to a peer that did not read for %.0f s and stayed silent: done %v, error %v, after %.1f s", i+1, np, gap, stop, op.isDone(), short(op.err), op.took())
			}
		}
		if e := r.usable(x, "b"); e != "" {
			bad("after-stop", "after a peer that did not read for %.0f s: %s", stop, e)
		}
	case 5: // several Sends, staggered, some answered
		n := 3
		mask := pick(8)
		order := pick(2)
		var ops []*sendOp
		for i := 0; i < n; i++ {
			ops = append(ops, r.send("a"+itoa(i)))
			x.Advance(sec(10))
		}
		c := callsOf(p)
		if len(c) != n {
			bad("no-call", "%d Sends sent %d calls", n, len(c))
			return
		}
		for j := 0; j < n; j++ {
			i := j
			if order == 1 {
				i = n - 1 - j
			}
			if mask>>i&1 == 1 {
				p.sendText(r.okRep(c[i].ID, "a"+itoa(i)))
				x.Advance(sec(3))
			}
		}
		x.Advance(sec(100))
		for i, op := range ops {
			if mask>>i&1 == 1 {
				if !op.isDone() || op.err != nil || r.match(op, "a"+itoa(i)) != "" || op.took() > 45 {
					bad("mask", "Send %d of %d (answered: %b): (%T, %v) after %.1f s", i, n, mask, op.resp, short(op.err), op.took())
				}
			} else if !op.isDone() || op.err == nil || op.took() < 59 || op.took() > 62 {
				bad("mask-timeout", "Send %d of %d (answered: %b): done %v, error %v, after %.1f s", i, n, mask, op.isDone(), short(op.err), op.took())
			}
		}
		if e := r.usable(x, "b"); e != "" {
			bad("after-mask", "after timeouts: %s", e)
		}
	}
}

// endRace: something and the end of the connection at the same time.
func endRace(x *X, role string, kind int) {
	r := rigOf(x, role)
	if r == nil {
		return
	}
	p := r.peer
	prop := "C02"
	if kind == 3 {
		prop = "C01,C02"
	}
	bad := func(key, f string, a ...interface{}) { x.Fail(prop, role+":"+key, f, a...) }
	end := 0
	if kind < 2 {
		end = pick(3)
	}
	fin := func() {
		switch end {
		case 0:
			p.sendFrame(8, true, []byte{3, 0xe8})
		case 1:
			p.c.Close()
		case 2:
			p.sendFrame(8, true, []byte{3, 0xe9})
			p.c.Close()
		}
	}
	op := r.send("a")
	x.Settle()
	c := callsOf(p)
	if len(c) != 1 {
		bad("no-call", "a Send sent %d calls", len(c))
		return
	}
	switch kind {
	case 0: // reply, then end at once: the response is not lost
		x.Explore(true)
		p.sendText(r.okRep(c[0].ID, "a"))
		fin()
		x.Advance(time.Second)
		x.Explore(false)
		if !op.isDone() || op.err != nil || r.match(op, "a") != "" {
			bad("reply-end", "a response followed by the end of the connection: done %v, (%T, %v)", op.isDone(), op.resp, short(op.err))
		}
	case 1: // the end and two other Sends
		x.Explore(true)
		o2 := r.send("b")
		go fin()
		o3 := r.send("c")
		x.Advance(time.Second)
		x.Explore(false)
		for i, o := range []*sendOp{op, o2, o3} {
			if role == "cp" && i > 0 && !o.isDone() {
				// it may have been sent over the next connection
				x.Advance(62 * time.Second)
			}
			if !o.isDone() || o.err == nil {
				bad("send-end", "Send %d at the end of the connection: done %v, error %v", i, o.isDone(), short(o.err))
			}
		}
	case 2: // the reply arrives when the time is up
		off := []int64{-2, -1, 0, 1, 2}[pick(5)]
		x.Advance(time.Duration(op.t0 + 60e9 + off - runtime.McNow() - 5))
		x.Explore(true)
		x.Advance(5)
		p.sendText(r.okRep(c[0].ID, "a"))
		x.Advance(10 * time.Millisecond)
		x.Explore(false)
		if !op.isDone() {
			bad("reply-timeout", "a Send answered when its time was up did not return")
		} else if op.err == nil && r.match(op, "a") != "" {
			bad("reply-timeout", "a Send answered when its time was up returned a wrong response")
		}
		if e := r.usable(x, "z"); e != "" {
			bad("after-reply-timeout", "after a reply when the time was up: %s", e)
		}
	case 3: // two replies and another Send
		x.Explore(true)
		p.sendText(r.okRep(c[0].ID, "a"))
		o2 := r.send("b")
		p.sendText(r.okRep(c[0].ID, "dup"))
		x.Settle()
		x.Explore(false)
		if !op.isDone() || op.err != nil || r.match(op, "a") != "" {
			bad("dup", "a Send answered twice: done %v, (%T, %v)", op.isDone(), op.resp, short(op.err))
		}
		if o2.isDone() {
			bad("dup-other", "another Send returned without a reply")
		}
		cc := callsOf(p)
		p.sendText(r.okRep(cc[len(cc)-1].ID, "b"))
		x.Settle()
		if !o2.isDone() || o2.err != nil || r.match(o2, "b") != "" {
			bad("dup-after", "a Send after a second reply: done %v, (%T, %v)", o2.isDone(), o2.resp, short(o2.err))
		}
	}
	x.cases++
}

// wsSplit sends the text messages as one of several sequences of TCP segments
// and websocket frames.
func (p *wsPeer) sendSplit(msgs []string, how int) {
	save := p.c
	var buf []byte
	put := func(op byte, fin bool, b []byte) { buf = append(buf, p.frameBytes(op, fin, b)...) }
	for _, m := range msgs {
		b := []byte(m)
		switch how {
		case 2: // two fragments
			put(1, false, b[:len(b)/2])
			put(0, true, b[len(b)/2:])
		case 3: // fragments with control frames in between
			put(1, false, b[:1])
			put(9, true, []byte("p"))
			put(0, false, b[1:len(b)-1])
			put(10, true, nil)
			put(0, true, b[len(b)-1:])
		case 5: // one fragment per byte
			for i := range b {
				op := byte(0)
				if i == 0 {
					op = 1
				}
				put(op, i == len(b)-1, b[i:i+1])
			}
		default:
			put(1, true, b)
		}
		if how == 0 {
			save.Write(buf)
			buf = nil
		}
	}
	switch how {
	case 0:
	case 4: // every byte a segment of its own
		for i := range buf {
			save.Write(buf[i : i+1])
			time.Sleep(time.Microsecond)
		}
	default:
		save.Write(buf)
	}
}

var splitNames = []string{"a segment each", "one segment", "two websocket fragments each", "fragments with pings and pongs in between", "a segment per byte", "a websocket fragment per byte"}

func (p *wsPeer) frameBytes(op byte, fin bool, data []byte) []byte {
	c := &simConn{tx: &simPipe{}, rx: &simPipe{}}
	q := &wsPeer{c: c, client: p.client}
	q.sendFrame(op, fin, data)
	return c.tx.buf
}

var callIDs = []string{"1", "", "id with spaces", "\"quoted\\\"", "é中", strings.Repeat("long", 100), "{}", "\\", "a,b]", "\t"}

// pipelined calls, replies and malformed frames in one go.
// callsEnd: calls directly followed by the end of the connection. What arrived
// before a closing handshake is handled and answered; what arrived before the
// connection just ended is handled as far as the library still could read it.
func callsEnd(x *X, role string, sched bool) {
	r := rigOf(x, role)
	if r == nil {
		return
	}
	p := r.peer
	n, slowH, pend, seg := 1, 0.0, 0, 1
	if sched {
		n = 1 + pick(2)
	} else {
		n = 1 + pick(3)
		slowH = []float64{0, 1.5, 20}[pick(3)]
		pend = pick(3)
		seg = pick(2)
	}
	end := pick(6)
	x.onHandle = func(k int) {
		if slowH > 0 {
			time.Sleep(sec(slowH))
		}
	}
	var op *sendOp
	rep := ""
	if pend > 0 {
		op = r.send("s")
		x.Settle()
		c := callsOf(p)
		if len(c) != 1 {
			x.Fail("C03", role+":no-call", "a Send sent %d calls", len(c))
			return
		}
		rep = r.okRep(c[0].ID, "s")
	}
	var buf []byte
	put := func(op byte, b []byte) {
		fb := p.frameBytes(op, true, b)
		if seg == 0 {
			p.c.Write(fb)
			return
		}
		buf = append(buf, fb...)
	}
	x.cases++
	x.Explore(sched)
	if pend == 1 {
		put(1, []byte(rep))
	}
	var want []string
	for i := 0; i < n; i++ {
		put(1, []byte(r.okCall("c"+itoa(i), 300+i)))
		want = append(want, itoa(300+i))
	}
	if pend == 2 {
		put(1, []byte(rep))
	}
	endNames := []string{"a close frame 1000", "a close frame 1001 with a reason", "a close frame without a code", "a close frame and the end of the TCP connection", "the end of the TCP connection", "an invalid frame"}
	closing := true
	switch end {
	case 0, 3:
		put(8, []byte{3, 0xe8})
	case 1:
		put(8, []byte{3, 0xe9, 'b', 'y', 'e'})
	case 2:
		put(8, nil)
	case 5:
		put(0xb, []byte("x"))
	}
	if len(buf) > 0 {
		p.c.Write(buf)
	}
	if end == 3 || end == 4 {
		p.c.Close()
		closing = false
	}
	x.Advance(sec(0.1 + slowH*float64(n)))
	x.Explore(false)
	x.Advance(30 * time.Second)
	x.onHandle = nil
	what := fmt.Sprintf("%d calls followed by %s, handlers that take %.1f s", n, endNames[end], slowH)
	var got []string
	for _, e := range x.events() {
		if e.kind == "handle" && e.n >= 300 && e.n < 310 {
			got = append(got, itoa(int(e.n)))
		}
	}
	w, g := strings.Join(want, " "), strings.Join(got, " ")
	if closing && w != g || !closing && (g == "" || !strings.HasPrefix(w, g)) {
		x.Fail("C03", role+":end-handled", "%s: handled were [%s] instead of [%s]", what, g, w)
	}
	if op != nil {
		if !op.isDone() {
			x.Fail("C02", role+":end-pending", "%s: a pending Send is not done", what)
		} else if late := pend == 2 && slowH*float64(n) > 25; closing && !late && (op.err != nil || r.match(op, "s") != "") {
			x.Fail("C01,C02", role+":end-reply", "%s and the response to a Send among them: the Send returned (%T, %v)", what, op.resp, short(op.err))
		}
	}
	if closing {
		for i := 0; i < p.nfr; i++ {
			if p.frames[i].op == 8 {
				for _, f := range p.frames[i+1 : p.nfr] {
					if f.op == 1 {
						x.Fail("C03", role+":end-order", "%s: a message was sent after the close frame", what)
					}
				}
				break
			}
		}
		ans := map[string]int{}
		for _, m := range repliesOf(p) {
			k := -1
			fmt.Sscanf(m.ID, "c%d", &k)
			if k < 0 || k >= n || r.okReply(m, 300+k) != "" {
				x.Fail("C03", role+":end-answer", "%s: answered by %s", what, m.Raw)
			}
			ans[m.ID]++
		}
		for i := 0; i < n; i++ {
			if ans["c"+itoa(i)] != 1 {
				x.Fail("C03", role+":end-answers", "%s: call %d was answered %d times", what, i, ans["c"+itoa(i)])
			}
		}
	}
	if !p.closed() {
		x.Fail("C08,C02", role+":end-open", "%s: the connection is still open", what)
	}
}

func pipeline(x *X, role string, n int, sched bool) {
	r := rigOf(x, role)
	if r == nil {
		return
	}
	p := r.peer
	how := 0
	slowH := 0.0
	if !sched {
		how = pick(len(splitNames))
		slowH = []float64{0, 1.5, 17}[pick(3)]
	}
	running := 0
	x.onHandle = func(k int) {
		running++
		if running > 1 {
			x.Fail("C03", role+":parallel", "two calls of one connection are handled at the same time")
		}
		x.Log("start", "", "", int64(k))
		if slowH > 0 {
			time.Sleep(sec(slowH))
		}
		x.Log("end", "", "", int64(k))
		running--
	}
	// what arrives: 0 call, 1 refused call, 2 reply to our Send, 3 malformed, 4 wrong role, 5 special outcome
	kinds := []int{0, 1, 2, 3, 4, 5}
	var msgs []string
	type want struct {
		id, text string
		n        int
		kind     int
	}
	var wants []want
	op := r.send("s")
	x.Settle()
	c := callsOf(p)
	if len(c) != 1 {
		x.Fail("C03", role+":no-call", "a Send sent %d calls", len(c))
		return
	}
	replied := false
	idb := 0
	if !sched {
		idb = pick(len(callIDs))
	}
	for i := 0; i < n; i++ {
		k := kinds[pick(len(kinds))]
		if i == 0 && sched && k > 2 {
			return
		}
		id := callIDs[(idb+i)%len(callIDs)]
		if i >= len(callIDs) {
			id += itoa(i)
		}
		switch k {
		case 0:
			msgs = append(msgs, r.okCall(id, 100+i))
			wants = append(wants, want{id, "", 100 + i, 0})
		case 1:
			e := hErrText + (i*5+idb)%len(specialTexts)
			msgs = append(msgs, r.okCall(id, e))
			wants = append(wants, want{id, errTexts[e], e, 1})
		case 2:
			msgs = append(msgs, r.okRep(c[0].ID, "s"))
			replied = true
		case 3:
			msgs = append(msgs, malformed[(idb*7+i)%len(malformed)])
		case 4:
			msgs = append(msgs, r.wrong(id))
			wants = append(wants, want{id, "", 0, 4})
		case 5:
			msgs = append(msgs, r.okCall(id, hNil+(idb+i)%4))
			wants = append(wants, want{id, "", hNil + (idb+i)%4, 5})
		}
	}
	for i := range msgs {
		if msgs[i] == "" {
			msgs[i] = " "
		}
		if how == 3 && len(msgs[i]) < 3 {
			msgs[i] += "  "
		}
	}
	x.cases++
	what := fmt.Sprintf("%d messages as %s, handlers that take %.1f s: %q", n, splitNames[how], slowH, msgs)
	bad := func(key, f string, a ...interface{}) {
		x.Fail("C03", role+":"+key, "%s\n%s", fmt.Sprintf(f, a...), what)
	}
	if sched {
		x.Explore(true)
		p.sendSplit(msgs, 0)
		o2 := r.send("t")
		x.Settle()
		x.Explore(false)
		cc := callsOf(p)
		if len(cc) != 2 {
			bad("send", "a concurrent Send sent %d calls", len(cc)-1)
			return
		}
		p.sendText(r.okRep(cc[1].ID, "t"))
		x.Settle()
		if !o2.isDone() || o2.err != nil || r.match(o2, "t") != "" {
			bad("send", "a concurrent Send: done %v, (%T, %v)", o2.isDone(), o2.resp, short(o2.err))
		}
	} else {
		p.sendSplit(msgs, how)
		x.Advance(sec(0.1 + slowH*float64(n)))
	}
	x.onHandle = nil
	// handler invocations in order
	var wh, gh []string
	for _, w := range wants {
		if w.kind != 4 {
			wh = append(wh, itoa(w.n))
		}
	}
	x.Sync()
	for i := range x.events() {
		if e := &x.events()[i]; e.kind == "handle" {
			gh = append(gh, itoa(int(e.n)))
		}
	}
	if strings.Join(wh, " ") != strings.Join(gh, " ") {
		bad("handled", "handled were %v instead of %v", gh, wh)
	}
	// answers
	got := repliesOf(p)
	var ans []omsg
	for _, m := range got {
		if m.Bad != "" {
			bad("bad-frame", "sent an ill-formed message %q: %s", m.Raw, m.Bad)
		}
		// an error for a malformed frame is allowed
		known := false
		for _, w := range wants {
			known = known || w.id == m.ID
		}
		if known || m.Type != 4 {
			ans = append(ans, m)
		}
	}
	var handledAns []omsg
	for _, w := range wants {
		var m *omsg
		cnt := 0
		for i := range ans {
			if ans[i].ID == w.id {
				cnt++
				m = &ans[i]
			}
		}
		if cnt != 1 {
			bad("answers", "the call %q was answered %d times", w.id, cnt)
			continue
		}
		switch {
		case w.kind == 0 && (m.Type != 3 || r.okReply(*m, w.n) != ""):
			bad("answer", "the call %q was answered by %s", w.id, m.Raw)
		case w.kind == 1 && (m.Type != 4 || m.Desc != w.text || m.Code != "InternalError"):
			bad("answer-error", "the call %q refused by the handler with %q was answered by %s", w.id, w.text, m.Raw)
			x.Fail("C07", role+":answer-error", "the call %q refused by the handler with %q was answered by %s", w.id, w.text, m.Raw)
		case (w.kind == 4 || w.kind == 5) && m.Type != 4:
			bad("answer-special", "the call %q (special request %d) was answered by %s", w.id, w.n, m.Raw)
		}
		if w.kind != 4 {
			handledAns = append(handledAns, *m)
		}
	}
	if len(ans) != len(wants) {
		bad("answer-count", "%d answers to %d calls", len(ans), len(wants))
	}
	_ = handledAns
	if replied {
		if !op.isDone() || op.err != nil || r.match(op, "s") != "" {
			bad("reply", "the pending Send: done %v, (%T, %v)", op.isDone(), op.resp, short(op.err))
		}
	} else if op.isDone() && float64(runtime.McNow())/1e9 < 55 {
		bad("premature", "the pending Send returned (%T, %v) without a reply", op.resp, short(op.err))
	}
	if e := r.usable(x, "u"); e != "" {
		bad("after", "afterwards: %s", e)
	}
}

// malformed frames: every sequence of up to four elements of an alphabet -----

var elems = []string{`2`, `3`, `4`, `"2"`, `null`, `true`, `{}`, `[]`, `2.5`, `-3`, `1e300`, `"ID"`, `"PEND"`, `"ACT"`, `{"a":1}`}

// validFrame: the frame is an OCPP-J message
func validFrame(e []string) bool {
	str := func(s string) bool { return s[0] == '"' }
	obj := func(s string) bool { return s[0] == '{' }
	if len(e) < 3 || !str(e[1]) {
		return false
	}
	switch e[0] {
	case "2":
		return len(e) >= 4 && str(e[2]) && obj(e[3])
	case "3":
		return obj(e[2])
	case "4":
		return len(e) >= 5 && str(e[2]) && str(e[3]) && obj(e[4])
	}
	return false
}

func malformedAll(x *X, role string, n int) {
	r := rigOf(x, role)
	if r == nil {
		return
	}
	p := r.peer
	bad := func(key, f string, a ...interface{}) { x.Fail("C04", role+":"+key, f, a...) }
	op := r.send("pend")
	x.Settle()
	c := callsOf(p)
	if len(c) != 1 {
		bad("no-call", "a Send sent %d calls", len(c))
		return
	}
	action := "StartTransaction"
	if role == "cp" {
		action = "RemoteStopTransaction"
	}
	var pre []string
	for i := 0; i < n-2; i++ {
		pre = append(pre, elems[pick(len(elems))])
	}
	nh := x.count("handle", "")
	since := 0
	last := ""
	try := func(f string) bool {
		x.cases++
		last = f
		p.sendText(f)
		x.Settle()
		if p.closed() {
			bad("closed", "the connection was closed after %s", f)
			return false
		}
		if x.count("handle", "") != nh {
			bad("handled", "the handler was called after %s", f)
			return false
		}
		for _, m := range p.msgs()[since+1:] {
			if m.Type != 4 {
				bad("answer", "%s was answered by %s", f, m.Raw)
				return false
			}
		}
		since = len(p.texts()) - 1
		if op.isDone() {
			bad("send", "the pending Send returned (%T, %v) after %s", op.resp, short(op.err), f)
			return false
		}
		return true
	}
	conc := func(e []string) string {
		s := "[" + strings.Join(e, ",") + "]"
		s = strings.ReplaceAll(s, `"PEND"`, q(c[0].ID))
		return strings.ReplaceAll(s, `"ACT"`, q(action))
	}
	cnt := 0
	var rec func(e []string, k int) bool
	rec = func(e []string, k int) bool {
		if k == 0 {
			if validFrame(e) {
				return true
			}
			cnt++
			return try(conc(e))
		}
		for _, a := range elems {
			if !rec(append(append([]string{}, e...), a), k-1) {
				return false
			}
		}
		return true
	}
	if n == 2 { // everything shorter, and texts that are no arrays
		for _, f := range append(append([]string{}, malformed...), extraMalformed...) {
			if f == "" {
				f = " "
			}
			f = strings.ReplaceAll(f, "PENDID", c[0].ID)
			if !try(f) {
				return
			}
			// valid traffic after every single one
			p.sendText(r.okCall("v", 321))
			x.Settle()
			m := p.msgs()
			if len(m) < since+2 || m[len(m)-1].Type != 3 || m[len(m)-1].ID != "v" {
				bad("next", "a valid call after %q was not answered", f)
				return
			}
			nh++
			since = len(m) - 1
		}
		for k := 0; k < 2; k++ {
			if !rec(nil, k) {
				return
			}
		}
	}
	if !rec(pre, 2) {
		return
	}
	// the pending Send, and everything else, as if nothing had happened
	p.sendText(r.okRep(c[0].ID, "pend"))
	x.Settle()
	if float64(runtime.McNow())/1e9 < 59 {
		if !op.isDone() || op.err != nil || r.match(op, "pend") != "" {
			bad("pending", "the pending Send, answered after %d malformed frames (last %s): done %v, (%T, %v)", cnt, last, op.isDone(), op.resp, short(op.err))
		}
	}
	if e := r.usable(x, "u"); e != "" {
		bad("after", "after %d malformed frames (last %s): %s", cnt, last, e)
	}
}

var extraMalformed = []string{
	`[4,"PENDID"]`, `[4,"PENDID","GenericError"]`, `[4,"PENDID","GenericError","d"]`, `[4,"PENDID",1,"d",{}]`, `[4,"PENDID","GenericError",1,{}]`, `[4,"PENDID","GenericError","d",1]`, `[4,"PENDID","GenericError","d",null]`, `[4,"PENDID",null,"d",{}]`,
	`[3,"PENDID"]`, `[3,"PENDID",null]`, `[3,"PENDID",[]]`, `[3,"PENDID","x"]`, `[3,"PENDID",1]`, `[3,"PENDID",true]`, `[3,["PENDID"],{}]`, `[3,"PENDID",{}`, `3,"PENDID",{}]`, `[[3,"PENDID",{}]]`, `{"3":"PENDID"}`, `["3","PENDID",{}]`, `[3.5,"PENDID",{}]`, `[30,"PENDID",{}]`,
	`[2,"id","Heartbeat",{}]]`, `[2,"id","Heartbeat",{}],`, `[2,"id","Heartbeat",{},]`, `[2 "id" "Heartbeat" {}]`, `[2,'id','Heartbeat',{}]`, `[2,"id","Heartbeat",{"a"}]`, `[02,"id","Heartbeat",{}]`, `[2,"id","Hea` + "\n" + `rtbeat",{}`, "\xef\xbb\xbf[2,\"id\",\"Heartbeat\",{}]", `[2,"id","Heartbeat",{"a":"\ud8"}]`, `NaN`, `[NaN,"id",{}]`, `[2,"id",["Heartbeat"],{}]`, `[2,{"id":1},"Heartbeat",{}]`,
	strings.Repeat("[", 5000), strings.Repeat("[", 12000) + strings.Repeat("]", 12000), `[2,"id","Heartbeat",` + strings.Repeat(`{"a":`, 11000) + `1` + strings.Repeat(`}`, 11000) + `]`, strings.Repeat("x", 70000), "\x00", "\xff\xfe\xfd", "[\xff,\"a\",{}]", `[1e400,"x",{}]`, `[-0,"x",{}]`, `[99999999999999999999,"x",{}]`,
}

// errors ----------------------------------------------------------------------

var errCodes = []string{"NotImplemented", "NotSupported", "InternalError", "ProtocolError", "SecurityError", "FormationViolation", "PropertyConstraintViolation", "OccurenceConstraintViolation", "OccurrenceConstraintViolation", "TypeConstraintViolation", "GenericError", "", "VendorError", "x y"}

func callErrors(x *X, role string) {
	r := rigOf(x, role)
	if r == nil {
		return
	}
	p := r.peer
	code := errCodes[pick(len(errCodes))]
	for _, d := range specialTexts {
		for _, det := range []string{`{}`, `{"a":1,"b":{"c":[null,"%s"]}}`} {
			x.cases++
			nc := len(callsOf(p))
			op := r.send("k")
			x.Settle()
			c := callsOf(p)
			if len(c) != nc+1 {
				x.Fail("C07", role+":no-call", "a Send sent %d calls", len(c)-nc)
				return
			}
			msg := fmt.Sprintf("[4,%s,%s,%s,%s]", jq(c[nc].ID), jq(code), jq(d), det)
			p.sendText(msg)
			x.Settle()
			switch {
			case !op.isDone():
				x.Fail("C07", role+":hangs", "a Send answered by %s did not return", msg)
			case op.err == nil || !isNil(op.resp):
				x.Fail("C07", role+":no-error", "a Send answered by %s returned (%v, %v)", msg, op.resp, op.err)
			default:
				e := op.err.Error()
				if !strings.Contains(e, code) || !strings.Contains(e, d) {
					x.Fail("C07", role+":error-text", "a Send answered by %s returned the error %q", msg, e)
				}
			}
			if len(x.viols) > 0 {
				return
			}
		}
	}
	if e := r.usable(x, "u"); e != "" {
		x.Fail("C07", role+":after", "after error replies: %s", e)
	}
}

func init() {
	for _, role := range []string{"cs", "cp"} {
		role := role
		reg(&Scenario{ID: "msg-timing-" + role, Props: []string{"C02"}, Hist: true, Quick: 0, Thorough: 0,
			Desc: "replies, losses, stalls and silence at enumerated times, with 1 to 3 pending Sends and other traffic, " + role + " side",
			Run:  func(x *X) { msgTiming(x, role) }})
		for k, d := range []string{"a reply followed by the end of the connection", "Sends and the end of the connection", "a reply when the time is up", "two replies to one Send and another Send"} {
			k := k
			reg(&Scenario{ID: fmt.Sprintf("msg-race-%s-%d", role, k), Props: []string{"C01", "C02", "C05"}[min(1, 3-k):], Hist: true, Quick: 2, Thorough: 3,
				Desc: d + " under every schedule within the bound, " + role + " side",
				Run:  func(x *X) { endRace(x, role, k) }})
		}
		reg(&Scenario{ID: "msg-pipeline-2-" + role, Props: []string{"C03", "C07"}, Hist: true, Quick: 0, Thorough: 0,
			Desc: "every pair of frames (accepted, refused and special calls, replies, malformed, wrong role) that arrive at once in six layouts of segments and fragments, ten message ids, three handler durations, " + role + " side",
			Run:  func(x *X) { pipeline(x, role, 2, false) }})
		reg(&Scenario{ID: "msg-pipeline-3-" + role, Props: []string{"C03", "C07"}, Hist: true, Quick: -1, Thorough: 0,
			Desc: "every triple of frames that arrive at once, " + role + " side",
			Run:  func(x *X) { pipeline(x, role, 3, false) }})
		reg(&Scenario{ID: "msg-pipeline-4-" + role, Props: []string{"C03", "C07"}, Hist: true,
			Desc: "every four frames that arrive at once, " + role + " side",
			Run:  func(x *X) { pipeline(x, role, 4, false) }})
		reg(&Scenario{ID: "calls-end-" + role, Props: []string{"C01", "C02", "C03"}, Hist: true,
			Desc: "up to three calls directly followed by the end of the connection in six ways, three handler durations, with and without a pending Send and its response, " + role + " side",
			Run:  func(x *X) { callsEnd(x, role, false) }})
		reg(&Scenario{ID: "calls-end-sched-" + role, Props: []string{"C01", "C02", "C03", "C05"}, Hist: true, Quick: 2, Thorough: 3,
			Desc: "up to two calls directly followed by the end of the connection in six ways, under every schedule within the bound, " + role + " side",
			Run:  func(x *X) { callsEnd(x, role, true) }})
		reg(&Scenario{ID: "msg-pipeline-sched-" + role, Props: []string{"C03", "C05"}, Hist: true, Quick: 1, Thorough: 2,
			Desc: "every pair of frames that arrive at once, with a concurrent Send, under every schedule within the bound, " + role + " side",
			Run:  func(x *X) { pipeline(x, role, 2, true) }})
		reg(&Scenario{ID: "msg-malformed-" + role, Props: []string{"C04"}, Logs: true, Hist: true, Quick: 0, Thorough: 0,
			Desc: "texts that are no OCPP-J messages, every array of up to two elements of an alphabet of 15, " + role + " side",
			Run:  func(x *X) { malformedAll(x, role, 2) }})
		reg(&Scenario{ID: "msg-malformed3-" + role, Props: []string{"C04"}, Logs: true, Hist: true, Quick: 0, Thorough: 0,
			Desc: "every array of three elements of an alphabet of 15 that is no OCPP-J message, " + role + " side",
			Run:  func(x *X) { malformedAll(x, role, 3) }})
		reg(&Scenario{ID: "msg-malformed4-" + role, Props: []string{"C04"}, Logs: true, Hist: true, Quick: 0, Thorough: 0,
			Desc: "every array of four elements of an alphabet of 15 that is no OCPP-J message, " + role + " side",
			Run:  func(x *X) { malformedAll(x, role, 4) }})
		reg(&Scenario{ID: "msg-errors-" + role, Props: []string{"C07"}, Hist: true, Quick: 0, Thorough: 0,
			Desc: "every standard error code and others with special descriptions and details, " + role + " side",
			Run:  func(x *X) { callErrors(x, role) }})
	}
}
