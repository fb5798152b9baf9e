//go:build go1.22

package main

// Scripted websocket peers that speak raw frames over the simulated network.

import (
	"bytes"
	"encoding/json"
	"runtime"
	"strings"
	"time"
	"unsafe"
)

const maxMsgs = 4096

type wsFrame struct {
	op   byte
	data []byte
	t    int64
}

// wsPeer is one end of a websocket connection driven by the scenario.
type wsPeer struct {
	x      *X
	name   string
	c      *simConn
	client bool // we are the client: mask frames
	rbuf   []byte
	status int
	proto  string
	path   string
	hdr    string
	frames []wsFrame // of which nfr are in use
	nfr    int
	eof    bool
	eofT   int64
	tag    byte
	onText func(p *wsPeer, msg []byte)
	noPong bool
	bad    string // protocol violation in what the other side sent
	part   []byte
	partOp byte
	wbuf   []byte
}

//go:norace
func (p *wsPeer) readMore() bool {
	var b [4096]byte
	n, err := p.c.Read(b[:])
	if n > 0 {
		p.rbuf = append(p.rbuf, b[:n]...)
	}
	return err == nil
}

//go:norace
func (p *wsPeer) readHead() (string, bool) {
	for {
		if i := bytes.Index(p.rbuf, []byte("\r\n\r\n")); i >= 0 {
			h := string(p.rbuf[:i])
			p.rbuf = p.rbuf[i+4:]
			return h, true
		}
		if !p.readMore() {
			return "", false
		}
	}
}

func headVal(h, key string) string {
	for _, ln := range strings.Split(h, "\r\n") {
		if i := strings.IndexByte(ln, ':'); i > 0 && strings.EqualFold(ln[:i], key) {
			return strings.TrimSpace(ln[i+1:])
		}
	}
	return ""
}

// dialPeer connects to a central system as charge point id.
func dialPeer(x *X, name, port, path, subproto string) *wsPeer {
	nc, err := simDial(nil, "tcp", "sim:"+port)
	if err != nil {
		return nil
	}
	p := &wsPeer{x: x, name: name, c: nc.(*simConn), client: true}
	req := "GET " + path + " HTTP/1.1\r\nHost: cs:" + port + "\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n"
	if subproto != "" {
		req += "Sec-WebSocket-Protocol: " + subproto + "\r\n"
	}
	req += "\r\n"
	p.c.Write([]byte(req))
	h, ok := p.readHead()
	if !ok {
		p.eof = true
		return p
	}
	f := strings.Fields(h)
	if len(f) > 1 {
		for _, ch := range f[1] {
			p.status = p.status*10 + int(ch-'0')
		}
	}
	p.proto = headVal(h, "Sec-WebSocket-Protocol")
	p.hdr = h
	return p
}

// wsServer is a scripted central system.
type wsServer struct {
	x      *X
	l      *simListener
	peers  [2048]*wsPeer
	n      int
	onText func(p *wsPeer, msg []byte)
	reject bool // answer 503 to upgrades
	// plan decides what happens to the n-th dial (0 is the first): see srv*
	plan  func(n int) int
	dials int
	how   int
	times []int64 // when each dial began
	// the answer to the upgrade selects no subprotocol
	noProto bool
	// how long an upgrade takes
	delay time.Duration
	tag   byte
}

func listenPeer(x *X, port string) *wsServer {
	l, err := simListen(nil, "tcp", ":"+port)
	if err != nil {
		return nil
	}
	s := &wsServer{x: x, l: l.(*simListener)}
	go s.loop()
	return s
}

//go:norace
func (s *wsServer) loop() {
	for {
		c, err := s.l.Accept()
		if err != nil {
			return
		}
		s.accept(c.(*simConn))
	}
}

//go:norace
func (s *wsServer) accept(c *simConn) {
	p := &wsPeer{x: s.x, name: "cs", c: c, onText: s.onText}
	how := 0
	if s.plan != nil {
		how = s.how
	}
	go s.serve(p, how)
}

//go:norace
func (s *wsServer) serve(p *wsPeer, how int) {
	h, ok := p.readHead()
	if !ok {
		return
	}
	p.hdr = h
	f := strings.Fields(h)
	if len(f) > 1 {
		p.path = f[1]
	}
	s.x.Log("dialed", p.path, headVal(h, "Sec-WebSocket-Protocol"), 0)
	switch how {
	case srvSilent:
		return
	case srvClose:
		p.c.Close()
		return
	case srvCut:
		p.c.cut()
		return
	case srvHalf:
		p.c.Write([]byte("HTTP/1.1 101 Switching Pro"))
		return
	case srvBadKey:
		p.c.Write([]byte("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: AAAA\r\n\r\n"))
		return
	case srv200:
		p.c.Write([]byte("HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nhi"))
		return
	case srvGarbage:
		p.c.Write([]byte("\x00\x01garbage\r\n\r\n"))
		return
	}
	if s.reject || how == srv503 {
		p.c.Write([]byte("HTTP/1.1 503 Service Unavailable\r\nContent-Length: 0\r\nConnection: close\r\n\r\n"))
		p.c.Close()
		return
	}
	p.proto = headVal(h, "Sec-WebSocket-Protocol")
	resp := "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + acceptKey(headVal(h, "Sec-WebSocket-Key")) + "\r\n"
	if p.proto != "" && !s.noProto {
		resp += "Sec-WebSocket-Protocol: " + p.proto + "\r\n"
	}
	if s.delay > 0 {
		time.Sleep(s.delay)
	}
	p.status = 101
	if s.n < len(s.peers) {
		s.peers[s.n] = p
		s.n++
	}
	p.c.Write([]byte(resp + "\r\n"))
	switch how {
	case srvOKClose:
		p.sendFrame(8, true, []byte{0x03, 0xe9})
		p.c.Close()
		p.eof = true
		return
	case srvOKCut:
		p.c.shut()
		p.eof = true
		return
	}
	p.readLoop()
}

// what a scripted central system does with a dial
const (
	srvOK      = iota
	srvRefuse  // connection refused
	srvLost    // the dial is never answered
	srvSilent  // accepted, then silence
	srvHalf    // half an answer, then silence
	srvClose   // accepted, then closed
	srvCut     // accepted, then reset
	srv503     // HTTP error
	srv200     // HTTP success instead of an upgrade
	srvBadKey  // wrong Sec-WebSocket-Accept
	srvGarbage // no HTTP at all
	srvOKClose // upgraded, then a websocket close
	srvOKCut   // upgraded, then TCP close
	srvKinds
)

var srvNames = []string{"accepts", "refuses", "never answers the dial", "accepts and stays silent", "sends half an answer", "accepts and closes", "accepts and resets", "answers 503", "answers 200", "answers with a wrong key", "answers garbage", "upgrades and closes the websocket", "upgrades and closes TCP"}

// usePlan makes the server follow the plan from the next dial on.
//
//go:norace
func (s *wsServer) usePlan(plan func(n int) int) {
	s.plan = plan
	s.dials = 0
	s.times = nil
	port := s.l.addr
	sn.gate = func(p string) int { return s.gate(p, port) }
}

//go:norace
func (s *wsServer) gate(p, port string) int {
	if p != port {
		return 0
	}
	n := s.dials
	s.dials++
	s.times = append(s.times, runtime.McNow())
	s.how = s.plan(n)
	switch s.how {
	case srvRefuse:
		return 1
	case srvLost:
		return 2
	}
	return 0
}

//go:norace
func (s *wsServer) last() *wsPeer {
	if s.n == 0 {
		return nil
	}
	return s.peers[s.n-1]
}

// start begins reading frames in the background.
func (p *wsPeer) start() { go p.readLoop() }

//go:norace
func (p *wsPeer) readLoop() {
	for {
		op, fin, data, ok := p.readFrame()
		if !ok {
			p.eof = true
			p.eofT = runtime.McNow()
			raceReleaseMerge(unsafe.Pointer(&p.x.tag))
			return
		}
		if op == 0 {
			p.part = append(p.part, data...)
			if !fin {
				continue
			}
			op, data = p.partOp, p.part
			p.part = nil
		} else if !fin && op < 8 {
			p.partOp = op
			p.part = append([]byte{}, data...)
			continue
		}
		if p.nfr < maxMsgs {
			if p.nfr == len(p.frames) {
				f := make([]wsFrame, 2*p.nfr+32)
				copy(f, p.frames)
				p.frames = f
			}
			p.frames[p.nfr] = wsFrame{op, data, runtime.McNow()}
			p.nfr++
		}
		raceReleaseMerge(unsafe.Pointer(&p.x.tag))
		switch op {
		case 1:
			if p.onText != nil {
				p.onText(p, data)
			}
		case 8:
			p.sendFrame(8, true, data)
			p.c.Close()
			p.eof = true
			p.eofT = runtime.McNow()
			return
		case 9:
			if !p.noPong {
				p.sendFrame(10, true, data)
			}
		}
	}
}

//go:norace
func (p *wsPeer) need(n int) bool {
	for len(p.rbuf) < n {
		if !p.readMore() {
			return false
		}
	}
	return true
}

//go:norace
func (p *wsPeer) readFrame() (op byte, fin bool, data []byte, ok bool) {
	if !p.need(2) {
		return
	}
	b0, b1 := p.rbuf[0], p.rbuf[1]
	op, fin = b0&15, b0&128 != 0
	if b0&0x70 != 0 || (op > 2 && op < 8) || op > 10 {
		p.bad = "invalid frame header"
	}
	if (b1&128 != 0) == p.client {
		p.bad = "wrong masking"
	}
	n := int(b1 & 127)
	off := 2
	if n == 126 {
		if !p.need(4) {
			return
		}
		n = int(p.rbuf[2])<<8 | int(p.rbuf[3])
		off = 4
	} else if n == 127 {
		if !p.need(10) {
			return
		}
		n = 0
		for i := 2; i < 10; i++ {
			n = n<<8 | int(p.rbuf[i])
		}
		off = 10
		if n < 0 || n > 1<<24 {
			p.bad = "invalid frame length"
			return
		}
	}
	var key [4]byte
	if b1&128 != 0 {
		if !p.need(off + 4) {
			return
		}
		copy(key[:], p.rbuf[off:off+4])
		off += 4
	}
	if !p.need(off + n) {
		return
	}
	data = make([]byte, n)
	copy(data, p.rbuf[off:off+n])
	p.rbuf = p.rbuf[off+n:]
	if b1&128 != 0 {
		for i := range data {
			data[i] ^= key[i&3]
		}
	}
	ok = true
	return
}

//go:norace
func (p *wsPeer) sendFrame(op byte, fin bool, data []byte) error {
	b0 := op
	if fin {
		b0 |= 128
	}
	h := []byte{b0, 0}
	switch {
	case len(data) < 126:
		h[1] = byte(len(data))
	case len(data) < 1<<16:
		h[1] = 126
		h = append(h, byte(len(data)>>8), byte(len(data)))
	default:
		h[1] = 127
		n := uint64(len(data))
		for i := 7; i >= 0; i-- {
			h = append(h, byte(n>>(8*uint(i))))
		}
	}
	out := h
	if p.client {
		out[1] |= 128
		key := [4]byte{1, 2, 3, 4}
		out = append(out, key[:]...)
		for i, b := range data {
			out = append(out, b^key[i&3])
		}
	} else {
		out = append(out, data...)
	}
	_, err := p.c.Write(out)
	return err
}

//go:norace
func (p *wsPeer) sendText(s string) error { return p.sendFrame(1, true, []byte(s)) }

// texts returns the text messages received so far.
//
//go:norace
func (p *wsPeer) texts() []string {
	var r []string
	for i := 0; i < p.nfr; i++ {
		if p.frames[i].op == 1 {
			r = append(r, string(p.frames[i].data))
		}
	}
	return r
}

//go:norace
func (p *wsPeer) closed() bool { return p.eof }

// ocpp message as received by a peer
type omsg struct {
	Type    int
	ID      string
	Action  string // for calls
	Payload json.RawMessage
	Code    string // for errors
	Desc    string
	Raw     string
	Bad     string
	N       int
}

func parseMsg(s string) omsg {
	m := omsg{Raw: s}
	var fr []json.RawMessage
	if err := json.Unmarshal([]byte(s), &fr); err != nil {
		m.Bad = "not a JSON array: " + err.Error()
		return m
	}
	m.N = len(fr)
	if len(fr) < 3 {
		m.Bad = "too few elements"
		return m
	}
	if json.Unmarshal(fr[0], &m.Type) != nil {
		m.Bad = "bad type"
	}
	if json.Unmarshal(fr[1], &m.ID) != nil {
		m.Bad = "bad id"
	}
	isObj := func(r json.RawMessage) bool {
		t := bytes.TrimSpace(r)
		return len(t) > 0 && t[0] == '{'
	}
	switch m.Type {
	case 2:
		if len(fr) != 4 {
			m.Bad = "call must have 4 elements"
			return m
		}
		if json.Unmarshal(fr[2], &m.Action) != nil {
			m.Bad = "bad action"
		}
		m.Payload = fr[3]
		if !isObj(fr[3]) {
			m.Bad = "payload is not an object"
		}
	case 3:
		if len(fr) != 3 {
			m.Bad = "result must have 3 elements"
			return m
		}
		m.Payload = fr[2]
		if !isObj(fr[2]) {
			m.Bad = "payload is not an object"
		}
	case 4:
		if len(fr) != 5 {
			m.Bad = "error must have 5 elements"
			return m
		}
		if json.Unmarshal(fr[2], &m.Code) != nil || json.Unmarshal(fr[3], &m.Desc) != nil {
			m.Bad = "bad code or description"
		}
		if !isObj(fr[4]) {
			m.Bad = "details is not an object"
		}
	default:
		m.Bad = "unknown message type"
	}
	return m
}

func (p *wsPeer) msgs() []omsg {
	p.x.Sync()
	var r []omsg
	for _, t := range p.texts() {
		r = append(r, parseMsg(t))
	}
	return r
}
