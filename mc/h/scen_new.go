//go:build go1.22

package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cp"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
)

// Charge points and services made of good and of bad arguments (C31).

var (
	newTransports = []ocpp.Transport{ocpp.JSON, ocpp.SOAP, "", "xml", "JSON"}
	newVersions   = []ocpp.Version{ocpp.V15, ocpp.V16, "", "2.0"}
	newURLs       = []string{"ws://sim:9000", "http://sim:9000", "ws://sim:9000/a/b", "http://sim:9000/a/b", "", "sim:9000", "ws://", "http://", "ws://sim:9999", "http://sim:9999", "ws://sim:9000/", "ws://%zz", "http://%zz", "ftp://sim:9000", "://", " "}
	newPorts      = []string{"nil", ":9100", ":9101", ""}
)

func newArgs(x *X) {
	h := echoCS(x, nil)
	csys := startCS(x, h)
	listenHTTP(x, "9101", func(httpMsg) (string, bool) { return "", true })
	x.Settle()
	g0, l0, c0 := len(leaks()), 0, len(sn.conns)
	for _, l := range sn.listeners {
		if !l.closed {
			l0++
		}
	}
	tr, ver, url, port := newTransports[pick(len(newTransports))], newVersions[pick(len(newVersions))], newURLs[pick(len(newURLs))], newPorts[pick(len(newPorts))]
	what := fmt.Sprintf("cp.New(%q, version %q, transport %q, port %q)", url, ver, tr, port)
	x.cases++
	var pp *string
	if port != "nil" {
		pp = &port
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var c cp.ChargePoint
	var err error
	returned := false
	go func() {
		// not c itself: it's an interface
		v, e := cp.New(ctx, "cp1", url, ver, tr, pp, func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
			rs, ok := r.(*csreq.RemoteStopTransaction)
			if !ok {
				return nil, fmt.Errorf("unexpected")
			}
			return &csresp.RemoteStopTransaction{Status: "S" + itoa(int(rs.TransactionId))}, nil
		})
		if v != nil {
			c = v
		}
		err, returned = e, true
	}()
	x.Settle()
	x.Advance(61 * time.Second)
	fail := func(key, f string, a ...interface{}) {
		x.Fail("C31", key, "%s: %s", what, fmt.Sprintf(f, a...))
	}
	if !returned {
		fail("new", "did not return")
		return
	}
	path := strings.HasSuffix(url, "/a/b")
	good := tr == ocpp.JSON && strings.HasPrefix(url, "ws://sim:9000") && (!strings.HasSuffix(url, "/")) ||
		tr == ocpp.SOAP && strings.HasPrefix(url, "http://sim:9000") && pp != nil
	usual := tr == ocpp.JSON && ver == ocpp.V16 || tr == ocpp.SOAP && ver == ocpp.V15
	if (err == nil) != (c != nil) {
		fail("both", "returned a charge point: %v, error: %v", c != nil, err)
		return
	}
	switch {
	case err != nil && good && usual:
		fail("error", "returned the error %v", err)
	case err == nil && tr != ocpp.JSON && tr != ocpp.SOAP:
		fail("transport", "returned no error")
		return
	case err == nil && tr == ocpp.SOAP && pp == nil:
		fail("port", "returned no error")
	case err == nil && tr == ocpp.JSON && !good && url != "ws://sim:9000/":
		fail("url", "returned no error")
	}
	if err == nil {
		if id := c.Identity(); id != "cp1" {
			fail("identity", "Identity() = %q", id)
		}
		op := goSendCS(c, &cpreq.StartTransaction{ConnectorId: 1, IdTag: "T", MeterStart: 5, Timestamp: time.Unix(1577836800, 0)})
		x.Settle()
		x.Advance(70 * time.Second)
		r, _ := op.resp.(*cpresp.StartTransaction)
		switch {
		case !op.isDone():
			fail("send", "a Send did not return")
		case good && (op.err != nil || r == nil || r.TransactionId != 1005):
			fail("send-good", "a Send returned %v, %v", op.resp, op.err)
		case !good && op.err == nil && (r == nil || r.TransactionId != 1005):
			fail("send-bad", "a Send returned %v without an error", op.resp)
		}
		if good && !path {
			if n := x.count("handle", "cp1"); n != 1 {
				fail("handled", "a request was handled %d times as one of cp1", n)
			}
			svc, e := csys.GetServiceOf("cp1", map[ocpp.Transport]ocpp.Version{ocpp.JSON: ocpp.V16, ocpp.SOAP: ocpp.V15}[tr], "http://sim:9100")
			if e != nil {
				fail("service", "GetServiceOf: %v", e)
				return
			}
			op := goSendCP(svc, &csreq.RemoteStopTransaction{TransactionId: 7})
			x.Settle()
			x.Advance(70 * time.Second)
			r, _ := op.resp.(*csresp.RemoteStopTransaction)
			works := tr == ocpp.JSON || port == ":9100"
			if !op.isDone() || works && (op.err != nil || r == nil || r.Status != "S7") || !works && op.err == nil {
				fail("down", "a request to it: done %v, %v, %v", op.isDone(), op.resp, op.err)
			}
		}
		cancel()
		x.Settle()
		x.Advance(70 * time.Second)
	}
	if csys2 := len(leaks()); csys2 > g0 {
		fail("goroutines", "%d goroutines of the library before, %d after (error %v)", g0, csys2, err)
	}
	n := 0
	for _, l := range sn.listeners {
		if !l.closed {
			n++
		}
	}
	if n != l0 {
		fail("listeners", "%d ports in use before, %d after (error %v)", l0, n, err)
	}
	for _, k := range sn.conns[c0:] {
		if !k.closed && !k.rx.closed && !k.rx.reset {
			fail("conns", "a connection is left open (error %v)", err)
			break
		}
	}
	// the central system isn't disturbed
	if w := serves(x, csys, connectPeer(x, "cp1"), "cp1", 3); w != "" {
		fail("disturbed", "afterwards: %s", w)
	}
}

// serviceArgs: GetServiceOf with every version, identity and URL.
func serviceArgs(x *X) {
	csys := startCS(x, echoCS(x, nil))
	up := pick(2) == 1
	if up {
		connectPeer(x, "cp1")
	}
	x.Settle()
	ver, id, url := newVersions[pick(len(newVersions))], []string{"cp1", "cp2", "", "cp1 ", "/cp1"}[pick(5)], newURLs[pick(len(newURLs))]
	what := fmt.Sprintf("GetServiceOf(%q, %q, %q), connected %v", id, ver, url, up)
	x.cases++
	g0 := len(leaks())
	svc, err := csys.GetServiceOf(id, ver, url)
	switch {
	case ver == ocpp.V16 && up && id == "cp1":
		if err != nil {
			x.Fail("C31", "service", "%s: %v", what, err)
		}
		return
	case ver == ocpp.V15:
		if err != nil {
			return
		}
		op := goSendCP(svc, &csreq.ClearCache{})
		x.Settle()
		x.Advance(70 * time.Second)
		if !op.isDone() || op.err == nil {
			x.Fail("C31", "service-send", "%s: a Send to a charge point that is not there: done %v, %v, %v", what, op.isDone(), op.resp, op.err)
		}
		if n := len(leaks()); n > g0 {
			x.Fail("C31", "service-leak", "%s: %d goroutines of the library before, %d after", what, g0, n)
		}
	default:
		if err == nil {
			x.Fail("C31", "service-none", "%s: no error", what)
		}
	}
}

func init() {
	reg(&Scenario{ID: "new-args", Props: []string{"C31"}, Hist: true, Quick: 0, Thorough: 0,
		Desc: "charge points made of every combination of five transports, four versions, 16 URLs and four ports: refused with an error, or usable in both directions and stopped by the context", Run: newArgs})
	reg(&Scenario{ID: "service-args", Props: []string{"C31"}, Hist: true, Quick: 0, Thorough: 0,
		Desc: "GetServiceOf with every combination of four versions, five identities and 16 URLs, with and without a connection", Run: serviceArgs})
}
