//go:build go1.22

package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"time"
	"unsafe"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
)

type csHandler = cs.ChargePointMessageHandler
type cpHandler = cp.CentralSystemMessageHandler

// startCS runs a central system on the simulated port 9000.
func startCS(x *X, h csHandler) cs.CentralSystem {
	return startCSOn(x, "9000", h, nil)
}

func startCSOn(x *X, port string, h csHandler, prep func(cs.CentralSystem)) cs.CentralSystem {
	csys := cs.New()
	if prep != nil {
		prep(csys)
	}
	go func() {
		err := csys.Run(":"+port, h)
		x.Log("cs-run-returned", fmt.Sprint(err), "", 0)
	}()
	x.Settle()
	return csys
}

// connectPeer connects a scripted charge point and waits until it is up.
func connectPeer(x *X, id string) *wsPeer {
	p := dialPeer(x, id, "9000", "/"+id, "ocpp1.6")
	if p == nil {
		return nil
	}
	p.name = id
	if p.status == 101 {
		p.start()
	}
	x.Settle()
	return p
}

// sendOp is one Send call of a scenario.
type sendOp struct {
	tag  byte
	done bool
	t    int64
	t0   int64
	resp interface{}
	err  error
	pan  interface{}
}

//go:norace
func (s *sendOp) finish(resp interface{}, err error) {
	s.resp, s.err, s.t, s.done = resp, err, runtime.McNow(), true
	raceReleaseMerge(unsafe.Pointer(&s.tag))
}

//go:norace
func (s *sendOp) isDone() bool {
	if s.done {
		raceAcquire(unsafe.Pointer(&s.tag))
	}
	return s.done
}

// took is the virtual duration of the call in seconds
//
//go:norace
func (s *sendOp) took() float64 { return float64(s.t-s.t0) / 1e9 }

type cpService interface {
	Send(csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error)
}
type csService interface {
	Send(cpreq.ChargePointRequest) (cpresp.ChargePointResponse, error)
}

// goSendCP sends a request to a charge point from a new goroutine.
func goSendCP(svc cpService, r csreq.CentralSystemRequest) *sendOp {
	op := &sendOp{t0: runtime.McNow()}
	go func() {
		resp, err := svc.Send(r)
		op.finish(resp, err)
	}()
	return op
}

func goSendCS(svc csService, r cpreq.ChargePointRequest) *sendOp {
	op := &sendOp{t0: runtime.McNow()}
	go func() {
		resp, err := svc.Send(r)
		op.finish(resp, err)
	}()
	return op
}

// startCP runs a charge point against ws://sim:<port>.
func startCP(x *X, ctx context.Context, id, port string, h cpHandler) (cp.ChargePoint, error) {
	c, err := cp.New(ctx, id, "ws://sim:"+port, ocpp.V16, ocpp.JSON, nil, h)
	if err != nil {
		return nil, err
	}
	x.Settle()
	return c, nil
}

// q quotes a text as JSON.
func q(s string) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	e.Encode(s)
	return strings.TrimSuffix(b.String(), "\n")
}

func jq(s string) string { return q(s) }

func isNil(v interface{}) bool {
	if v == nil {
		return true
	}
	r := reflect.ValueOf(v)
	return r.Kind() == reflect.Ptr && r.IsNil()
}

func short(err error) string {
	if err == nil {
		return "nil"
	}
	s := err.Error()
	if len(s) > 120 {
		s = s[:120]
	}
	return strings.ReplaceAll(s, "\n", " ")
}

func sec(n float64) time.Duration { return time.Duration(n * float64(time.Second)) }
