From 38a346dbdb389c87e7bb2e6907322da994165833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 01/48] fix: guard the pending calls of a connection and never
 block the reader on them

sentMessages and responsesOf were accessed by the reader and by every
concurrent Send without synchronization, and a reply that came after the
timeout of its call (or a second reply) blocked the reader forever.
---
 ws/conn.go | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/ws/conn.go b/ws/conn.go
index b85bc00..5612818 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -36,6 +36,8 @@ type Conn struct {
 		MessageID
 	}
 	responsesOf map[MessageID]chan CallResponse
+	// guards sentMessages and responsesOf
+	pendingMux sync.Mutex
 }
 
 func newConn(socket *websocket.Conn) *Conn {
@@ -188,7 +190,9 @@ func (c *Conn) ReadMessage() error {
 	log.Debug("Received a message, parsed: %v", msg)
 
 	if msg.Type() == CallResult || msg.Type() == CallError {
+		c.pendingMux.Lock()
 		_, ok := c.sentMessages[msg.ID()]
+		c.pendingMux.Unlock()
 		if !ok {
 			return errors.New("received call error/result without sending any call message")
 		}
@@ -210,19 +214,30 @@ func (c *Conn) ReadMessage() error {
 	case *CallResultMessage:
 		var resp messages.Response
 		resp, wserr = c.callResultToResponse(m)
-		c.responsesOf[m.ID()] <- CallResponse{
+		c.deliver(m.ID(), CallResponse{
 			response: resp,
 			err:      wserr,
-		}
+		})
 	case *CallErrorMessage:
-		c.responsesOf[m.ID()] <- CallResponse{
+		c.deliver(m.ID(), CallResponse{
 			response: nil,
 			err:      m,
-		}
+		})
 	}
 	return nil
 }
 
+// deliver hands a response over to the call waiting for it, it never
+// blocks: only the first response of a call counts
+func (c *Conn) deliver(id MessageID, response CallResponse) {
+	c.pendingMux.Lock()
+	defer c.pendingMux.Unlock()
+	select {
+	case c.responsesOf[id] <- response:
+	default:
+	}
+}
+
 func (c *Conn) callToRequest(call *CallMessage) (messages.Request, ErrorCode) {
 	req := req.FromActionName(string(call.Action))
 	if req == nil {
@@ -241,7 +256,9 @@ func (c *Conn) callToRequest(call *CallMessage) (messages.Request, ErrorCode) {
 
 func (c *Conn) callResultToResponse(result *CallResultMessage) (messages.Response, ErrorCode) {
 	id := result.ID()
+	c.pendingMux.Lock()
 	call, ok := c.sentMessages[id]
+	c.pendingMux.Unlock()
 	if !ok {
 		return nil, GenericError
 	}
@@ -292,16 +309,23 @@ func (c *Conn) SendRequest(request messages.Request) (messages.Response, error)
 	if err != nil {
 		return nil, err
 	}
+	responses := make(chan CallResponse, 1)
+	c.pendingMux.Lock()
 	c.sentMessages[id] = msg
-	c.responsesOf[id] = make(chan CallResponse)
+	c.responsesOf[id] = responses
+	c.pendingMux.Unlock()
+	defer func() {
+		c.pendingMux.Lock()
+		delete(c.sentMessages, id)
+		delete(c.responsesOf, id)
+		c.pendingMux.Unlock()
+	}()
 	err = c.sendMessage(msg)
 	if err != nil {
 		return nil, err
 	}
 	select {
-	case callResponse := <-c.responsesOf[id]:
-		delete(c.sentMessages, id)
-		delete(c.responsesOf, id)
+	case callResponse := <-responses:
 		if callResponse.err != Nil {
 			return nil, callResponse.err
 		}
-- 
2.43.0


From 601b0f8e8498e1176c5792d278b7e2517516697c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 02/48] fix: do not panic on messages with too few fields or an
 unknown type

---
 ws/conn.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ws/conn.go b/ws/conn.go
index 5612818..96f1a80 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -121,6 +121,9 @@ func UnmarshalMessage(msg []byte) (Message, error) {
 	if err != nil {
 		return nil, fmt.Errorf("on unmarshalling websocket message: %w", err)
 	}
+	if len(frame) < 3 {
+		return nil, fmt.Errorf("message has only %d fields", len(frame))
+	}
 	msgType, ok := frame[0].(float64)
 	if !ok {
 		return nil, fmt.Errorf("first field is not a message type: %w", err)
@@ -132,6 +135,9 @@ func UnmarshalMessage(msg []byte) (Message, error) {
 	id := MessageID(idStr)
 	switch MessageType(msgType) {
 	case Call:
+		if len(frame) < 4 {
+			return nil, fmt.Errorf("call message has only %d fields", len(frame))
+		}
 		actionStr, ok := frame[2].(string)
 		if !ok {
 			return nil, fmt.Errorf("third field is not action: %w", err)
@@ -149,6 +155,9 @@ func UnmarshalMessage(msg []byte) (Message, error) {
 		}
 		return &CallResultMessage{id, payload}, nil
 	case CallError:
+		if len(frame) < 5 {
+			return nil, fmt.Errorf("call error message has only %d fields", len(frame))
+		}
 		codeStr, ok := frame[2].(string)
 		if !ok {
 			return nil, fmt.Errorf("third field is not error code: %w", err)
@@ -163,7 +172,7 @@ func UnmarshalMessage(msg []byte) (Message, error) {
 		}
 		return &CallErrorMessage{id, ErrorCode(codeStr), description, details}, nil
 	}
-	return nil, nil
+	return nil, fmt.Errorf("unknown message type: %v", msgType)
 }
 
 func (c *Conn) ReadMessageAsync() <-chan error {
-- 
2.43.0


From 658796724a472411ab0181c2de946cf78e34b569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 03/48] fix: do not leave a reader goroutine behind for every
 request and connection

---
 ws/conn.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ws/conn.go b/ws/conn.go
index 96f1a80..c0ae8bc 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -176,7 +176,8 @@ func UnmarshalMessage(msg []byte) (Message, error) {
 }
 
 func (c *Conn) ReadMessageAsync() <-chan error {
-	readMessageResultChannel := make(chan error)
+	// buffered, the reader must not be left behind if nobody wants its result
+	readMessageResultChannel := make(chan error, 1)
 	go func() {
 		readMessageResultChannel <- c.ReadMessage()
 	}()
@@ -216,10 +217,14 @@ func (c *Conn) ReadMessage() error {
 			msg := NewCallErrorMessage(msg.ID(), wserr, "on handling message")
 			return c.sendMessage(msg)
 		}
-		c.requests <- struct {
+		select {
+		case c.requests <- struct {
 			messages.Request
 			MessageID
-		}{req, msg.ID()}
+		}{req, msg.ID()}:
+		case <-c.ctx.Done():
+			return errors.New("connection closed before handling the request")
+		}
 	case *CallResultMessage:
 		var resp messages.Response
 		resp, wserr = c.callResultToResponse(m)
-- 
2.43.0


From e31182e8aa046d96f89c8b990e8c011fb9cc258d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 04/48] fix: end a Send as soon as its connection is closed

---
 ws/conn.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ws/conn.go b/ws/conn.go
index c0ae8bc..bec865b 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -344,6 +344,17 @@ func (c *Conn) SendRequest(request messages.Request) (messages.Response, error)
 			return nil, callResponse.err
 		}
 		return callResponse.response, nil
+	case <-c.ctx.Done():
+		// the response may have arrived just before the end
+		select {
+		case callResponse := <-responses:
+			if callResponse.err != Nil {
+				return nil, callResponse.err
+			}
+			return callResponse.response, nil
+		default:
+			return nil, errors.New("connection closed before the response")
+		}
 	case <-time.After(internal.DefaultRequestTimeout):
 		return nil, fmt.Errorf("request timeout exceeded")
 	}
-- 
2.43.0


From dd499736033f8498194f1eb65e3a71ec18a8e3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:50 +0000
Subject: [PATCH 05/48] fix: answer a call whose response is missing or can't
 be encoded with an error

---
 ws/conn.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ws/conn.go b/ws/conn.go
index bec865b..6401dfd 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -291,6 +291,15 @@ func (c *Conn) callResultToResponse(result *CallResultMessage) (messages.Respons
 	return resp, Nil
 }
 func (c *Conn) SendResponse(id MessageID, response messages.Response, err error) error {
+	if err == nil {
+		// every call must be answered, even if the response isn't usable
+		payload, marshalErr := json.Marshal(response)
+		if marshalErr != nil {
+			err = fmt.Errorf("on marshalling response: %w", marshalErr)
+		} else if string(payload) == "null" {
+			err = errors.New("no response to the request")
+		}
+	}
 	return c.sendMessage(unmarshalResponse(id, response, err))
 }
 func (c *Conn) sendMessage(msg Message) error {
-- 
2.43.0


From fee6dea08dae356a46e72277b1386d8fef8597eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:50 +0000
Subject: [PATCH 06/48] fix: decode the response of a DataTransfer instead of
 panicking on it

---
 ws/conn.go    | 5 +++--
 ws/message.go | 3 +++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ws/conn.go b/ws/conn.go
index 6401dfd..ae1d7d8 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -147,7 +147,7 @@ func UnmarshalMessage(msg []byte) (Message, error) {
 		if !ok {
 			return nil, fmt.Errorf("fourth field is not payload: %w", err)
 		}
-		return &CallMessage{id, action, payload}, nil
+		return NewCallMessage(id, action, payload), nil
 	case CallResult:
 		payload, ok := frame[2].(map[string]interface{})
 		if !ok {
@@ -279,7 +279,7 @@ func (c *Conn) callResultToResponse(result *CallResultMessage) (messages.Respons
 	if call == nil {
 		return nil, NotSupported
 	}
-	resp := req.FromActionName(string(call.Action)).GetResponse()
+	resp := call.request.GetResponse()
 	originalPayload, err := json.Marshal(result.Payload)
 	if err != nil {
 		return nil, GenericError
@@ -332,6 +332,7 @@ func (c *Conn) SendRequest(request messages.Request) (messages.Response, error)
 	if err != nil {
 		return nil, err
 	}
+	msg.request = request
 	responses := make(chan CallResponse, 1)
 	c.pendingMux.Lock()
 	c.sentMessages[id] = msg
diff --git a/ws/message.go b/ws/message.go
index 05f53d2..9ae4fd9 100644
--- a/ws/message.go
+++ b/ws/message.go
@@ -26,6 +26,9 @@ type CallMessage struct {
 	id MessageID
 	Action
 	Payload map[string]interface{}
+	// set on the calls we send, as the action alone
+	// doesn't determine the type of the response
+	request messages.Request
 }
 
 func NewCallMessage(id MessageID, action Action, payload map[string]interface{}) *CallMessage {
-- 
2.43.0


From 4061741816b4bb9b8ed59ddc646762453e85d70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:15 +0000
Subject: [PATCH 07/48] fix: only select a subprotocol that the charge point
 offered

---
 ws/conn.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ws/conn.go b/ws/conn.go
index ae1d7d8..dabcb47 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -86,7 +86,15 @@ func ocppVersionToProtocol(version ocpp.Version) string {
 
 func Handshake(w http.ResponseWriter, r *http.Request, supportedVersions []ocpp.Version) (*Conn, error) {
 	upgraderHeader := http.Header{}
+	offered := make(map[string]bool)
+	for _, protocol := range websocket.Subprotocols(r) {
+		offered[protocol] = true
+	}
 	for _, v := range supportedVersions {
+		if !offered[ocppVersionToProtocol(v)] {
+			// selecting a protocol the client didn't offer violates RFC 6455
+			continue
+		}
 		upgraderHeader.Add("Sec-WebSocket-Protocol", ocppVersionToProtocol(v))
 	}
 	socket, err := upgrader.Upgrade(w, r, upgraderHeader)
-- 
2.43.0


From e430ce94805a59fffc88d428b51bdb193ce77f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:15 +0000
Subject: [PATCH 08/48] fix: escape the identity in the URL of the central
 system

---
 ws/conn.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ws/conn.go b/ws/conn.go
index dabcb47..964af4c 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -7,6 +7,7 @@ import (
 	"errors"
 	"fmt"
 	"net/http"
+	"net/url"
 	"sync"
 	"time"
 
@@ -59,7 +60,7 @@ func Dial(identity, csURL string, version ocpp.Version) (*Conn, error) {
 	dialer := websocket.Dialer{
 		Subprotocols: []string{ocppVersionToProtocol(version)},
 	}
-	socket, _, err := dialer.Dial(csURL+"/"+identity, http.Header{})
+	socket, _, err := dialer.Dial(csURL+"/"+url.PathEscape(identity), http.Header{})
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 7180f84b2115a37f60f5858047f222d94d3043b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:05 +0000
Subject: [PATCH 09/48] fix: answer a request of the wrong role with an error

The central system left the caller waiting, the charge point called its
handler with a nil request.
---
 cp/json.go | 5 +++++
 cs/cs.go   | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/cp/json.go b/cp/json.go
index 15a0ceb..ad4515e 100644
--- a/cp/json.go
+++ b/cp/json.go
@@ -55,6 +55,11 @@ func (cp *chargePoint) handleWebsocketConnection(cshandler CentralSystemMessageH
 			cprequest, ok := req.Request.(csreq.CentralSystemRequest)
 			if !ok {
 				log.Error(csreq.ErrorNotCentralSystemRequest.Error())
+				err := cp.conn.SendResponse(req.MessageID, nil, csreq.ErrorNotCentralSystemRequest)
+				if err != nil {
+					log.Error(err.Error())
+				}
+				continue
 			}
 			cpresponse, err := cshandler(cprequest)
 			err = cp.conn.SendResponse(req.MessageID, cpresponse, err)
diff --git a/cs/cs.go b/cs/cs.go
index b9a2412..134280a 100644
--- a/cs/cs.go
+++ b/cs/cs.go
@@ -142,6 +142,10 @@ func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Reques
 			cprequest, ok := req.Request.(cpreq.ChargePointRequest)
 			if !ok {
 				log.Error(cpreq.ErrorNotChargePointRequest.Error())
+				err := conn.SendResponse(req.MessageID, nil, cpreq.ErrorNotChargePointRequest)
+				if err != nil {
+					log.Error(err.Error())
+				}
 				continue
 			}
 			cpresponse, err := cphandler(cprequest, ChargePointRequestMetadata{
-- 
2.43.0


From c3283cd9e26ed029b4d1c6158bd86040b9c9a5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:06 +0000
Subject: [PATCH 10/48] fix: don't read the connections of the central system
 without its lock

---
 cs/cs.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cs/cs.go b/cs/cs.go
index 134280a..8d3de22 100644
--- a/cs/cs.go
+++ b/cs/cs.go
@@ -76,11 +76,14 @@ func (csys *centralSystem) Run(port string, cphandler ChargePointMessageHandler)
 			// it's not a SOAP request
 			// it's someone lurking around in this URL
 			// let's present something nice
+			csys.connMux.Lock()
+			connected := len(csys.conns)
+			csys.connMux.Unlock()
 			body := fmt.Sprintf(
 				`<h1>OCPP Central System</h1>
 				<p>currently connected with %d OCPP-J stations, and more OCPP-S stations</p>
 				<i>Central System using <a href="https://github.com/voltbras/go-ocpp"/>https://github.com/voltbras/go-ocpp</i>`,
-				len(csys.conns),
+				connected,
 			)
 			w.Write([]byte(body))
 		} else {
@@ -93,7 +96,9 @@ func (csys *centralSystem) Run(port string, cphandler ChargePointMessageHandler)
 }
 
 func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Request, cphandler ChargePointMessageHandler) {
+	csys.connMux.Lock()
 	log.Debug("Current WS connections map: %v", csys.conns)
+	csys.connMux.Unlock()
 	cpID := strings.TrimPrefix(r.URL.Path, "/")
 
 	rawReq, _ := httputil.DumpRequest(r, true)
-- 
2.43.0


From 0b55a6e0a79d9734f70d30c5243d0a54c0ba5a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:06 +0000
Subject: [PATCH 11/48] fix: use an older connection of a charge point if the
 newest one closes first

---
 cs/cs.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/cs/cs.go b/cs/cs.go
index 8d3de22..163e590 100644
--- a/cs/cs.go
+++ b/cs/cs.go
@@ -48,6 +48,8 @@ type CentralSystem interface {
 
 type centralSystem struct {
 	conns map[string]*ws.Conn
+	// every open connection of a charge point, the newest is the last one
+	openConns map[string][]*ws.Conn
 	// used to symbolize if the connection is connected
 	connChans       map[string]chan struct{}
 	connsConnected  map[string]bool
@@ -60,6 +62,7 @@ type centralSystem struct {
 func New() CentralSystem {
 	return &centralSystem{
 		conns:           make(map[string]*ws.Conn, 0),
+		openConns:       make(map[string][]*ws.Conn, 0),
 		connChans:       make(map[string]chan struct{}, 0),
 		connsCount:      make(map[string]int, 0),
 		connsConnected:  make(map[string]bool, 0),
@@ -112,6 +115,7 @@ func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Reques
 
 	csys.connMux.Lock()
 	csys.conns[cpID] = conn
+	csys.openConns[cpID] = append(csys.openConns[cpID], conn)
 	csys.connsCount[cpID]++
 	if csys.connChans[cpID] == nil {
 		csys.connChans[cpID] = make(chan struct{})
@@ -131,12 +135,24 @@ func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Reques
 		go csys.disconnListener(cpID)
 		csys.connMux.Lock()
 		csys.connsCount[cpID]--
+		open := csys.openConns[cpID]
+		for i := range open {
+			if open[i] == conn {
+				open = append(open[:i], open[i+1:]...)
+				break
+			}
+		}
+		csys.openConns[cpID] = open
 		// if the same CP connected more times before we do the
 		// connection cleanup, don't remove the connection reference
 		if csys.connsCount[cpID] == 0 {
 			delete(csys.conns, cpID)
 			csys.connChans[cpID] = make(chan struct{})
 			csys.connsConnected[cpID] = false
+			delete(csys.openConns, cpID)
+		} else if csys.conns[cpID] == conn {
+			// the newest connection closed before the older ones
+			csys.conns[cpID] = open[len(open)-1]
 		}
 		csys.connMux.Unlock()
 	}()
-- 
2.43.0


From 26bb95d944e7dd7d806cb757860646e0ce61d403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:07 +0000
Subject: [PATCH 12/48] fix: notify a disconnection after the cleanup and after
 the notification of the connection

---
 cs/cs.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cs/cs.go b/cs/cs.go
index 163e590..5d56a24 100644
--- a/cs/cs.go
+++ b/cs/cs.go
@@ -127,12 +127,15 @@ func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Reques
 	csys.connMux.Unlock()
 
 	log.Debug("Connected with %s", cpID)
-	go csys.connListener(cpID)
+	notified := make(chan struct{})
+	go func() {
+		defer close(notified)
+		csys.connListener(cpID)
+	}()
 
 	defer func() {
 		conn.Close()
 		log.Debug("Closed connection of: %s", cpID)
-		go csys.disconnListener(cpID)
 		csys.connMux.Lock()
 		csys.connsCount[cpID]--
 		open := csys.openConns[cpID]
@@ -155,6 +158,12 @@ func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Reques
 			csys.conns[cpID] = open[len(open)-1]
 		}
 		csys.connMux.Unlock()
+		// only after the connection is cleaned up and its
+		// connection listener had its turn
+		go func() {
+			<-notified
+			csys.disconnListener(cpID)
+		}()
 	}()
 
 	for {
-- 
2.43.0


From c17c1e20ff4b7ef337d65ce0b0bb7e751bdcf7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:08 +0000
Subject: [PATCH 13/48] fix: guard the connection of a charge point by a mutex

It is replaced on a reconnection while the application uses it.
---
 cp/cp.go   | 14 ++++++++++++++
 cp/json.go | 10 +++++++++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/cp/cp.go b/cp/cp.go
index 79cb293..47bfaf7 100644
--- a/cp/cp.go
+++ b/cp/cp.go
@@ -4,9 +4,12 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"sync"
 
 	"github.com/voltbras/go-ocpp"
 	"github.com/voltbras/go-ocpp/internal/service"
+	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
+	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
 	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
 	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
 	"github.com/voltbras/go-ocpp/soap"
@@ -35,6 +38,17 @@ type chargePoint struct {
 	conn             *ws.Conn
 	ctx              context.Context
 	connectedChan    chan struct{}
+	// guards what changes on a reconnection:
+	// conn, connectedChan and CentralSystem
+	connMux sync.Mutex
+}
+
+// Send a request to the central system, using the current connection
+func (cp *chargePoint) Send(request cpreq.ChargePointRequest) (cpresp.ChargePointResponse, error) {
+	cp.connMux.Lock()
+	centralSystem := cp.CentralSystem
+	cp.connMux.Unlock()
+	return centralSystem.Send(request)
 }
 
 // Run the charge point on the given port
diff --git a/cp/json.go b/cp/json.go
index ad4515e..fe847c1 100644
--- a/cp/json.go
+++ b/cp/json.go
@@ -14,6 +14,8 @@ const (
 )
 
 func (cp *chargePoint) Connection() *ws.Conn {
+	cp.connMux.Lock()
+	defer cp.connMux.Unlock()
 	return cp.conn
 }
 
@@ -23,6 +25,8 @@ func (cp *chargePoint) getNewWebsocketConnection() error {
 	if err != nil {
 		return err
 	}
+	cp.connMux.Lock()
+	defer cp.connMux.Unlock()
 	cp.conn = conn
 	cp.CentralSystem = service.NewCentralSystemJSON(cp.conn)
 	// closing the channel will make the reads non blocking
@@ -38,7 +42,9 @@ func (cp *chargePoint) handleWebsocketConnection(cshandler CentralSystemMessageH
 			return
 		case <-cp.conn.WaitClose():
 			log.Debug("Closed connection of Central System")
+			cp.connMux.Lock()
 			cp.connectedChan = make(chan struct{})
+			cp.connMux.Unlock()
 			// try to connect until it is established
 			for {
 				err := cp.getNewWebsocketConnection()
@@ -71,9 +77,11 @@ func (cp *chargePoint) handleWebsocketConnection(cshandler CentralSystemMessageH
 }
 
 func (cp *chargePoint) WaitConnect() <-chan struct{} {
+	cp.connMux.Lock()
+	defer cp.connMux.Unlock()
 	return cp.connectedChan
 }
 
 func (cp *chargePoint) WaitDisconnect() <-chan struct{} {
-	return cp.conn.WaitClose()
+	return cp.Connection().WaitClose()
 }
-- 
2.43.0


From 3cd38d486004639faeb9ca3c96d6293893da371c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:08 +0000
Subject: [PATCH 14/48] fix: stop trying to reconnect once the context of the
 charge point is done

---
 cp/json.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cp/json.go b/cp/json.go
index fe847c1..df0c209 100644
--- a/cp/json.go
+++ b/cp/json.go
@@ -50,7 +50,11 @@ func (cp *chargePoint) handleWebsocketConnection(cshandler CentralSystemMessageH
 				err := cp.getNewWebsocketConnection()
 				if err != nil {
 					log.Error("On restarting connection with Central System: %w", err)
-					<-time.After(websocketConnectionRetryInterval)
+					select {
+					case <-time.After(websocketConnectionRetryInterval):
+					case <-cp.ctx.Done():
+						return
+					}
 				} else {
 					break
 				}
-- 
2.43.0


From 5b106677438fd4c66746545d21df7907980563df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 15/48] fix: bound the time of the handshake with a central
 system

---
 ws/conn.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ws/conn.go b/ws/conn.go
index 964af4c..1dbfd8c 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -59,6 +59,8 @@ func newConn(socket *websocket.Conn) *Conn {
 func Dial(identity, csURL string, version ocpp.Version) (*Conn, error) {
 	dialer := websocket.Dialer{
 		Subprotocols: []string{ocppVersionToProtocol(version)},
+		// a central system that never answers must not block us forever
+		HandshakeTimeout: internal.DefaultRequestTimeout,
 	}
 	socket, _, err := dialer.Dial(csURL+"/"+url.PathEscape(identity), http.Header{})
 	if err != nil {
-- 
2.43.0


From cc99333ec165f37f91517f1def2b82b17cc711de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:10 +0000
Subject: [PATCH 16/48] fix: bound the time of sending a message

---
 ws/conn.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ws/conn.go b/ws/conn.go
index 1dbfd8c..aff2042 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -322,6 +322,8 @@ func (c *Conn) sendMessage(msg Message) error {
 		return fmt.Errorf("on marshalling message: %w", err)
 	}
 	log.Debug("Sending message [raw]: %v", string(bts))
+	// a peer that stopped reading must not block the senders forever
+	c.Conn.SetWriteDeadline(time.Now().Add(internal.DefaultRequestTimeout))
 	err = c.Conn.WriteMessage(websocket.TextMessage, bts)
 	if err != nil {
 		return fmt.Errorf("on sending message: %w", err)
-- 
2.43.0


From 5353146357fb2d906aa337f8ed9b326b044c92bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 17/48] fix: stop the SOAP server of a charge point once its
 context is done

---
 cp/soap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cp/soap.go b/cp/soap.go
index 4a791dd..b68f2ef 100644
--- a/cp/soap.go
+++ b/cp/soap.go
@@ -15,13 +15,13 @@ func handleSoap(ctx context.Context, port string, cshandler CentralSystemMessage
 	handler := soapHandler{cshandler}
 	server := &http.Server{Addr: port, Handler: handler}
 
-	serverErrorCh := make(chan error)
+	serverErrorCh := make(chan error, 1)
 	go func() {
 		serverErrorCh <- server.ListenAndServe()
 	}()
 	select {
 	case <-ctx.Done():
-		return nil
+		return server.Close()
 	case err := <-serverErrorCh:
 		return err
 	}
-- 
2.43.0


From 2d5a2469e8ae72c2407d49c320f8c8c5ebd41067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 18/48] fix: close a connection that can't be written to any
 more

Nothing can be sent after a failed write, the other end has to notice and the
charge point has to reconnect.
---
 ws/conn.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ws/conn.go b/ws/conn.go
index aff2042..6ae87cf 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -326,6 +326,7 @@ func (c *Conn) sendMessage(msg Message) error {
 	c.Conn.SetWriteDeadline(time.Now().Add(internal.DefaultRequestTimeout))
 	err = c.Conn.WriteMessage(websocket.TextMessage, bts)
 	if err != nil {
+		c.Close()
 		return fmt.Errorf("on sending message: %w", err)
 	}
 	log.Debug("Sent message!")
-- 
2.43.0


From 90f8c3c95b16b093b287c4d5502264c858732c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:04 +0000
Subject: [PATCH 19/48] fix: leave out optional fields that are not set

An empty string isn't a value of an optional enumeration, and null isn't an
object or an array: a peer that validates the messages rejected them.
---
 messages/v1x/cpreq/json_encode.go  | 160 ++++++++++++++++-------------
 messages/v1x/cpresp/json_encode.go |  20 ++--
 messages/v1x/csreq/json_encode.go  | 120 ++++++++++++----------
 messages/v1x/csresp/json_encode.go |  60 ++++++-----
 4 files changed, 198 insertions(+), 162 deletions(-)

diff --git a/messages/v1x/cpreq/json_encode.go b/messages/v1x/cpreq/json_encode.go
index 38bd439..8bf348d 100644
--- a/messages/v1x/cpreq/json_encode.go
+++ b/messages/v1x/cpreq/json_encode.go
@@ -590,71 +590,83 @@ func (m *SampledValue) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "context" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"context\": ")
-	if tmp, err := json.Marshal(m.Context); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Context != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"context\": ")
+		if tmp, err := json.Marshal(m.Context); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "format" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"format\": ")
-	if tmp, err := json.Marshal(m.Format); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Format != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"format\": ")
+		if tmp, err := json.Marshal(m.Format); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "location" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"location\": ")
-	if tmp, err := json.Marshal(m.Location); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Location != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"location\": ")
+		if tmp, err := json.Marshal(m.Location); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "measurand" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"measurand\": ")
-	if tmp, err := json.Marshal(m.Measurand); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Measurand != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"measurand\": ")
+		if tmp, err := json.Marshal(m.Measurand); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "phase" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"phase\": ")
-	if tmp, err := json.Marshal(m.Phase); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Phase != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"phase\": ")
+		if tmp, err := json.Marshal(m.Phase); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "unit" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"unit\": ")
-	if tmp, err := json.Marshal(m.Unit); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Unit != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"unit\": ")
+		if tmp, err := json.Marshal(m.Unit); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "Value" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "value" field
@@ -1035,16 +1047,18 @@ func (m *StopTransaction) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "reason" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"reason\": ")
-	if tmp, err := json.Marshal(m.Reason); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Reason != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"reason\": ")
+		if tmp, err := json.Marshal(m.Reason); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "Timestamp" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "timestamp" field
@@ -1059,16 +1073,18 @@ func (m *StopTransaction) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "transactionData" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"transactionData\": ")
-	if tmp, err := json.Marshal(m.TransactionData); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.TransactionData != nil {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"transactionData\": ")
+		if tmp, err := json.Marshal(m.TransactionData); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "TransactionId" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "transactionId" field
diff --git a/messages/v1x/cpresp/json_encode.go b/messages/v1x/cpresp/json_encode.go
index eb776b1..46b4a6f 100644
--- a/messages/v1x/cpresp/json_encode.go
+++ b/messages/v1x/cpresp/json_encode.go
@@ -501,16 +501,18 @@ func (m *StopTransaction) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "idTagInfo" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"idTagInfo\": ")
-	if tmp, err := json.Marshal(m.IdTagInfo); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.IdTagInfo != nil {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"idTagInfo\": ")
+		if tmp, err := json.Marshal(m.IdTagInfo); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 
 	buf.WriteString("}")
 	rv := buf.Bytes()
diff --git a/messages/v1x/csreq/json_encode.go b/messages/v1x/csreq/json_encode.go
index 924e656..e585e34 100644
--- a/messages/v1x/csreq/json_encode.go
+++ b/messages/v1x/csreq/json_encode.go
@@ -257,16 +257,18 @@ func (m *ChargingProfile) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "recurrencyKind" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"recurrencyKind\": ")
-	if tmp, err := json.Marshal(m.RecurrencyKind); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.RecurrencyKind != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"recurrencyKind\": ")
+		if tmp, err := json.Marshal(m.RecurrencyKind); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "StackLevel" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "stackLevel" field
@@ -421,16 +423,18 @@ func (m *ClearChargingProfile) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "chargingProfilePurpose" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"chargingProfilePurpose\": ")
-	if tmp, err := json.Marshal(m.ChargingProfilePurpose); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.ChargingProfilePurpose != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"chargingProfilePurpose\": ")
+		if tmp, err := json.Marshal(m.ChargingProfilePurpose); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "connectorId" field
 	if comma {
 		buf.WriteString(",")
@@ -584,16 +588,18 @@ func (m *GetCompositeSchedule) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "chargingRateUnit" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"chargingRateUnit\": ")
-	if tmp, err := json.Marshal(m.ChargingRateUnit); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.ChargingRateUnit != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"chargingRateUnit\": ")
+		if tmp, err := json.Marshal(m.ChargingRateUnit); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "ConnectorId" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "connectorId" field
@@ -904,16 +910,18 @@ func (m *LocalAuthorizationListItems) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "idTagInfo" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"idTagInfo\": ")
-	if tmp, err := json.Marshal(m.IdTagInfo); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.IdTagInfo != nil {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"idTagInfo\": ")
+		if tmp, err := json.Marshal(m.IdTagInfo); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 
 	buf.WriteString("}")
 	rv := buf.Bytes()
@@ -1145,16 +1153,18 @@ func (m *SendLocalList) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "localAuthorizationList" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"localAuthorizationList\": ")
-	if tmp, err := json.Marshal(m.LocalAuthorizationList); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.LocalAuthorizationList != nil {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"localAuthorizationList\": ")
+		if tmp, err := json.Marshal(m.LocalAuthorizationList); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "UpdateType" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "updateType" field
@@ -1529,16 +1539,18 @@ func (m *CsChargingProfiles) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "recurrencyKind" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"recurrencyKind\": ")
-	if tmp, err := json.Marshal(m.RecurrencyKind); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.RecurrencyKind != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"recurrencyKind\": ")
+		if tmp, err := json.Marshal(m.RecurrencyKind); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "StackLevel" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "stackLevel" field
diff --git a/messages/v1x/csresp/json_encode.go b/messages/v1x/csresp/json_encode.go
index 36bc65b..aa47674 100644
--- a/messages/v1x/csresp/json_encode.go
+++ b/messages/v1x/csresp/json_encode.go
@@ -596,16 +596,18 @@ func (m *GetCompositeSchedule) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "chargingSchedule" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"chargingSchedule\": ")
-	if tmp, err := json.Marshal(m.ChargingSchedule); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.ChargingSchedule != nil {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"chargingSchedule\": ")
+		if tmp, err := json.Marshal(m.ChargingSchedule); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "connectorId" field
 	if comma {
 		buf.WriteString(",")
@@ -684,27 +686,31 @@ func (m *GetConfiguration) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "configurationKey" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"configurationKey\": ")
-	if tmp, err := json.Marshal(m.ConfigurationKey); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.ConfigurationKey != nil {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"configurationKey\": ")
+		if tmp, err := json.Marshal(m.ConfigurationKey); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "unknownKey" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"unknownKey\": ")
-	if tmp, err := json.Marshal(m.UnknownKey); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.UnknownKey != nil {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"unknownKey\": ")
+		if tmp, err := json.Marshal(m.UnknownKey); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 
 	buf.WriteString("}")
 	rv := buf.Bytes()
-- 
2.43.0


From ed3e41990968c72e8d95df17bd0abb129d6d07f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 20/48] fix: malformed tags of the responses to DataTransfer
 and StopTransaction

---
 messages/v1x/cpresp/messages.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/messages/v1x/cpresp/messages.go b/messages/v1x/cpresp/messages.go
index 597de5e..933a6ba 100644
--- a/messages/v1x/cpresp/messages.go
+++ b/messages/v1x/cpresp/messages.go
@@ -30,7 +30,7 @@ type DataTransfer struct {
 	chargepointResponse
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ dataTransferResponse"`
 
-	Data   string `json:"data, xml:"data,omitempty"omitempty"`
+	Data   string `json:"data,omitempty" xml:"data,omitempty"`
 	Status string `json:"status" xml:"status,omitempty"`
 }
 
@@ -87,5 +87,5 @@ type StopTransaction struct {
 	chargepointResponse
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ stopTransactionResponse"`
 
-	IdTagInfo *IdTagInfo `json:"idTagInfo, xml:"idTagInfo,omitempty"omitempty"`
+	IdTagInfo *IdTagInfo `json:"idTagInfo,omitempty" xml:"idTagInfo,omitempty"`
 }
-- 
2.43.0


From 7fcd8693d46de9ad89cef916e606b8d854263c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:42 +0000
Subject: [PATCH 21/48] fix: encode and decode the optional fields of an
 IdTagInfo

---
 messages/v1x/csreq/json_encode.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/messages/v1x/csreq/json_encode.go b/messages/v1x/csreq/json_encode.go
index e585e34..b5f5e4a 100644
--- a/messages/v1x/csreq/json_encode.go
+++ b/messages/v1x/csreq/json_encode.go
@@ -829,16 +829,18 @@ func (m *IdTagInfo) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "expiryDate" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"expiryDate\": ")
-	if tmp, err := json.Marshal(m.ExpiryDate.Format(time.RFC3339)); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.ExpiryDate != nil {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"expiryDate\": ")
+		if tmp, err := json.Marshal(m.ExpiryDate.Format(time.RFC3339)); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "parentIdTag" field
 	if comma {
 		buf.WriteString(",")
@@ -878,6 +880,14 @@ func (m *IdTagInfo) UnmarshalJSON(b []byte) error {
 	// parse all the defined properties
 	for k, v := range jsonMap {
 		switch k {
+		case "expiryDate":
+			if err := json.Unmarshal([]byte(v), &m.ExpiryDate); err != nil {
+				return err
+			}
+		case "parentIdTag":
+			if err := json.Unmarshal([]byte(v), &m.ParentIdTag); err != nil {
+				return err
+			}
 		case "status":
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
-- 
2.43.0


From d4efd252c168810b2f0b2c64610bb4af1094cae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 22/48] fix: decode the requests of a remote transaction as
 strictly as the others

---
 messages/v1x/csreq/json_encode.go | 58 +++++++++++++++++++++++++++++++
 1 file changed, 58 insertions(+)

diff --git a/messages/v1x/csreq/json_encode.go b/messages/v1x/csreq/json_encode.go
index b5f5e4a..1dd87ce 100644
--- a/messages/v1x/csreq/json_encode.go
+++ b/messages/v1x/csreq/json_encode.go
@@ -965,6 +965,64 @@ func (m *LocalAuthorizationListItems) UnmarshalJSON(b []byte) error {
 	return nil
 }
 
+func (m *RemoteStartTransaction) UnmarshalJSON(b []byte) error {
+	idTagReceived := false
+	var jsonMap map[string]json.RawMessage
+	if err := json.Unmarshal(b, &jsonMap); err != nil {
+		return err
+	}
+	// parse all the defined properties
+	for k, v := range jsonMap {
+		switch k {
+		case "chargingProfile":
+			if err := json.Unmarshal([]byte(v), &m.ChargingProfile); err != nil {
+				return err
+			}
+		case "connectorId":
+			if err := json.Unmarshal([]byte(v), &m.ConnectorId); err != nil {
+				return err
+			}
+		case "idTag":
+			if err := json.Unmarshal([]byte(v), &m.IdTag); err != nil {
+				return err
+			}
+			idTagReceived = true
+		default:
+			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+		}
+	}
+	// check if idTag (a required property) was received
+	if !idTagReceived {
+		return errors.New("\"idTag\" is required but was not present")
+	}
+	return nil
+}
+
+func (m *RemoteStopTransaction) UnmarshalJSON(b []byte) error {
+	transactionIdReceived := false
+	var jsonMap map[string]json.RawMessage
+	if err := json.Unmarshal(b, &jsonMap); err != nil {
+		return err
+	}
+	// parse all the defined properties
+	for k, v := range jsonMap {
+		switch k {
+		case "transactionId":
+			if err := json.Unmarshal([]byte(v), &m.TransactionId); err != nil {
+				return err
+			}
+			transactionIdReceived = true
+		default:
+			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+		}
+	}
+	// check if transactionId (a required property) was received
+	if !transactionIdReceived {
+		return errors.New("\"transactionId\" is required but was not present")
+	}
+	return nil
+}
+
 func (m *ReserveNow) MarshalJSON() ([]byte, error) {
 	buf := bytes.NewBuffer(make([]byte, 0))
 	buf.WriteString("{")
-- 
2.43.0


From 9f52eb53dc70485ef8e2aa04e5d39a1d955de188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 23/48] fix: leave out the validity of a charging profile that
 has none

---
 messages/v1x/csreq/json_encode.go | 40 +++++++++++++++++--------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/messages/v1x/csreq/json_encode.go b/messages/v1x/csreq/json_encode.go
index 1dd87ce..7749c62 100644
--- a/messages/v1x/csreq/json_encode.go
+++ b/messages/v1x/csreq/json_encode.go
@@ -1644,27 +1644,31 @@ func (m *CsChargingProfiles) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "validFrom" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"validFrom\": ")
-	if tmp, err := json.Marshal(m.ValidFrom.Format(time.RFC3339)); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if !m.ValidFrom.IsZero() {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"validFrom\": ")
+		if tmp, err := json.Marshal(m.ValidFrom.Format(time.RFC3339)); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "validTo" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"validTo\": ")
-	if tmp, err := json.Marshal(m.ValidTo.Format(time.RFC3339)); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if !m.ValidTo.IsZero() {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"validTo\": ")
+		if tmp, err := json.Marshal(m.ValidTo.Format(time.RFC3339)); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 
 	buf.WriteString("}")
 	rv := buf.Bytes()
-- 
2.43.0


From 578a2bceaaf8aa635665ac0c36e2fb39277f39fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:04 +0000
Subject: [PATCH 24/48] fix: always send the required elements of the SOAP
 messages

---
 messages/v1x/cpreq/messages.go  | 30 +++++++++++++++---------------
 messages/v1x/cpresp/messages.go | 10 +++++-----
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/messages/v1x/cpreq/messages.go b/messages/v1x/cpreq/messages.go
index 3ad9bb2..25023d9 100644
--- a/messages/v1x/cpreq/messages.go
+++ b/messages/v1x/cpreq/messages.go
@@ -14,7 +14,7 @@ type Authorize struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ authorizeRequest"`
 
-	IdTag string `json:"idTag" xml:"idTag,omitempty"`
+	IdTag string `json:"idTag" xml:"idTag"`
 }
 
 // BootNotification
@@ -23,9 +23,9 @@ type BootNotification struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ bootNotificationRequest"`
 
 	ChargeBoxSerialNumber   string `json:"chargeBoxSerialNumber,omitempty" xml:"chargeBoxSerialNumber,omitempty"`
-	ChargePointModel        string `json:"chargePointModel" xml:"chargePointModel,omitempty"`
+	ChargePointModel        string `json:"chargePointModel" xml:"chargePointModel"`
 	ChargePointSerialNumber string `json:"chargePointSerialNumber,omitempty" xml:"chargePointSerialNumber,omitempty"`
-	ChargePointVendor       string `json:"chargePointVendor" xml:"chargePointVendor,omitempty"`
+	ChargePointVendor       string `json:"chargePointVendor" xml:"chargePointVendor"`
 	FirmwareVersion         string `json:"firmwareVersion,omitempty" xml:"firmwareVersion,omitempty"`
 	Iccid                   string `json:"iccid,omitempty" xml:"iccid,omitempty"`
 	Imsi                    string `json:"imsi,omitempty" xml:"imsi,omitempty"`
@@ -40,7 +40,7 @@ type DataTransfer struct {
 
 	Data      string `json:"data,omitempty" xml:"data,omitempty"`
 	MessageId string `json:"messageId,omitempty" xml:"messageId,omitempty"`
-	VendorId  string `json:"vendorId" xml:"vendorId,omitempty"`
+	VendorId  string `json:"vendorId" xml:"vendorId"`
 }
 
 // DiagnosticsStatusNotification
@@ -48,7 +48,7 @@ type DiagnosticsStatusNotification struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ diagnosticsStatusNotificationRequest"`
 
-	Status string `json:"status" xml:"status,omitempty"`
+	Status string `json:"status" xml:"status"`
 }
 
 // FirmwareStatusNotification
@@ -56,7 +56,7 @@ type FirmwareStatusNotification struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ firmwareStatusNotificationRequest"`
 
-	Status string `json:"status" xml:"status,omitempty"`
+	Status string `json:"status" xml:"status"`
 }
 
 // Heartbeat
@@ -77,7 +77,7 @@ type MeterValues struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ meterValuesRequest"`
 
-	ConnectorId int `json:"connectorId" xml:"connectorId,omitempty"`
+	ConnectorId int `json:"connectorId" xml:"connectorId"`
 	// MeterValue in OCPP v1.5 is values
 	MeterValue    []*MeterValueItems `json:"meterValue" xml:"values,omitempty"`
 	TransactionId int32              `json:"transactionId,omitempty" xml:"transactionId,omitempty"`
@@ -101,9 +101,9 @@ type StartTransaction struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ startTransactionRequest"`
 
-	ConnectorId   int       `json:"connectorId" xml:"connectorId,omitempty"`
-	IdTag         string    `json:"idTag" xml:"idTag,omitempty"`
-	MeterStart    int       `json:"meterStart" xml:"meterStart,omitempty"`
+	ConnectorId   int       `json:"connectorId" xml:"connectorId"`
+	IdTag         string    `json:"idTag" xml:"idTag"`
+	MeterStart    int       `json:"meterStart" xml:"meterStart"`
 	ReservationId int       `json:"reservationId,omitempty" xml:"reservationId,omitempty"`
 	Timestamp     time.Time `json:"timestamp" xml:"timestamp,omitempty"`
 }
@@ -113,10 +113,10 @@ type StatusNotification struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ statusNotificationRequest"`
 
-	ConnectorId     int                `json:"connectorId" xml:"connectorId,omitempty"`
-	ErrorCode       cpstatus.ErrorCode `json:"errorCode" xml:"errorCode,omitempty"`
+	ConnectorId     int                `json:"connectorId" xml:"connectorId"`
+	ErrorCode       cpstatus.ErrorCode `json:"errorCode" xml:"errorCode"`
 	Info            string             `json:"info,omitempty" xml:"info,omitempty"`
-	Status          string             `json:"status" xml:"status,omitempty"`
+	Status          string             `json:"status" xml:"status"`
 	Timestamp       *time.Time         `json:"timestamp,omitempty" xml:"timestamp,omitempty"`
 	VendorErrorCode string             `json:"vendorErrorCode,omitempty" xml:"vendorErrorCode,omitempty"`
 	VendorId        string             `json:"vendorId,omitempty" xml:"vendorId,omitempty"`
@@ -128,11 +128,11 @@ type StopTransaction struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ stopTransactionRequest"`
 
 	IdTag           string                  `json:"idTag,omitempty" xml:"idTag,omitempty"`
-	MeterStop       int                     `json:"meterStop" xml:"meterStop,omitempty"`
+	MeterStop       int                     `json:"meterStop" xml:"meterStop"`
 	Reason          string                  `json:"reason,omitempty" xml:"reason,omitempty"`
 	Timestamp       time.Time               `json:"timestamp" xml:"timestamp,omitempty"`
 	TransactionData []*TransactionDataItems `json:"transactionData,omitempty" xml:"transactionData,omitempty"`
-	TransactionId   int                     `json:"transactionId" xml:"transactionId,omitempty"`
+	TransactionId   int                     `json:"transactionId" xml:"transactionId"`
 }
 
 // TransactionDataItems
diff --git a/messages/v1x/cpresp/messages.go b/messages/v1x/cpresp/messages.go
index 933a6ba..ae77795 100644
--- a/messages/v1x/cpresp/messages.go
+++ b/messages/v1x/cpresp/messages.go
@@ -18,11 +18,11 @@ type BootNotification struct {
 	chargepointResponse
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ bootNotificationResponse"`
 
-	Status   string  `json:"status" xml:"status,omitempty"`
+	Status   string  `json:"status" xml:"status"`
 	CurrentTime time.Time `json:"currentTime" xml:"currentTime,omitempty"`
 
 	// Interval in 1.5 is heartbeatInterval
-	Interval float64 `json:"interval" xml:"heartbeatInterval,omitempty"`
+	Interval float64 `json:"interval" xml:"heartbeatInterval"`
 }
 
 // DataTransfer
@@ -31,7 +31,7 @@ type DataTransfer struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ dataTransferResponse"`
 
 	Data   string `json:"data,omitempty" xml:"data,omitempty"`
-	Status string `json:"status" xml:"status,omitempty"`
+	Status string `json:"status" xml:"status"`
 }
 
 // DiagnosticsStatusNotification
@@ -58,7 +58,7 @@ type Heartbeat struct {
 type IdTagInfo struct {
 	ExpiryDate  *time.Time `json:"expiryDate,omitempty" xml:"expiryDate,omitempty"`
 	ParentIdTag string     `json:"parentIdTag,omitempty" xml:"parentIdTag,omitempty"`
-	Status      string     `json:"status" xml:"status,omitempty"`
+	Status      string     `json:"status" xml:"status"`
 }
 
 // MeterValues
@@ -73,7 +73,7 @@ type StartTransaction struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ startTransactionResponse"`
 
 	IdTagInfo     *IdTagInfo `json:"idTagInfo" xml:"idTagInfo,omitempty"`
-	TransactionId int32      `json:"transactionId" xml:"transactionId,omitempty"`
+	TransactionId int32      `json:"transactionId" xml:"transactionId"`
 }
 
 // StatusNotification
-- 
2.43.0


From 6351e692a7ad8b8f61fceb51eb113cf49ef1d738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:04 +0000
Subject: [PATCH 25/48] fix: name the transaction data and the local
 authorization list as the WSDL does

---
 messages/v1x/cpreq/messages.go | 4 ++--
 messages/v1x/csreq/messages.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/messages/v1x/cpreq/messages.go b/messages/v1x/cpreq/messages.go
index 25023d9..5d08e0d 100644
--- a/messages/v1x/cpreq/messages.go
+++ b/messages/v1x/cpreq/messages.go
@@ -131,13 +131,13 @@ type StopTransaction struct {
 	MeterStop       int                     `json:"meterStop" xml:"meterStop"`
 	Reason          string                  `json:"reason,omitempty" xml:"reason,omitempty"`
 	Timestamp       time.Time               `json:"timestamp" xml:"timestamp,omitempty"`
-	TransactionData []*TransactionDataItems `json:"transactionData,omitempty" xml:"transactionData,omitempty"`
+	TransactionData []*TransactionDataItems `json:"transactionData,omitempty" xml:"transactionData>values,omitempty"`
 	TransactionId   int                     `json:"transactionId" xml:"transactionId"`
 }
 
 // TransactionDataItems
 type TransactionDataItems struct {
-	SampledValues []*SampledValue `json:"sampledValue" xml:"sampledValue,omitempty"`
+	SampledValues []*SampledValue `json:"sampledValue" xml:"value,omitempty"`
 	Timestamp     time.Time       `json:"timestamp" xml:"timestamp,omitempty"`
 }
 
diff --git a/messages/v1x/csreq/messages.go b/messages/v1x/csreq/messages.go
index b06c35d..e375e82 100644
--- a/messages/v1x/csreq/messages.go
+++ b/messages/v1x/csreq/messages.go
@@ -183,7 +183,7 @@ type SendLocalList struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cp/2012/06/ sendLocalListRequest"`
 
 	ListVersion            int                            `json:"listVersion" xml:"listVersion"`
-	LocalAuthorizationList []*LocalAuthorizationListItems `json:"localAuthorizationList,omitempty" xml:"localAuthorizationList,omitempty"`
+	LocalAuthorizationList []*LocalAuthorizationListItems `json:"localAuthorizationList,omitempty" xml:"localAuthorisationList,omitempty"`
 	UpdateType             string                         `json:"updateType" xml:"updateType"`
 }
 
-- 
2.43.0


From 58f234d5de79ebbbdf2aa929decf480f954a4f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:33 +0000
Subject: [PATCH 26/48] fix: send the elements of the SOAP messages in the
 order of the WSDL

---
 messages/v1x/cpreq/messages.go  | 32 ++++++++++++++++----------------
 messages/v1x/cpresp/messages.go |  6 +++---
 messages/v1x/csreq/messages.go  | 16 ++++++++--------
 messages/v1x/csresp/messages.go |  2 +-
 4 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/messages/v1x/cpreq/messages.go b/messages/v1x/cpreq/messages.go
index 5d08e0d..df52192 100644
--- a/messages/v1x/cpreq/messages.go
+++ b/messages/v1x/cpreq/messages.go
@@ -22,15 +22,15 @@ type BootNotification struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ bootNotificationRequest"`
 
-	ChargeBoxSerialNumber   string `json:"chargeBoxSerialNumber,omitempty" xml:"chargeBoxSerialNumber,omitempty"`
+	ChargePointVendor       string `json:"chargePointVendor" xml:"chargePointVendor"`
 	ChargePointModel        string `json:"chargePointModel" xml:"chargePointModel"`
 	ChargePointSerialNumber string `json:"chargePointSerialNumber,omitempty" xml:"chargePointSerialNumber,omitempty"`
-	ChargePointVendor       string `json:"chargePointVendor" xml:"chargePointVendor"`
+	ChargeBoxSerialNumber   string `json:"chargeBoxSerialNumber,omitempty" xml:"chargeBoxSerialNumber,omitempty"`
 	FirmwareVersion         string `json:"firmwareVersion,omitempty" xml:"firmwareVersion,omitempty"`
 	Iccid                   string `json:"iccid,omitempty" xml:"iccid,omitempty"`
 	Imsi                    string `json:"imsi,omitempty" xml:"imsi,omitempty"`
-	MeterSerialNumber       string `json:"meterSerialNumber,omitempty" xml:"meterSerialNumber,omitempty"`
 	MeterType               string `json:"meterType,omitempty" xml:"meterType,omitempty"`
+	MeterSerialNumber       string `json:"meterSerialNumber,omitempty" xml:"meterSerialNumber,omitempty"`
 }
 
 // DataTransfer
@@ -38,9 +38,9 @@ type DataTransfer struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ dataTransferRequest"`
 
-	Data      string `json:"data,omitempty" xml:"data,omitempty"`
-	MessageId string `json:"messageId,omitempty" xml:"messageId,omitempty"`
 	VendorId  string `json:"vendorId" xml:"vendorId"`
+	MessageId string `json:"messageId,omitempty" xml:"messageId,omitempty"`
+	Data      string `json:"data,omitempty" xml:"data,omitempty"`
 }
 
 // DiagnosticsStatusNotification
@@ -67,9 +67,9 @@ type Heartbeat struct {
 
 // MeterValueItems
 type MeterValueItems struct {
+	Timestamp time.Time `json:"timestamp" xml:"timestamp,omitempty"`
 	// SampledValues in OCPP v1.5 is value
 	SampledValues []*SampledValue `json:"sampledValue" xml:"value,omitempty"`
-	Timestamp     time.Time       `json:"timestamp" xml:"timestamp,omitempty"`
 }
 
 // MeterValues
@@ -77,10 +77,10 @@ type MeterValues struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ meterValuesRequest"`
 
-	ConnectorId int `json:"connectorId" xml:"connectorId"`
+	ConnectorId   int   `json:"connectorId" xml:"connectorId"`
+	TransactionId int32 `json:"transactionId,omitempty" xml:"transactionId,omitempty"`
 	// MeterValue in OCPP v1.5 is values
-	MeterValue    []*MeterValueItems `json:"meterValue" xml:"values,omitempty"`
-	TransactionId int32              `json:"transactionId,omitempty" xml:"transactionId,omitempty"`
+	MeterValue []*MeterValueItems `json:"meterValue" xml:"values,omitempty"`
 }
 
 // SampledValue
@@ -103,9 +103,9 @@ type StartTransaction struct {
 
 	ConnectorId   int       `json:"connectorId" xml:"connectorId"`
 	IdTag         string    `json:"idTag" xml:"idTag"`
+	Timestamp     time.Time `json:"timestamp" xml:"timestamp,omitempty"`
 	MeterStart    int       `json:"meterStart" xml:"meterStart"`
 	ReservationId int       `json:"reservationId,omitempty" xml:"reservationId,omitempty"`
-	Timestamp     time.Time `json:"timestamp" xml:"timestamp,omitempty"`
 }
 
 // StatusNotification
@@ -114,12 +114,12 @@ type StatusNotification struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ statusNotificationRequest"`
 
 	ConnectorId     int                `json:"connectorId" xml:"connectorId"`
+	Status          string             `json:"status" xml:"status"`
 	ErrorCode       cpstatus.ErrorCode `json:"errorCode" xml:"errorCode"`
 	Info            string             `json:"info,omitempty" xml:"info,omitempty"`
-	Status          string             `json:"status" xml:"status"`
 	Timestamp       *time.Time         `json:"timestamp,omitempty" xml:"timestamp,omitempty"`
-	VendorErrorCode string             `json:"vendorErrorCode,omitempty" xml:"vendorErrorCode,omitempty"`
 	VendorId        string             `json:"vendorId,omitempty" xml:"vendorId,omitempty"`
+	VendorErrorCode string             `json:"vendorErrorCode,omitempty" xml:"vendorErrorCode,omitempty"`
 }
 
 // StopTransaction
@@ -127,18 +127,18 @@ type StopTransaction struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ stopTransactionRequest"`
 
+	TransactionId   int                     `json:"transactionId" xml:"transactionId"`
 	IdTag           string                  `json:"idTag,omitempty" xml:"idTag,omitempty"`
-	MeterStop       int                     `json:"meterStop" xml:"meterStop"`
-	Reason          string                  `json:"reason,omitempty" xml:"reason,omitempty"`
 	Timestamp       time.Time               `json:"timestamp" xml:"timestamp,omitempty"`
+	MeterStop       int                     `json:"meterStop" xml:"meterStop"`
 	TransactionData []*TransactionDataItems `json:"transactionData,omitempty" xml:"transactionData>values,omitempty"`
-	TransactionId   int                     `json:"transactionId" xml:"transactionId"`
+	Reason          string                  `json:"reason,omitempty" xml:"reason,omitempty"`
 }
 
 // TransactionDataItems
 type TransactionDataItems struct {
-	SampledValues []*SampledValue `json:"sampledValue" xml:"value,omitempty"`
 	Timestamp     time.Time       `json:"timestamp" xml:"timestamp,omitempty"`
+	SampledValues []*SampledValue `json:"sampledValue" xml:"value,omitempty"`
 }
 
 func (m *Authorize) Action() string                     { return "Authorize" }
diff --git a/messages/v1x/cpresp/messages.go b/messages/v1x/cpresp/messages.go
index ae77795..0bc5926 100644
--- a/messages/v1x/cpresp/messages.go
+++ b/messages/v1x/cpresp/messages.go
@@ -30,8 +30,8 @@ type DataTransfer struct {
 	chargepointResponse
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ dataTransferResponse"`
 
-	Data   string `json:"data,omitempty" xml:"data,omitempty"`
 	Status string `json:"status" xml:"status"`
+	Data   string `json:"data,omitempty" xml:"data,omitempty"`
 }
 
 // DiagnosticsStatusNotification
@@ -56,9 +56,9 @@ type Heartbeat struct {
 
 // IdTagInfo
 type IdTagInfo struct {
+	Status      string     `json:"status" xml:"status"`
 	ExpiryDate  *time.Time `json:"expiryDate,omitempty" xml:"expiryDate,omitempty"`
 	ParentIdTag string     `json:"parentIdTag,omitempty" xml:"parentIdTag,omitempty"`
-	Status      string     `json:"status" xml:"status"`
 }
 
 // MeterValues
@@ -72,8 +72,8 @@ type StartTransaction struct {
 	chargepointResponse
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ startTransactionResponse"`
 
-	IdTagInfo     *IdTagInfo `json:"idTagInfo" xml:"idTagInfo,omitempty"`
 	TransactionId int32      `json:"transactionId" xml:"transactionId"`
+	IdTagInfo     *IdTagInfo `json:"idTagInfo" xml:"idTagInfo,omitempty"`
 }
 
 // StatusNotification
diff --git a/messages/v1x/csreq/messages.go b/messages/v1x/csreq/messages.go
index e375e82..40d26cd 100644
--- a/messages/v1x/csreq/messages.go
+++ b/messages/v1x/csreq/messages.go
@@ -85,9 +85,9 @@ type DataTransfer struct {
 	centralSystemRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cp/2012/06/ dataTransferRequest"`
 
-	Data      string `json:"data,omitempty" xml:"data,omitempty"`
-	MessageId string `json:"messageId,omitempty" xml:"messageId,omitempty"`
 	VendorId  string `json:"vendorId" xml:"vendorId"`
+	MessageId string `json:"messageId,omitempty" xml:"messageId,omitempty"`
+	Data      string `json:"data,omitempty" xml:"data,omitempty"`
 }
 
 // GetCompositeSchedule
@@ -114,10 +114,10 @@ type GetDiagnostics struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cp/2012/06/ getDiagnosticsRequest"`
 
 	Location      string     `json:"location" xml:"location"`
-	Retries       int        `json:"retries,omitempty" xml:"retries,omitempty"`
-	RetryInterval int        `json:"retryInterval,omitempty" xml:"retryInterval,omitempty"`
 	StartTime     *time.Time `json:"startTime,omitempty" xml:"startTime,omitempty"`
 	StopTime      *time.Time `json:"stopTime,omitempty" xml:"stopTime,omitempty"`
+	Retries       int        `json:"retries,omitempty" xml:"retries,omitempty"`
+	RetryInterval int        `json:"retryInterval,omitempty" xml:"retryInterval,omitempty"`
 }
 
 // GetLocalListVersion
@@ -128,9 +128,9 @@ type GetLocalListVersion struct {
 
 // IdTagInfo
 type IdTagInfo struct {
+	Status      string     `json:"status" xml:"status"`
 	ExpiryDate  *time.Time `json:"expiryDate,omitempty" xml:"expiryDate,omitempty"`
 	ParentIdTag string     `json:"parentIdTag,omitempty" xml:"parentIdTag,omitempty"`
-	Status      string     `json:"status" xml:"status"`
 }
 
 // LocalAuthorizationListItems
@@ -145,8 +145,8 @@ type RemoteStartTransaction struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cp/2012/06/ remoteStartTransactionRequest"`
 
 	IdTag           string           `json:"idTag" xml:"idTag"`
-	ChargingProfile *ChargingProfile `json:"chargingProfile,omitempty" xml:"chargingProfile,omitempty"`
 	ConnectorId     int32            `json:"connectorId,omitempty" xml:"connectorId,omitempty"`
+	ChargingProfile *ChargingProfile `json:"chargingProfile,omitempty" xml:"chargingProfile,omitempty"`
 }
 
 // RemoteStopTransaction
@@ -182,9 +182,9 @@ type SendLocalList struct {
 	centralSystemRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cp/2012/06/ sendLocalListRequest"`
 
+	UpdateType             string                         `json:"updateType" xml:"updateType"`
 	ListVersion            int                            `json:"listVersion" xml:"listVersion"`
 	LocalAuthorizationList []*LocalAuthorizationListItems `json:"localAuthorizationList,omitempty" xml:"localAuthorisationList,omitempty"`
-	UpdateType             string                         `json:"updateType" xml:"updateType"`
 }
 
 // TriggerMessage
@@ -209,9 +209,9 @@ type UpdateFirmware struct {
 	centralSystemRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cp/2012/06/ updateFirmwareRequest"`
 
+	RetrieveDate  time.Time `json:"retrieveDate" xml:"retrieveDate"`
 	Location      string    `json:"location" xml:"location"`
 	Retries       float64   `json:"retries,omitempty" xml:"retries,omitempty"`
-	RetrieveDate  time.Time `json:"retrieveDate" xml:"retrieveDate"`
 	RetryInterval float64   `json:"retryInterval,omitempty" xml:"retryInterval,omitempty"`
 }
 
diff --git a/messages/v1x/csresp/messages.go b/messages/v1x/csresp/messages.go
index 59c126a..3f299a4 100644
--- a/messages/v1x/csresp/messages.go
+++ b/messages/v1x/csresp/messages.go
@@ -73,8 +73,8 @@ type DataTransfer struct {
 	centralSystemResponse
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cp/2012/06/ dataTransferResponse"`
 
-	Data   string `json:"data,omitempty" xml:"data,omitempty"`
 	Status string `json:"status" xml:"status"`
+	Data   string `json:"data,omitempty" xml:"data,omitempty"`
 }
 
 // GetCompositeSchedule
-- 
2.43.0


From 9a2e4fe11db3a3cbd8bbd80d7114c0c3d3695e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:01 +0000
Subject: [PATCH 27/48] fix: send the reason of a SOAP fault where a client
 finds it

---
 soap/marshal.go |  8 ++++++--
 soap/models.go  | 11 ++++++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/soap/marshal.go b/soap/marshal.go
index 5ce64a4..be53987 100644
--- a/soap/marshal.go
+++ b/soap/marshal.go
@@ -22,9 +22,13 @@ func Unmarshal(data []byte) (receivedEnvelope, error) {
 func Marshal(data interface{}, err error, NS string) ([]byte, error) {
 	respEnv := toSendEnvelope{XMLNS: NS}
 	if err != nil {
-		respEnv.Body.Fault = &toSendFault{Reason: err.Error()}
+		respEnv.Body.Fault = &toSendFault{
+			Code:   "S:Receiver",
+			Reason: toSendReason{Lang: "en", Text: err.Error()},
+		}
+	} else {
+		respEnv.Body.Content = data
 	}
-	respEnv.Body.Content = data
 
 	return xml.Marshal(respEnv)
 }
diff --git a/soap/models.go b/soap/models.go
index c1be438..3fe2694 100644
--- a/soap/models.go
+++ b/soap/models.go
@@ -86,13 +86,18 @@ type toSendBody struct {
 type toSendFault struct {
 	XMLName xml.Name `xml:"S:Fault,omitempty"`
 
-	Code   string `xml:"Code,omitempty"`
-	Reason string `xml:"reason,omitempty"`
+	Code   string       `xml:"S:Code>S:Value"`
+	Reason toSendReason `xml:"S:Reason>S:Text"`
 	String string `xml:"faultstring,omitempty"`
 	Actor  string `xml:"faultactor,omitempty"`
 	Detail string `xml:"detail,omitempty"`
 }
 
+type toSendReason struct {
+	Lang string `xml:"xml:lang,attr"`
+	Text string `xml:",chardata"`
+}
+
 func (f *toSendFault) Error() string {
-	return f.Reason
+	return f.Reason.Text
 }
-- 
2.43.0


From bc43f1a6789dbe3cb390d8f0f835666083738e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 28/48] fix: do not panic on a SOAP request without header

---
 soap/server.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/soap/server.go b/soap/server.go
index c0fba7a..8fb737e 100644
--- a/soap/server.go
+++ b/soap/server.go
@@ -30,7 +30,11 @@ func Handle(w http.ResponseWriter, r *http.Request, handle ocpp.MessageHandler)
 		return errors.New("received message is not a request")
 	}
 
-	resp, err := handle(req, reqEnv.Header.ChargeBoxIdentity)
+	chargeBoxIdentity := ""
+	if reqEnv.Header != nil {
+		chargeBoxIdentity = reqEnv.Header.ChargeBoxIdentity
+	}
+	resp, err := handle(req, chargeBoxIdentity)
 	if err != nil {
 		log.Error("couldn't handle request: %w", err)
 	}
-- 
2.43.0


From f3a071881d55c0effc79e83a3191188241e14dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 29/48] fix: do not answer a bad SOAP request with an empty
 success

---
 soap/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/soap/server.go b/soap/server.go
index 8fb737e..bd3bf87 100644
--- a/soap/server.go
+++ b/soap/server.go
@@ -22,11 +22,13 @@ func Handle(w http.ResponseWriter, r *http.Request, handle ocpp.MessageHandler)
 	reqEnv, err := Unmarshal(rawReq)
 
 	if err != nil {
+		http.Error(w, "couldn't decode request", http.StatusBadRequest)
 		return fmt.Errorf("couldn't decode request %w", err)
 	}
 
 	req, ok := reqEnv.Body.Content.(messages.Request)
 	if !ok {
+		http.Error(w, "received message is not a request", http.StatusBadRequest)
 		return errors.New("received message is not a request")
 	}
 
@@ -40,6 +42,7 @@ func Handle(w http.ResponseWriter, r *http.Request, handle ocpp.MessageHandler)
 	}
 	rawResp, err := Marshal(resp, err, "http://www.w3.org/2003/05/soap-envelope")
 	if err != nil {
+		http.Error(w, "couldn't encode response", http.StatusInternalServerError)
 		return fmt.Errorf("couldn't encode response: %w", err)
 	}
 
-- 
2.43.0


From 944225fe6331a32178e93284e3db3308d26f2a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 30/48] fix: answer a SOAP request that has no response with a
 fault

---
 soap/server.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/soap/server.go b/soap/server.go
index bd3bf87..06d5f98 100644
--- a/soap/server.go
+++ b/soap/server.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io/ioutil"
 	"net/http"
+	"reflect"
 
 	"github.com/voltbras/go-ocpp/internal/log"
 
@@ -13,6 +14,14 @@ import (
 	"github.com/voltbras/go-ocpp"
 )
 
+func isNil(resp messages.Response) bool {
+	if resp == nil {
+		return true
+	}
+	v := reflect.ValueOf(resp)
+	return v.Kind() == reflect.Ptr && v.IsNil()
+}
+
 func Handle(w http.ResponseWriter, r *http.Request, handle ocpp.MessageHandler) error {
 	defer r.Body.Close()
 
@@ -37,6 +46,9 @@ func Handle(w http.ResponseWriter, r *http.Request, handle ocpp.MessageHandler)
 		chargeBoxIdentity = reqEnv.Header.ChargeBoxIdentity
 	}
 	resp, err := handle(req, chargeBoxIdentity)
+	if err == nil && isNil(resp) {
+		err = errors.New("no response to the request")
+	}
 	if err != nil {
 		log.Error("couldn't handle request: %w", err)
 	}
-- 
2.43.0


From 3cdb47a957d8f5ef75eb9d7f33a2c9cfa5536987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 31/48] fix: return an error for an unexpected SOAP response
 instead of panicking

---
 soap/client.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/soap/client.go b/soap/client.go
index 8600153..64b8a06 100644
--- a/soap/client.go
+++ b/soap/client.go
@@ -111,9 +111,13 @@ func (s *Client) Call(soapAction string, request messages.Request, response mess
 		return fault
 	}
 
+	if respEnvelope.Body.Content == nil {
+		return errors.New("received message is not a response")
+	}
+
 	respVal, contentVal := reflect.ValueOf(response), reflect.ValueOf(respEnvelope.Body.Content)
 	if respVal.Type() != contentVal.Type() {
-		panic("incompatible types:" + respVal.Type().String() + contentVal.Type().String())
+		return errors.New("incompatible types: " + respVal.Type().String() + " " + contentVal.Type().String())
 	}
 
 	respVal.Elem().Set(contentVal.Elem())
-- 
2.43.0


From 4691cf617d2367587b0568b2c147585b6d9aa7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:05 +0000
Subject: [PATCH 32/48] fix: do not declare a SOAP response as deflated

---
 soap/server.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/soap/server.go b/soap/server.go
index 06d5f98..67fecbd 100644
--- a/soap/server.go
+++ b/soap/server.go
@@ -62,7 +62,6 @@ func Handle(w http.ResponseWriter, r *http.Request, handle ocpp.MessageHandler)
 	log.Debug("Sending raw response: %s", string(rawResp))
 
 	w.Header().Set("Content-Type", "application/soap+xml")
-	w.Header().Set("Content-Encoding", "deflate")
 
 	_, err = w.Write(rawResp)
 	return err
-- 
2.43.0


From c83b0dd671f171a18c835be265c2fb36fb83c702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:06 +0000
Subject: [PATCH 33/48] fix: decode the DataTransfer of a charge point via SOAP

---
 soap/marshal.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/soap/marshal.go b/soap/marshal.go
index be53987..3e73ab1 100644
--- a/soap/marshal.go
+++ b/soap/marshal.go
@@ -10,6 +10,10 @@ import (
 	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
 )
 
+// centralSystemNS is the namespace of the messages of the
+// central system service, i.e. of the requests of a charge point
+const centralSystemNS = "urn://Ocpp/Cs/2012/06/"
+
 func Unmarshal(data []byte) (receivedEnvelope, error) {
 	parsed := receivedEnvelope{}
 	err := xml.Unmarshal(data, &parsed)
@@ -113,7 +117,11 @@ func (b *receivedBody) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 			case "cancelReservationRequest":
 				msg = new(csreq.CancelReservation)
 			case "dataTransferRequest":
-				msg = new(csreq.DataTransfer)
+				if tt.Name.Space == centralSystemNS {
+					msg = new(cpreq.DataTransfer)
+				} else {
+					msg = new(csreq.DataTransfer)
+				}
 			case "getConfigurationRequest":
 				msg = new(csreq.GetConfiguration)
 			case "getLocalListVersionRequest":
@@ -145,7 +153,11 @@ func (b *receivedBody) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 			case "cancelReservationResponse":
 				msg = new(csresp.CancelReservation)
 			case "dataTransferResponse":
-				msg = new(csresp.DataTransfer)
+				if tt.Name.Space == centralSystemNS {
+					msg = new(cpresp.DataTransfer)
+				} else {
+					msg = new(csresp.DataTransfer)
+				}
 			case "getConfigurationResponse":
 				msg = new(csresp.GetConfiguration)
 			case "getLocalListVersionResponse":
-- 
2.43.0


From 9b87204053db0fdda79be65d22c96120d937cd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:35 +0000
Subject: [PATCH 34/48] fix: send the identity of a charge point in the
 namespace of the called service

---
 soap/client.go  |  7 ++++++-
 soap/marshal.go | 10 +++++++---
 soap/models.go  | 14 ++++++++++----
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/soap/client.go b/soap/client.go
index 64b8a06..df2d9c7 100644
--- a/soap/client.go
+++ b/soap/client.go
@@ -13,6 +13,7 @@ import (
 	"github.com/voltbras/go-ocpp/internal"
 	"github.com/voltbras/go-ocpp/internal/log"
 	"github.com/voltbras/go-ocpp/messages"
+	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
 
 	"github.com/google/uuid"
 )
@@ -47,9 +48,13 @@ func (s *Client) Call(soapAction string, request messages.Request, response mess
 		To:        s.url,
 		MessageID: "uuid:" + uuid.New().String(),
 	}
+	envelope.Header.ChargeBoxIdentity.XMLName = xml.Name{Space: chargePointNS, Local: "chargeBoxIdentity"}
+	if _, ok := request.(cpreq.ChargePointRequest); ok {
+		envelope.Header.ChargeBoxIdentity.XMLName.Space = centralSystemNS
+	}
 	if options != nil {
 		envelope.Header.From = toSendFrom(options.From)
-		envelope.Header.ChargeBoxIdentity = options.ChargeBoxIdentity
+		envelope.Header.ChargeBoxIdentity.Value = options.ChargeBoxIdentity
 	}
 	envelope.Body.Content = request
 	buffer := new(bytes.Buffer)
diff --git a/soap/marshal.go b/soap/marshal.go
index 3e73ab1..40eef8f 100644
--- a/soap/marshal.go
+++ b/soap/marshal.go
@@ -10,9 +10,13 @@ import (
 	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
 )
 
-// centralSystemNS is the namespace of the messages of the
-// central system service, i.e. of the requests of a charge point
-const centralSystemNS = "urn://Ocpp/Cs/2012/06/"
+const (
+	// centralSystemNS is the namespace of the messages of the
+	// central system service, i.e. of the requests of a charge point
+	centralSystemNS = "urn://Ocpp/Cs/2012/06/"
+	// chargePointNS is the one of the charge point service
+	chargePointNS = "urn://Ocpp/Cp/2012/06/"
+)
 
 func Unmarshal(data []byte) (receivedEnvelope, error) {
 	parsed := receivedEnvelope{}
diff --git a/soap/models.go b/soap/models.go
index 3fe2694..b7ccd23 100644
--- a/soap/models.go
+++ b/soap/models.go
@@ -73,7 +73,13 @@ type toSendHeader struct {
 	Action            string `xml:"wsa5:Action"`
 	MessageID         string `xml:"wsa5:MessageID"`
 	From              toSendFrom
-	ChargeBoxIdentity string `xml:"urn://Ocpp/Cp/2012/06/ chargeBoxIdentity"`
+	ChargeBoxIdentity toSendIdentity
+}
+
+// toSendIdentity has its name set to the namespace of the called service
+type toSendIdentity struct {
+	XMLName xml.Name
+	Value   string `xml:",chardata"`
 }
 
 type toSendBody struct {
@@ -88,9 +94,9 @@ type toSendFault struct {
 
 	Code   string       `xml:"S:Code>S:Value"`
 	Reason toSendReason `xml:"S:Reason>S:Text"`
-	String string `xml:"faultstring,omitempty"`
-	Actor  string `xml:"faultactor,omitempty"`
-	Detail string `xml:"detail,omitempty"`
+	String string       `xml:"faultstring,omitempty"`
+	Actor  string       `xml:"faultactor,omitempty"`
+	Detail string       `xml:"detail,omitempty"`
 }
 
 type toSendReason struct {
-- 
2.43.0


From 20b98f0e5390abdff97470910b1fc33ffedfc826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:16 +0000
Subject: [PATCH 35/48] fix: write the integers of the SOAP messages without an
 exponent

---
 messages/v1x/cpresp/messages.go | 10 ++++++++++
 messages/v1x/csreq/messages.go  | 17 +++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/messages/v1x/cpresp/messages.go b/messages/v1x/cpresp/messages.go
index 0bc5926..b5b30d6 100644
--- a/messages/v1x/cpresp/messages.go
+++ b/messages/v1x/cpresp/messages.go
@@ -2,6 +2,7 @@ package cpresp
 
 import (
 	"encoding/xml"
+	"strconv"
 	"time"
 )
 
@@ -25,6 +26,15 @@ type BootNotification struct {
 	Interval float64 `json:"interval" xml:"heartbeatInterval"`
 }
 
+// MarshalXML writes the interval without an exponent, it is an integer in OCPP 1.5
+func (m *BootNotification) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
+	type fields BootNotification
+	return e.Encode(struct {
+		*fields
+		Interval string `xml:"heartbeatInterval"`
+	}{(*fields)(m), strconv.FormatFloat(m.Interval, 'f', -1, 64)})
+}
+
 // DataTransfer
 type DataTransfer struct {
 	chargepointResponse
diff --git a/messages/v1x/csreq/messages.go b/messages/v1x/csreq/messages.go
index 40d26cd..f63a480 100644
--- a/messages/v1x/csreq/messages.go
+++ b/messages/v1x/csreq/messages.go
@@ -2,6 +2,7 @@ package csreq
 
 import (
 	"encoding/xml"
+	"strconv"
 	"time"
 
 	"github.com/voltbras/go-ocpp/messages"
@@ -215,6 +216,22 @@ type UpdateFirmware struct {
 	RetryInterval float64   `json:"retryInterval,omitempty" xml:"retryInterval,omitempty"`
 }
 
+// MarshalXML writes the numbers without an exponent, they are integers in OCPP 1.5
+func (m *UpdateFirmware) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
+	type fields UpdateFirmware
+	number := func(f float64) string {
+		if f == 0 {
+			return ""
+		}
+		return strconv.FormatFloat(f, 'f', -1, 64)
+	}
+	return e.Encode(struct {
+		*fields
+		Retries       string `xml:"retries,omitempty"`
+		RetryInterval string `xml:"retryInterval,omitempty"`
+	}{(*fields)(m), number(m.Retries), number(m.RetryInterval)})
+}
+
 // CsChargingProfiles
 type CsChargingProfiles struct {
 	ChargingProfileId      int               `json:"chargingProfileId" xml:"chargingProfileId"`
-- 
2.43.0


From 29077ea2c754fbace3745ef758428fba2bac1795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:22 +0000
Subject: [PATCH 36/48] fix: send the empty entries of the lists of keys via
 SOAP

---
 messages/v1x/csreq/messages.go  | 2 +-
 messages/v1x/csresp/messages.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/messages/v1x/csreq/messages.go b/messages/v1x/csreq/messages.go
index f63a480..3a34a5c 100644
--- a/messages/v1x/csreq/messages.go
+++ b/messages/v1x/csreq/messages.go
@@ -106,7 +106,7 @@ type GetConfiguration struct {
 	centralSystemRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cp/2012/06/ getConfigurationRequest"`
 
-	Key []string `json:"key,omitempty" xml:"key,omitempty"`
+	Key []string `json:"key,omitempty" xml:"key"`
 }
 
 // GetDiagnostics
diff --git a/messages/v1x/csresp/messages.go b/messages/v1x/csresp/messages.go
index 3f299a4..53c8008 100644
--- a/messages/v1x/csresp/messages.go
+++ b/messages/v1x/csresp/messages.go
@@ -94,7 +94,7 @@ type GetConfiguration struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cp/2012/06/ getConfigurationResponse"`
 
 	ConfigurationKey []*ConfigurationKeyItems `json:"configurationKey,omitempty" xml:"configurationKey,omitempty"`
-	UnknownKey       []string                 `json:"unknownKey,omitempty" xml:"unknownKey,omitempty"`
+	UnknownKey       []string                 `json:"unknownKey,omitempty" xml:"unknownKey"`
 }
 
 // GetDiagnostics
-- 
2.43.0


From 3a5d52a2c7e7b9da129a27cf570a93b93b23dd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:27 +0000
Subject: [PATCH 37/48] fix: do not dial any more once the context of the
 charge point is done

---
 cp/json.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cp/json.go b/cp/json.go
index df0c209..757502f 100644
--- a/cp/json.go
+++ b/cp/json.go
@@ -47,6 +47,9 @@ func (cp *chargePoint) handleWebsocketConnection(cshandler CentralSystemMessageH
 			cp.connMux.Unlock()
 			// try to connect until it is established
 			for {
+				if cp.ctx.Err() != nil {
+					return
+				}
 				err := cp.getNewWebsocketConnection()
 				if err != nil {
 					log.Error("On restarting connection with Central System: %w", err)
-- 
2.43.0


From 450d6b82128cb58afb60b4a9b3701a4399b1e2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:26 +0000
Subject: [PATCH 38/48] fix: select the subprotocol also from an offer of
 several header lines

---
 ws/conn.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ws/conn.go b/ws/conn.go
index 6ae87cf..5da64d9 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"net/http"
 	"net/url"
+	"strings"
 	"sync"
 	"time"
 
@@ -90,8 +91,11 @@ func ocppVersionToProtocol(version ocpp.Version) string {
 func Handshake(w http.ResponseWriter, r *http.Request, supportedVersions []ocpp.Version) (*Conn, error) {
 	upgraderHeader := http.Header{}
 	offered := make(map[string]bool)
-	for _, protocol := range websocket.Subprotocols(r) {
-		offered[protocol] = true
+	// the offer may be spread over several header lines
+	for _, line := range r.Header["Sec-Websocket-Protocol"] {
+		for _, protocol := range strings.Split(line, ",") {
+			offered[strings.TrimSpace(protocol)] = true
+		}
 	}
 	for _, v := range supportedVersions {
 		if !offered[ocppVersionToProtocol(v)] {
-- 
2.43.0


From 88468cb8f770584bdc68cab9555aaeedb6956623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:09 +0000
Subject: [PATCH 39/48] fix: do not leave the write deadline of a message to
 what is written directly

---
 ws/conn.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ws/conn.go b/ws/conn.go
index 5da64d9..273bb51 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -112,6 +112,8 @@ func Handshake(w http.ResponseWriter, r *http.Request, supportedVersions []ocpp.
 func (c *Conn) WriteJSON(data interface{}) error {
 	c.sendMux.Lock()
 	defer c.sendMux.Unlock()
+	c.Conn.SetWriteDeadline(time.Now().Add(internal.DefaultRequestTimeout))
+	defer c.Conn.SetWriteDeadline(time.Time{})
 	return c.Conn.WriteJSON(data)
 }
 
@@ -328,6 +330,8 @@ func (c *Conn) sendMessage(msg Message) error {
 	log.Debug("Sending message [raw]: %v", string(bts))
 	// a peer that stopped reading must not block the senders forever
 	c.Conn.SetWriteDeadline(time.Now().Add(internal.DefaultRequestTimeout))
+	// nor must the deadline of this message apply to what is written later
+	defer c.Conn.SetWriteDeadline(time.Time{})
 	err = c.Conn.WriteMessage(websocket.TextMessage, bts)
 	if err != nil {
 		c.Close()
-- 
2.43.0


From aea9f07a4034ce372f477ec105553ca937339512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:18 +0000
Subject: [PATCH 40/48] fix: guard the connection listeners by the mutex

---
 cs/cs.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cs/cs.go b/cs/cs.go
index 5d56a24..a54b684 100644
--- a/cs/cs.go
+++ b/cs/cs.go
@@ -130,7 +130,10 @@ func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Reques
 	notified := make(chan struct{})
 	go func() {
 		defer close(notified)
-		csys.connListener(cpID)
+		csys.connMux.Lock()
+		connListener := csys.connListener
+		csys.connMux.Unlock()
+		connListener(cpID)
 	}()
 
 	defer func() {
@@ -162,7 +165,10 @@ func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Reques
 		// connection listener had its turn
 		go func() {
 			<-notified
-			csys.disconnListener(cpID)
+			csys.connMux.Lock()
+			disconnListener := csys.disconnListener
+			csys.connMux.Unlock()
+			disconnListener(cpID)
 		}()
 	}()
 
@@ -237,10 +243,14 @@ func (csys *centralSystem) GetServiceOf(cpID string, version ocpp.Version, url s
 }
 
 func (csys *centralSystem) SetChargePointConnectionListener(f ChargePointConnectionListener) {
+	csys.connMux.Lock()
+	defer csys.connMux.Unlock()
 	csys.connListener = f
 }
 
 func (csys *centralSystem) SetChargePointDisconnectionListener(f ChargePointConnectionListener) {
+	csys.connMux.Lock()
+	defer csys.connMux.Unlock()
 	csys.disconnListener = f
 }
 
-- 
2.43.0


From 46bb1f606522e96c355b738d31ceed3ba7dd7ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:21 +0000
Subject: [PATCH 41/48] fix: hand the DataTransfer requests of the other side
 over to the handler

---
 ws/conn.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/ws/conn.go b/ws/conn.go
index 273bb51..5c21d92 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -17,6 +17,8 @@ import (
 	"github.com/voltbras/go-ocpp/internal/log"
 	"github.com/voltbras/go-ocpp/messages"
 	"github.com/voltbras/go-ocpp/messages/req"
+	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
+	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
 
 	"github.com/gorilla/websocket"
 	"github.com/voltbras/go-ocpp"
@@ -40,11 +42,16 @@ type Conn struct {
 	responsesOf map[MessageID]chan CallResponse
 	// guards sentMessages and responsesOf
 	pendingMux sync.Mutex
+	// the DataTransfer of the other side, both sides
+	// have a request of this name
+	newDataTransfer func() messages.Request
 }
 
-func newConn(socket *websocket.Conn) *Conn {
+func newConn(socket *websocket.Conn, newDataTransfer func() messages.Request) *Conn {
 	ctx, cancel := context.WithCancel(context.Background())
 	return &Conn{
+		newDataTransfer: newDataTransfer,
+
 		Conn:         socket,
 		sentMessages: make(map[MessageID]*CallMessage, 0),
 		requests: make(chan struct {
@@ -67,7 +74,8 @@ func Dial(identity, csURL string, version ocpp.Version) (*Conn, error) {
 	if err != nil {
 		return nil, err
 	}
-	return newConn(socket), err
+	// it's the central system that sends requests to us
+	return newConn(socket, func() messages.Request { return &csreq.DataTransfer{} }), err
 }
 
 var upgrader = websocket.Upgrader{
@@ -105,7 +113,8 @@ func Handshake(w http.ResponseWriter, r *http.Request, supportedVersions []ocpp.
 		upgraderHeader.Add("Sec-WebSocket-Protocol", ocppVersionToProtocol(v))
 	}
 	socket, err := upgrader.Upgrade(w, r, upgraderHeader)
-	conn := newConn(socket)
+	// it's a charge point that sends requests to us
+	conn := newConn(socket, func() messages.Request { return &cpreq.DataTransfer{} })
 	return conn, err
 }
 
@@ -271,6 +280,9 @@ func (c *Conn) deliver(id MessageID, response CallResponse) {
 
 func (c *Conn) callToRequest(call *CallMessage) (messages.Request, ErrorCode) {
 	req := req.FromActionName(string(call.Action))
+	if call.Action == "DataTransfer" {
+		req = c.newDataTransfer()
+	}
 	if req == nil {
 		return nil, NotSupported
 	}
-- 
2.43.0


From 316bfac56bed77f54e8ac0b5d68f5eb76461d799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:05 +0000
Subject: [PATCH 42/48] fix: treat a SOAP response under an error status as an
 error

---
 soap/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/soap/client.go b/soap/client.go
index df2d9c7..3ac3944 100644
--- a/soap/client.go
+++ b/soap/client.go
@@ -115,6 +115,9 @@ func (s *Client) Call(soapAction string, request messages.Request, response mess
 	if fault != nil {
 		return fault
 	}
+	if res.StatusCode != http.StatusOK {
+		return errors.New("response returned with a non-OK status code: " + res.Status)
+	}
 
 	if respEnvelope.Body.Content == nil {
 		return errors.New("received message is not a response")
-- 
2.43.0


From c1f21191b72ccced90adafc1a9b444867b643d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:59 +0000
Subject: [PATCH 43/48] fix: give every central system its own HTTP handler

The handler was registered with the default ServeMux, so that a second central
system in the process, or a Run after one that failed, panicked.
---
 cs/cs.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cs/cs.go b/cs/cs.go
index a54b684..4e41ab2 100644
--- a/cs/cs.go
+++ b/cs/cs.go
@@ -72,7 +72,14 @@ func New() CentralSystem {
 }
 
 func (csys *centralSystem) Run(port string, cphandler ChargePointMessageHandler) error {
-	http.HandleFunc("/", func(w http.ResponseWriter, r *http.Request) {
+	// not the default one: every central system has its own handler
+	mux := http.NewServeMux()
+	mux.HandleFunc("/", func(w http.ResponseWriter, r *http.Request) {
+		// what the application added to the default one is served as well
+		if _, pattern := http.DefaultServeMux.Handler(r); pattern != "" && pattern != "/" {
+			http.DefaultServeMux.ServeHTTP(w, r)
+			return
+		}
 		if ws.IsWebSocketUpgrade(r) {
 			csys.handleWebsocket(w, r, cphandler)
 		} else if r.Method == http.MethodGet {
@@ -95,7 +102,7 @@ func (csys *centralSystem) Run(port string, cphandler ChargePointMessageHandler)
 
 	})
 	log.Debug("Central system running on port: %s", port)
-	return http.ListenAndServe(port, nil)
+	return http.ListenAndServe(port, mux)
 }
 
 func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Request, cphandler ChargePointMessageHandler) {
-- 
2.43.0


From f1fe6ad799c1cdab708ec4dc5ba2949591ce084c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:26 +0000
Subject: [PATCH 44/48] fix: count the time of sending a request in its timeout

---
 ws/conn.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ws/conn.go b/ws/conn.go
index 5c21d92..cbb8550 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -332,6 +332,8 @@ func (c *Conn) SendResponse(id MessageID, response messages.Response, err error)
 	return c.sendMessage(unmarshalResponse(id, response, err))
 }
 func (c *Conn) sendMessage(msg Message) error {
+	// the time spent waiting for the other senders counts too
+	deadline := time.Now().Add(internal.DefaultRequestTimeout)
 	c.sendMux.Lock()
 	defer c.sendMux.Unlock()
 
@@ -341,7 +343,7 @@ func (c *Conn) sendMessage(msg Message) error {
 	}
 	log.Debug("Sending message [raw]: %v", string(bts))
 	// a peer that stopped reading must not block the senders forever
-	c.Conn.SetWriteDeadline(time.Now().Add(internal.DefaultRequestTimeout))
+	c.Conn.SetWriteDeadline(deadline)
 	// nor must the deadline of this message apply to what is written later
 	defer c.Conn.SetWriteDeadline(time.Time{})
 	err = c.Conn.WriteMessage(websocket.TextMessage, bts)
@@ -378,6 +380,9 @@ func (c *Conn) SendRequest(request messages.Request) (messages.Response, error)
 		delete(c.responsesOf, id)
 		c.pendingMux.Unlock()
 	}()
+	// sending may take long, if the peer is slow to read
+	timeout := time.NewTimer(internal.DefaultRequestTimeout)
+	defer timeout.Stop()
 	err = c.sendMessage(msg)
 	if err != nil {
 		return nil, err
@@ -399,7 +404,7 @@ func (c *Conn) SendRequest(request messages.Request) (messages.Response, error)
 		default:
 			return nil, errors.New("connection closed before the response")
 		}
-	case <-time.After(internal.DefaultRequestTimeout):
+	case <-timeout.C:
 		return nil, fmt.Errorf("request timeout exceeded")
 	}
 }
-- 
2.43.0


From 6d2f8f67792445835b50c869cdfa5028adc2616d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:47 +0000
Subject: [PATCH 45/48] fix: do not take the text of an error for a format when
 logging it

---
 cp/json.go          | 4 ++--
 cs/cs.go            | 4 ++--
 internal/log/log.go | 3 ++-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/cp/json.go b/cp/json.go
index 757502f..8fe7fa0 100644
--- a/cp/json.go
+++ b/cp/json.go
@@ -70,14 +70,14 @@ func (cp *chargePoint) handleWebsocketConnection(cshandler CentralSystemMessageH
 				log.Error(csreq.ErrorNotCentralSystemRequest.Error())
 				err := cp.conn.SendResponse(req.MessageID, nil, csreq.ErrorNotCentralSystemRequest)
 				if err != nil {
-					log.Error(err.Error())
+					log.Error("%w", err)
 				}
 				continue
 			}
 			cpresponse, err := cshandler(cprequest)
 			err = cp.conn.SendResponse(req.MessageID, cpresponse, err)
 			if err != nil {
-				log.Error(err.Error())
+				log.Error("%w", err)
 			}
 		}
 	}
diff --git a/cs/cs.go b/cs/cs.go
index 4e41ab2..542a77b 100644
--- a/cs/cs.go
+++ b/cs/cs.go
@@ -187,7 +187,7 @@ func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Reques
 				log.Error(cpreq.ErrorNotChargePointRequest.Error())
 				err := conn.SendResponse(req.MessageID, nil, cpreq.ErrorNotChargePointRequest)
 				if err != nil {
-					log.Error(err.Error())
+					log.Error("%w", err)
 				}
 				continue
 			}
@@ -197,7 +197,7 @@ func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Reques
 			})
 			err = conn.SendResponse(req.MessageID, cpresponse, err)
 			if err != nil {
-				log.Error(err.Error())
+				log.Error("%w", err)
 			}
 		case <-conn.WaitClose():
 			return
diff --git a/internal/log/log.go b/internal/log/log.go
index 8b065d4..6d21c52 100644
--- a/internal/log/log.go
+++ b/internal/log/log.go
@@ -19,5 +19,6 @@ func Debug(format string, v ...interface{}) {
 	debugLog.Printf(format, v...)
 }
 func Error(format string, v ...interface{}) {
-	errorLog.Printf(fmt.Errorf(format, v...).Error())
+	// the text of an error is not a format
+	errorLog.Printf("%s", fmt.Errorf(format, v...).Error())
 }
\ No newline at end of file
-- 
2.43.0


From 8ce97bbdd7df9fb48319ab04720a1d27c7ba186c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:16 +0000
Subject: [PATCH 46/48] fix: refuse a charge point of an unknown transport
 instead of panicking in its Send

---
 cp/cp.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cp/cp.go b/cp/cp.go
index 47bfaf7..3d9e2af 100644
--- a/cp/cp.go
+++ b/cp/cp.go
@@ -54,6 +54,9 @@ func (cp *chargePoint) Send(request cpreq.ChargePointRequest) (cpresp.ChargePoin
 // Run the charge point on the given port
 // and handles each incoming CentralSystemRequest
 func New(ctx context.Context, identity, csURL string, version ocpp.Version, transport ocpp.Transport, port *string, cshandler CentralSystemMessageHandler) (*chargePoint, error) {
+	if transport != ocpp.JSON && transport != ocpp.SOAP {
+		return nil, fmt.Errorf("unknown transport: %q", transport)
+	}
 	cp := &chargePoint{
 		identity:         identity,
 		centralSystemURL: csURL,
-- 
2.43.0


From a257c64b77a92592d115075ba7e44071eaf452b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:41 +0000
Subject: [PATCH 47/48] fix: log why a SOAP charge point does not serve
 requests

---
 cp/soap.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cp/soap.go b/cp/soap.go
index b68f2ef..fb0e5eb 100644
--- a/cp/soap.go
+++ b/cp/soap.go
@@ -23,6 +23,8 @@ func handleSoap(ctx context.Context, port string, cshandler CentralSystemMessage
 	case <-ctx.Done():
 		return server.Close()
 	case err := <-serverErrorCh:
+		// nobody waits for the result
+		log.Error("Couldn't serve SOAP requests: %w", err)
 		return err
 	}
 }
-- 
2.43.0


From c22fd6f01e41019565a8cd691e89fd674fe1f850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:13 +0000
Subject: [PATCH 48/48] fix: send a SOAP request with one Content-Type

---
 soap/client.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/soap/client.go b/soap/client.go
index 3ac3944..e5bb9a3 100644
--- a/soap/client.go
+++ b/soap/client.go
@@ -82,8 +82,7 @@ func (s *Client) Call(soapAction string, request messages.Request, response mess
 		return err
 	}
 
-	req.Header.Add("Content-Type", "application/soap+xml")
-	req.Header.Add("Content-Type", "application/xml; charset=utf-8")
+	req.Header.Set("Content-Type", "application/soap+xml; charset=utf-8")
 
 	req.Close = true
 
-- 
2.43.0

