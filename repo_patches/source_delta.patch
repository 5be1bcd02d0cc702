From d56322ff191ce2aded2a19593a9ad09d36dd9346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:10 +0000
Subject: [PATCH 01/24] fix: decode only the bytes of the frame and do not
 modify the caller's buffer

---
 serialapi/message.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/serialapi/message.go b/serialapi/message.go
index 13414f0..8a94471 100644
--- a/serialapi/message.go
+++ b/serialapi/message.go
@@ -39,6 +39,10 @@ func Decode(data []byte) (length int, msg *Message, err error) {
 	// NAK	0x15	21	Message NAK
 	// CAN	0x18	24	Cancel - Resend request
 
+	if len(data) == 0 {
+		return 1, nil, nil
+	}
+
 	switch data[0] {
 	case 0x01: // SOF
 		if len(data) < 2 {
@@ -49,17 +53,21 @@ func Decode(data []byte) (length int, msg *Message, err error) {
 			return length + 2, nil, nil
 		}
 
+		// Work on a copy of this frame only, with the checksum byte cleared
+		frame := append([]byte{}, data[:length+2]...)
+		frame[length+1] = 0x00
+
 		checksum := data[length+1]
-		checksumData := append(data[1:length+1], byte(0x00))
+		checksumData := frame[1:]
 		if checksum != GenerateChecksum(checksumData) {
 			return -1, nil, fmt.Errorf("Invalid checksum, is 0x%x should be 0x%x, (len=%d)", checksum, GenerateChecksum(checksumData), length)
 		}
 
-		msg, err := NewMessage(data)
+		msg, err := NewMessage(frame)
 
 		return length + 2, msg, err
 	case 0x06, 0x15, 0x18: // ACK, NAC, CAN
-		msg, err := NewMessage(data)
+		msg, err := NewMessage(data[:1])
 		if err != nil {
 			logrus.Error(err)
 		}
-- 
2.43.0


From 233f81b92f733558e57b4dd6a11c20cf41de0e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:25 +0000
Subject: [PATCH 02/24] fix: reject truncated messages instead of panicking

---
 serialapi/application_command_handler.go |  6 ++++++
 serialapi/discovery_nodes.go             |  4 ++++
 serialapi/message.go                     | 17 +++++++++++++++--
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/serialapi/application_command_handler.go b/serialapi/application_command_handler.go
index 7d9b3d4..9487e8b 100644
--- a/serialapi/application_command_handler.go
+++ b/serialapi/application_command_handler.go
@@ -1,6 +1,8 @@
 package serialapi
 
 import (
+	"fmt"
+
 	"github.com/stampzilla/gozwave/commands"
 	"github.com/stampzilla/gozwave/commands/reports"
 )
@@ -15,6 +17,10 @@ type FuncApplicationCommandHandler struct {
 
 // NewApplicationCommandHandler decodes and creates a funcApplicationCommandHandler. This is the most common message from the controller. Its sent everytime a report are received from the zwave network.
 func NewApplicationCommandHandler(data []byte) (*FuncApplicationCommandHandler, error) {
+	if len(data) < 2 {
+		return nil, fmt.Errorf("wrong length, should be at least 2 bytes got %d", len(data))
+	}
+
 	f := &FuncApplicationCommandHandler{}
 
 	f.Command = commands.ZWaveCommand(data[0])
diff --git a/serialapi/discovery_nodes.go b/serialapi/discovery_nodes.go
index 59275ae..702d138 100644
--- a/serialapi/discovery_nodes.go
+++ b/serialapi/discovery_nodes.go
@@ -18,6 +18,10 @@ func NewDiscoverdNodes(data []byte) (*DiscoverdNodes, error) {
 		return nil, fmt.Errorf("wrong length, should be at least 6 bytes got %d", len(data))
 	}
 
+	if len(data) > len(f.ActiveNodes)/8 {
+		return nil, fmt.Errorf("wrong length, should be at most %d bytes got %d", len(f.ActiveNodes)/8, len(data))
+	}
+
 	for index, bits := range data {
 		f.ActiveNodes[index*8+0] = bits&0x01 != 0
 		f.ActiveNodes[index*8+1] = bits&0x02 != 0
diff --git a/serialapi/message.go b/serialapi/message.go
index 8a94471..adbc166 100644
--- a/serialapi/message.go
+++ b/serialapi/message.go
@@ -110,11 +110,18 @@ func CompileMessage(data []byte) []byte {
 
 // NewMessage tries to decode a binary message from the controller in to a message struct
 func NewMessage(data []byte) (*Message, error) {
+	if len(data) == 0 {
+		return nil, fmt.Errorf("Empty message")
+	}
+
 	message := &Message{}
 	message.startByte = data[0]
 	if len(data) <= 1 {
 		return message, nil
 	}
+	if len(data) < 4 {
+		return nil, fmt.Errorf("Message is to short: %x", data)
+	}
 	message.Length = data[1]
 	message.MessageType = data[2]
 	message.Function = ZWaveFunction(data[3])
@@ -122,12 +129,18 @@ func NewMessage(data []byte) (*Message, error) {
 	var err error
 	switch message.Function {
 	case ApplicationCommandHandler:
+		if len(data) < 7 || len(data) < 7+int(data[6]) {
+			return nil, fmt.Errorf("Message is to short: %x", data)
+		}
 		message.NodeID = data[5]
 
-		message.Data, err = NewApplicationCommandHandler(data[7 : 7+data[6]])
+		message.Data, err = NewApplicationCommandHandler(data[7 : 7+int(data[6])])
 	case DiscoveryNodes:
+		if len(data) < 7 || len(data) < 7+int(data[6]) {
+			return nil, fmt.Errorf("Message is to short: %x", data)
+		}
 
-		message.Data, err = NewDiscoverdNodes(data[7 : 7+data[6]])
+		message.Data, err = NewDiscoverdNodes(data[7 : 7+int(data[6])])
 	case GetNodeProtocolInfo:
 
 		message.Data, err = NewGetNodeProtocolInfo(data[4:])
-- 
2.43.0


From 37d1a1d58748aa0b478b1bf5ab4a0e2908815264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:17 +0000
Subject: [PATCH 03/24] fix: do not panic or match beyond the end of a frame
 when looking for its request

---
 connection.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/connection.go b/connection.go
index a522409..4dc8207 100644
--- a/connection.go
+++ b/connection.go
@@ -252,7 +252,7 @@ func (conn *Connection) Reader() error {
 			if l > 1 { // A message was received
 				conn.Lock()
 				for index, c := range conn.inFlight {
-					if !c.Match(incomming) {
+					if !c.Match(incomming[:l-1]) { // Only this frame, without the checksum
 						logrus.Infof("Check match %#v", c)
 						continue
 					}
@@ -314,7 +314,7 @@ func (c *sendPackage) Match(incomming []byte) bool {
 
 	// SerialAPI specific
 	if !MatchByteAt(incomming, c.function, 3) && !(c.function == serialapi.SendData && MatchByteAt(incomming, serialapi.ApplicationCommandHandler, 3)) {
-		logrus.Warnf("Skipping pkg %s, function %x != %x", c.uuid, c.function, incomming[3])
+		logrus.Warnf("Skipping pkg %s, function %x not in %x", c.uuid, c.function, incomming)
 		return false
 	}
 
@@ -324,15 +324,15 @@ func (c *sendPackage) Match(incomming []byte) bool {
 
 	// Z-wave specific
 	if !MatchByteAt(incomming, c.node, 5) {
-		logrus.Warnf("Skipping pkg %s, node %x != %x", c.uuid, c.node, incomming[5])
+		logrus.Warnf("Skipping pkg %s, node %x not in %x", c.uuid, c.node, incomming)
 		return false
 	}
 	if !MatchByteAt(incomming, c.commandclass, 7) {
-		logrus.Warnf("Skipping pkg %s, commandclass %x is not %x", c.uuid, c.commandclass, incomming[7])
+		logrus.Warnf("Skipping pkg %s, commandclass %x not in %x", c.uuid, c.commandclass, incomming)
 		return false
 	}
 	if !MatchByteAt(incomming, c.expectedReport, 8) {
-		logrus.Errorf("Skipping pkg %s, expectedReport %x is not %x", c.uuid, c.expectedReport, incomming[8])
+		logrus.Errorf("Skipping pkg %s, expectedReport %x not in %x", c.uuid, c.expectedReport, incomming)
 		return false
 	}
 
@@ -358,7 +358,7 @@ func MatchByteAt(message []byte, b byte, position int) bool {
 		return true
 	}
 
-	if len(message) < position {
+	if len(message) <= position {
 		return false
 	}
 
-- 
2.43.0


From cedca6abaa30108e4fd61f455a13a6854721839a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:19 +0000
Subject: [PATCH 04/24] fix: hold the connection lock whenever the requests in
 flight are used

---
 connection.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/connection.go b/connection.go
index 4dc8207..9d5a75c 100644
--- a/connection.go
+++ b/connection.go
@@ -162,7 +162,9 @@ func (conn *Connection) Writer() {
 			go func() {
 				select {
 				case result := <-conn.lastResult:
+					pkg.Lock()
 					pkg.result = result
+					pkg.Unlock()
 				case <-time.After(time.Second):
 					logrus.Warn("Send timeout")
 					// SEND TIMEOUT
@@ -175,7 +177,9 @@ func (conn *Connection) Writer() {
 			conn.Unlock()
 
 			<-abort
+			conn.Lock()
 			conn.lastCommand = ""
+			conn.Unlock()
 		}
 	}
 }
@@ -211,8 +215,8 @@ func (conn *Connection) Reader() error {
 			}
 
 			if l == 1 {
+				conn.Lock()
 				for index, c := range conn.inFlight {
-					conn.RLock()
 					if c.uuid == conn.lastCommand {
 						select {
 						case conn.lastResult <- incomming[0]:
@@ -220,21 +224,20 @@ func (conn *Connection) Reader() error {
 						}
 
 						if msg.IsNAK() {
-							logrus.Warnf("Command failed: %s - %#v", c.uuid, c)
+							logrus.Warnf("Command failed: %s - %x", c.uuid, c.message)
 							delete(conn.inFlight, index)
 							c.Close()
 						}
 
 						if msg.IsCAN() {
-							go func() {
+							go func(c *sendPackage) {
 								<-time.After(time.Millisecond * 100)
 								conn.send <- c
-							}()
+							}(c)
 						}
 					}
-					conn.RUnlock()
 				}
-
+				conn.Unlock()
 			}
 
 			// The message is not compleatly read yet, wait for some more data
@@ -253,7 +256,7 @@ func (conn *Connection) Reader() error {
 				conn.Lock()
 				for index, c := range conn.inFlight {
 					if !c.Match(incomming[:l-1]) { // Only this frame, without the checksum
-						logrus.Infof("Check match %#v", c)
+						logrus.Infof("Check match %s - %x", c.uuid, c.message)
 						continue
 					}
 
-- 
2.43.0


From fb67871e0bf464e954d30eb94bb6764c69ec2e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:21 +0000
Subject: [PATCH 05/24] fix: do not lose or double close the response channel
 of a request and survive undecodable responses

---
 connection.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/connection.go b/connection.go
index 9d5a75c..1cedc56 100644
--- a/connection.go
+++ b/connection.go
@@ -45,17 +45,15 @@ type sendPackage struct {
 }
 
 func (sp *sendPackage) Close() {
-	sp.RLock()
+	sp.Lock()
+	defer sp.Unlock()
+
 	if sp.returnChan == nil {
-		sp.RUnlock()
 		return
 	}
-	sp.RUnlock()
 
-	sp.Lock()
 	close(sp.returnChan)
 	sp.returnChan = nil
-	sp.Unlock()
 }
 
 func (sp *sendPackage) IsOpen() bool {
@@ -82,17 +80,19 @@ func (conn *Connection) Write(msg interfaces.Encodable) error {
 }
 func (conn *Connection) WriteWithTimeout(msg interfaces.Encodable, t time.Duration) (<-chan *serialapi.Message, error) {
 	pkg := newSendPackage(msg.Encode())
-	pkg.returnChan = make(chan *serialapi.Message)
+	response := make(chan *serialapi.Message)
+	pkg.returnChan = response
 	pkg.timeout = t
 
 	conn.send <- pkg
 
-	return pkg.returnChan, nil
+	return response, nil
 }
 func (conn *Connection) WriteAndWaitForReport(msg interfaces.Encodable, t time.Duration, er byte) (<-chan reports.Report, error) {
 	pkg := newSendPackage(msg.Encode())
 	returnChan := make(chan reports.Report)
-	pkg.returnChan = make(chan *serialapi.Message)
+	response := make(chan *serialapi.Message)
+	pkg.returnChan = response
 	pkg.timeout = t
 	pkg.expectedReport = er
 
@@ -100,7 +100,12 @@ func (conn *Connection) WriteAndWaitForReport(msg interfaces.Encodable, t time.D
 
 	go func() {
 		defer close(returnChan)
-		for msg := range pkg.returnChan {
+		for msg := range response {
+			if msg == nil {
+				logrus.Errorf("WriteAndWaitForReport: Received a message that could not be decoded")
+				continue
+			}
+
 			if f, ok := msg.Data.(*serialapi.FuncApplicationCommandHandler); ok {
 				returnChan <- f.Report
 				return
-- 
2.43.0


From 8ca28aa543ef6078c9c5191688c6784b87a2c5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:23 +0000
Subject: [PATCH 06/24] fix: do not start another writer each time the port is
 reopened

---
 connection.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/connection.go b/connection.go
index 1cedc56..8b580b2 100644
--- a/connection.go
+++ b/connection.go
@@ -25,6 +25,8 @@ type Connection struct {
 
 	reportCallback func(byte, reports.Report)
 
+	startWriter sync.Once
+
 	sync.RWMutex
 }
 
@@ -144,7 +146,7 @@ func (conn *Connection) Connect(connectChan chan error) (err error) {
 		conn.Connected = true
 	}()
 
-	go conn.Writer()
+	conn.startWriter.Do(func() { go conn.Writer() }) // Only one writer, even if the port is reopened
 	return conn.Reader()
 }
 
-- 
2.43.0


From 10d33f0afed62d9aedd4a4c00f70bc18a6a87941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 07/24] fix: guard the port and the connected flag and do not
 mark a lost connection as connected

---
 connection.go | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/connection.go b/connection.go
index 8b580b2..33ffbbe 100644
--- a/connection.go
+++ b/connection.go
@@ -123,10 +123,12 @@ func (conn *Connection) WriteAndWaitForReport(msg interfaces.Encodable, t time.D
 func (conn *Connection) Connect(connectChan chan error) (err error) {
 	defer func() {
 		logrus.Error("Disonnected")
+		conn.Lock()
 		conn.Connected = false
+		conn.Unlock()
 	}()
 
-	conn.readWriteCloser, err = conn.portOpener.Open()
+	port, err := conn.portOpener.Open()
 
 	if err != nil {
 		select {
@@ -136,14 +138,29 @@ func (conn *Connection) Connect(connectChan chan error) (err error) {
 		return
 	}
 
+	conn.Lock()
+	conn.readWriteCloser = port
+	conn.Unlock()
+
+	disconnected := make(chan struct{})
+	defer close(disconnected)
 	go func() {
 		<-time.After(time.Millisecond * 200)
+		conn.Lock()
+		select {
+		case <-disconnected:
+			conn.Unlock()
+			return
+		default:
+		}
+		conn.Connected = true
+		conn.Unlock()
+
 		logrus.Debug("Connected")
 		select {
 		case connectChan <- nil:
 		default:
 		}
-		conn.Connected = true
 	}()
 
 	conn.startWriter.Do(func() { go conn.Writer() }) // Only one writer, even if the port is reopened
@@ -192,16 +209,20 @@ func (conn *Connection) Writer() {
 }
 
 func (conn *Connection) Reader() error {
+	conn.RLock()
+	port := conn.readWriteCloser
+	conn.RUnlock()
+
 	incomming := make([]byte, 0)
 	age := time.Now()
 
 	for {
 		buf := make([]byte, 128)
 
-		n, err := conn.readWriteCloser.Read(buf)
+		n, err := port.Read(buf)
 		if err != nil {
 			logrus.Error("Serial read failed: ", err)
-			conn.readWriteCloser.Close()
+			port.Close()
 			return err
 		}
 
@@ -292,7 +313,7 @@ func (conn *Connection) Reader() error {
 			logrus.Debugf("Recived: %x", incomming)
 			incomming = incomming[l:]
 			if l > 1 {
-				conn.readWriteCloser.Write([]byte{0x06}) // Send ACK to stick
+				port.Write([]byte{0x06}) // Send ACK to stick
 			}
 
 		}
-- 
2.43.0


From 68f61e29a051a3aa3f45b5df67ffd943175295e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:28 +0000
Subject: [PATCH 08/24] fix: forget requests without timeout when the stick has
 answered

---
 connection.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/connection.go b/connection.go
index 33ffbbe..a56d678 100644
--- a/connection.go
+++ b/connection.go
@@ -203,6 +203,10 @@ func (conn *Connection) Writer() {
 			<-abort
 			conn.Lock()
 			conn.lastCommand = ""
+			if pkg.timeout == 0 { // No timeout is running, so nobody else would forget this request
+				delete(conn.inFlight, pkg.uuid)
+				pkg.Close()
+			}
 			conn.Unlock()
 		}
 	}
-- 
2.43.0


From 8004ff14ab1260a489f7e70acf60e5b41d86e7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 09/24] fix: stop reopening the port when connect has returned
 an error

---
 gozwave.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gozwave.go b/gozwave.go
index 432b3cc..b491c83 100644
--- a/gozwave.go
+++ b/gozwave.go
@@ -34,16 +34,22 @@ func ConnectWithCustomPortOpener(port string, filename string, po PortOpener) (*
 		c.LoadConfigurationFromFile()
 	}
 
+	stop := make(chan struct{})
 	go func() {
 		for {
 			err := c.Connection.Connect(connected)
 			logrus.Error(err)
-			<-time.After(time.Second)
+			select {
+			case <-stop:
+				return
+			case <-time.After(time.Second):
+			}
 		}
 	}()
 
 	err = <-connected
 	if err != nil {
+		close(stop)
 		return nil, err
 	}
 
-- 
2.43.0


From d85fa38655faacbdb37a29d263a69c34d5104a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:11 +0000
Subject: [PATCH 10/24] fix: do not copy the lock of the node list or hand out
 its map

---
 nodes/list.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/nodes/list.go b/nodes/list.go
index 297f673..4b90b97 100644
--- a/nodes/list.go
+++ b/nodes/list.go
@@ -37,27 +37,23 @@ func (l *List) Add(node *Node) {
 	l.Unlock()
 }
 
-func (l List) All() map[int]*Node {
+// All returns a copy of the list, so it can be used without holding the lock
+func (l *List) All() map[int]*Node {
 	l.RLock()
 	defer l.RUnlock()
 
-	for _, v := range l.nodes {
-		v.RLock()
-		defer v.RUnlock()
+	all := make(map[int]*Node)
+	for k, v := range l.nodes {
+		all[k] = v
 	}
 
-	return l.nodes
+	return all
 }
 
-func (l List) Get(id int) *Node {
+func (l *List) Get(id int) *Node {
 	l.RLock()
 	defer l.RUnlock()
 
-	if l.nodes[id] != nil {
-		l.nodes[id].RLock()
-		defer l.nodes[id].RUnlock()
-	}
-
 	return l.nodes[id]
 }
 
@@ -67,7 +63,7 @@ func (l List) Get(id int) *Node {
 //l.Unlock()
 //}
 
-func (l List) MarshalJSON() ([]byte, error) {
+func (l *List) MarshalJSON() ([]byte, error) {
 	s := make(map[string]*Node)
 
 	for k, v := range l.All() {
-- 
2.43.0


From 2b1d91700adfb5577237def3c03c5e5396ad33bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:13 +0000
Subject: [PATCH 11/24] fix: hold the node lock when its state is used or
 encoded, check the endpoint number

---
 nodes/endpoints.go |  5 ++++-
 nodes/node.go      | 23 ++++++++++++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/nodes/endpoints.go b/nodes/endpoints.go
index 19ef2a0..a97a34a 100644
--- a/nodes/endpoints.go
+++ b/nodes/endpoints.go
@@ -23,7 +23,10 @@ func (n *Node) Endpoint(id int) *Endpoint {
 		return nil
 	}
 
-	if id > len(n.Endpoints) {
+	n.RLock()
+	defer n.RUnlock()
+
+	if id < 0 || id >= len(n.Endpoints) {
 		return nil
 	}
 
diff --git a/nodes/node.go b/nodes/node.go
index 5771623..64bb3a8 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -1,6 +1,7 @@
 package nodes
 
 import (
+	"encoding/json"
 	"strings"
 	"sync"
 	"time"
@@ -66,7 +67,20 @@ func (n *Node) Setup(connection interfaces.Writer, pushEventFunc func(interface{
 	n.pushEventFunc = pushEventFunc
 }
 
+// MarshalJSON makes sure that the node is not changed while it is encoded
+func (n *Node) MarshalJSON() ([]byte, error) {
+	type plainNode Node
+
+	n.RLock()
+	defer n.RUnlock()
+
+	return json.Marshal((*plainNode)(n))
+}
+
 func (n *Node) isAwake() chan struct{} {
+	n.Lock()
+	defer n.Unlock()
+
 	if n.IsAwake {
 		c := make(chan struct{})
 		close(c)
@@ -183,7 +197,11 @@ func (n *Node) Identify() {
 		//		nodeinfo := self.WaitForGetNodeProtocolInfo()
 
 		// All manufacturer specific information such as vendor, vendors product ID and product type
-		if n.ManufacurerSpecific == nil {
+		n.RLock()
+		hasManufacturerSpecific := n.ManufacurerSpecific != nil
+		n.RUnlock()
+
+		if !hasManufacturerSpecific {
 			<-n.isAwake()
 			resp, err := n.RequestManufacturerSpecific()
 			if err != nil {
@@ -306,6 +324,9 @@ func (n *Node) pushEvent(event interface{}) {
 }
 
 func (n *Node) HasCommand(c commands.ZWaveCommand) bool {
+	n.RLock()
+	defer n.RUnlock()
+
 	if n.CommandClasses == nil {
 		return false
 	}
-- 
2.43.0


From 6cda7a410813539323aaac4a49033fd05001a4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:15 +0000
Subject: [PATCH 12/24] fix: set up a node before it is added to the list and
 announced

---
 controller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller.go b/controller.go
index 841c7c3..2e6c0b4 100644
--- a/controller.go
+++ b/controller.go
@@ -79,12 +79,12 @@ func (c *Controller) initNode(id int, node *nodes.Node) *nodes.Node {
 	}
 
 	node = nodes.New(id)
+	node.Setup(c.Connection, c.pushEvent)
 	c.Nodes.Add(node)
 	c.pushEvent(events.NodeDiscoverd{
 		Address: node.Id,
 	})
 
-	node.Setup(c.Connection, c.pushEvent)
 	return node
 }
 
-- 
2.43.0


From 9bceca5db10af43c00861beb778f77015c6032a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:17 +0000
Subject: [PATCH 13/24] fix: keep the command classes from the device database
 when identification is repeated

---
 nodes/node.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/nodes/node.go b/nodes/node.go
index 64bb3a8..3e4540d 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -191,6 +191,7 @@ func (n *Node) Identify() {
 
 		n.Lock()
 		n.CommandClasses = classes
+		n.addDeviceInformation()
 		n.Unlock()
 
 		//<-self.Connection.SendRaw([]byte{serialapi.GetNodeProtocolInfo, byte(index + 1)}) // Request node information
@@ -212,15 +213,7 @@ func (n *Node) Identify() {
 
 			n.Lock()
 			n.ManufacurerSpecific = resp
-			dev := database.New(n.ManufacurerSpecific.Manufacturer, n.ManufacurerSpecific.Type, n.ManufacurerSpecific.ID)
-			if dev != nil {
-				n.Brand = dev.Brand
-				n.Product = dev.Product
-				n.Description = dev.Description
-				for _, v := range dev.CommandClasses {
-					n.CommandClasses = append(n.CommandClasses, v)
-				}
-			}
+			n.addDeviceInformation()
 			n.pushEvent(events.NodeUpdated{
 				Address: n.Id,
 			})
@@ -319,6 +312,23 @@ func (n *Node) Identify() {
 	}
 }
 
+// addDeviceInformation adds what the device database knows about the node. The node must be locked.
+func (n *Node) addDeviceInformation() {
+	if n.ManufacurerSpecific == nil {
+		return
+	}
+
+	dev := database.New(n.ManufacurerSpecific.Manufacturer, n.ManufacurerSpecific.Type, n.ManufacurerSpecific.ID)
+	if dev != nil {
+		n.Brand = dev.Brand
+		n.Product = dev.Product
+		n.Description = dev.Description
+		for _, v := range dev.CommandClasses {
+			n.CommandClasses = append(n.CommandClasses, v)
+		}
+	}
+}
+
 func (n *Node) pushEvent(event interface{}) {
 	n.pushEventFunc(event)
 }
-- 
2.43.0


From 6fb2d1fe3c5b0acf712c641f2b18ebe07c4a0645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:19 +0000
Subject: [PATCH 14/24] fix: never leave a truncated configuration file and
 report errors when saving it

---
 controller.go | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/controller.go b/controller.go
index 2e6c0b4..3b81c1d 100644
--- a/controller.go
+++ b/controller.go
@@ -1,11 +1,9 @@
 package gozwave
 
 import (
-	"bytes"
 	"encoding/json"
 	"fmt"
 	"os"
-	"reflect"
 	"sync"
 	"time"
 
@@ -109,7 +107,9 @@ func (c *Controller) saveDebouncer() {
 		case <-c.triggerFileSave:
 		case <-time.After(time.Second * 10):
 			if c.filename != "" {
-				c.SaveConfigurationToFile()
+				if err := c.SaveConfigurationToFile(); err != nil {
+					logrus.Error("Failed to save config: ", err)
+				}
 			}
 			<-c.triggerFileSave
 		}
@@ -132,29 +132,34 @@ func (c *Controller) DeliverReportToNode(node byte, report reports.Report) {
 }
 
 func (c *Controller) SaveConfigurationToFile() error {
-	controller, err := c.loadConfigurationFromFile()
-	if err == nil {
-		if reflect.DeepEqual(c, controller) {
-			return nil
-		}
+	logrus.Info("Save config: ", c.filename)
+	b, err := json.MarshalIndent(c, "", "\t")
+	if err != nil {
+		return err
 	}
 
-	configFile, err := os.Create(c.filename)
+	// Write to a temporary file and replace the old one when everything is written
+	tmpname := c.filename + ".tmp"
+	configFile, err := os.Create(tmpname)
 	if err != nil {
-		logrus.Error("creating config file", err.Error())
+		return err
 	}
-	defer configFile.Close()
 
-	logrus.Info("Save config: ", c.filename)
-	var out bytes.Buffer
-	b, err := json.MarshalIndent(c, "", "\t")
+	_, err = configFile.Write(b)
+	if err == nil {
+		err = configFile.Sync()
+	}
+	if closeErr := configFile.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Rename(tmpname, c.filename)
+	}
 	if err != nil {
-		logrus.Error("error marshal json", err)
+		os.Remove(tmpname)
 	}
-	json.Indent(&out, b, "", "\t")
-	out.WriteTo(configFile)
 
-	return nil
+	return err
 }
 func (c *Controller) LoadConfigurationFromFile() error {
 	controller, err := c.loadConfigurationFromFile()
-- 
2.43.0


From 46726e2e72510c43a4d05976669decca74f4ea29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:20 +0000
Subject: [PATCH 15/24] fix: do not crash on null values in the configuration
 file

---
 controller.go           |  5 ++++-
 nodes/list.go           | 14 +++++++++++++-
 nodes/node.go           |  2 +-
 nodes/request_states.go |  4 ++++
 4 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/controller.go b/controller.go
index 3b81c1d..92168aa 100644
--- a/controller.go
+++ b/controller.go
@@ -186,9 +186,12 @@ func (c *Controller) loadConfigurationFromFile() (*Controller, error) {
 
 	controller := &Controller{}
 	jsonParser := json.NewDecoder(configFile)
-	if err = jsonParser.Decode(&controller); err != nil {
+	if err = jsonParser.Decode(controller); err != nil {
 		return nil, err
 	}
+	if controller.Nodes == nil {
+		return nil, fmt.Errorf("No nodes in config file")
+	}
 
 	return controller, nil
 }
diff --git a/nodes/list.go b/nodes/list.go
index 4b90b97..8401565 100644
--- a/nodes/list.go
+++ b/nodes/list.go
@@ -21,6 +21,10 @@ func NewList() *List {
 }
 
 func (l *List) Add(node *Node) {
+	if node == nil {
+		return
+	}
+
 	l.Lock()
 	if l.nodes == nil {
 		l.nodes = make(map[int]*Node)
@@ -29,7 +33,15 @@ func (l *List) Add(node *Node) {
 	node.Lock()
 	//node.connection = l.connection
 	for k, _ := range node.Endpoints {
-		node.Endpoints[k].node = node
+		if node.Endpoints[k] != nil {
+			node.Endpoints[k].node = node
+		}
+	}
+	if node.StateBool == nil {
+		node.StateBool = make(map[string]bool)
+	}
+	if node.StateFloat == nil {
+		node.StateFloat = make(map[string]float64)
 	}
 	node.Unlock()
 
diff --git a/nodes/node.go b/nodes/node.go
index 3e4540d..42ecda4 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -342,7 +342,7 @@ func (n *Node) HasCommand(c commands.ZWaveCommand) bool {
 	}
 
 	for _, v := range n.CommandClasses {
-		if v.ID == c {
+		if v != nil && v.ID == c {
 			return true
 		}
 	}
diff --git a/nodes/request_states.go b/nodes/request_states.go
index 32050e6..4cd41dc 100644
--- a/nodes/request_states.go
+++ b/nodes/request_states.go
@@ -13,6 +13,10 @@ func (n *Node) RequestStates() error {
 	n.RUnlock()
 
 	for _, v := range cc {
+		if v == nil {
+			continue
+		}
+
 		switch v.ID {
 		case commands.SwitchBinary:
 			cmd := commands.NewRaw([]byte{
-- 
2.43.0


From dddc6db03065f573f6965401370c552ff48a0ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:39 +0000
Subject: [PATCH 16/24] fix: send level 0 when the requested level is not a
 number

---
 commands/SwitchMultilevel.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commands/SwitchMultilevel.go b/commands/SwitchMultilevel.go
index 40107e7..5f952cb 100644
--- a/commands/SwitchMultilevel.go
+++ b/commands/SwitchMultilevel.go
@@ -11,7 +11,7 @@ func NewSwitchMultilevel() *CmdSwitchMultilevel {
 }
 
 func (c *CmdSwitchMultilevel) SetValue(v float64) *CmdSwitchMultilevel {
-	if v < 1 {
+	if !(v >= 1) { // Also true for NaN
 		v = 0
 	}
 	if v > 99 {
-- 
2.43.0


From 435a77d343bc0ae6d461fc88aeff4c2d4a9ef08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:41 +0000
Subject: [PATCH 17/24] fix: do not wait forever for the report of a request
 that could not be sent

---
 nodes/request_endpoints.go | 5 ++++-
 nodes/request_states.go    | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/nodes/request_endpoints.go b/nodes/request_endpoints.go
index da20149..45cfd99 100644
--- a/nodes/request_endpoints.go
+++ b/nodes/request_endpoints.go
@@ -39,7 +39,10 @@ func (n *Node) RequestEndpoints() error {
 	fmt.Println("")
 	logrus.Debugf("Request endpoint %d", n.Id)
 
-	t, _ := n.connection.WriteAndWaitForReport(cmd, time.Second*2, 0x08) // Request node information
+	t, err := n.connection.WriteAndWaitForReport(cmd, time.Second*2, 0x08) // Request node information
+	if err != nil {
+		return err
+	}
 	report := <-t
 
 	logrus.Debugf("Request endpoint %d report: %#v", n.Id, report)
diff --git a/nodes/request_states.go b/nodes/request_states.go
index 4cd41dc..a4cb1f7 100644
--- a/nodes/request_states.go
+++ b/nodes/request_states.go
@@ -44,7 +44,10 @@ func (n *Node) RequestStates() error {
 				//0x23, // Callback?
 			})
 			cmd.SetNode(n.Id)
-			t, _ := n.connection.WriteAndWaitForReport(cmd, time.Second*2, 0x02) // Wait for SupportedReport (0x02)
+			t, err := n.connection.WriteAndWaitForReport(cmd, time.Second*2, 0x02) // Wait for SupportedReport (0x02)
+			if err != nil {
+				return err
+			}
 
 			report := <-t
 			//for k, v := range report.sensors {
-- 
2.43.0


From 4dfbc6be2b45cf2cac86c9872779d8c2122addcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:43 +0000
Subject: [PATCH 18/24] fix: record a copy of the transferred data, in order
 and with only one log writer

---
 serialrecorder/serialrecorder.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/serialrecorder/serialrecorder.go b/serialrecorder/serialrecorder.go
index 92453b1..51bdcad 100644
--- a/serialrecorder/serialrecorder.go
+++ b/serialrecorder/serialrecorder.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"log"
 	"os"
+	"sync"
 	"time"
 
 	"github.com/tarm/serial"
@@ -17,6 +18,7 @@ type serialRecorder struct {
 	Logger io.Writer
 
 	writeBuffer chan *Row
+	startLogger sync.Once
 }
 
 // Row logs one serial read or write
@@ -38,13 +40,13 @@ func New(port string, baud int) *serialRecorder {
 
 func (sr *serialRecorder) Read(p []byte) (n int, err error) {
 	n, err = sr.serial.Read(p)
-	go sr.writeToLog(DirectionRead, p[:n])
+	sr.writeToLog(DirectionRead, p[:n])
 	return
 }
 
 func (sr *serialRecorder) Write(p []byte) (n int, err error) {
 	n, err = sr.serial.Write(p)
-	go sr.writeToLog(DirectionWrite, p[:n])
+	sr.writeToLog(DirectionWrite, p[:n])
 	return
 }
 
@@ -52,7 +54,7 @@ func (sr *serialRecorder) writeToLog(d Direction, data []byte) {
 	sr.writeBuffer <- &Row{
 		Timestamp: time.Now(),
 		Direction: d,
-		Data:      data,
+		Data:      append([]byte{}, data...), // The caller will reuse its buffer
 	}
 }
 
@@ -71,7 +73,7 @@ func (sr *serialRecorder) Close() error {
 	return sr.serial.Close()
 }
 func (sr *serialRecorder) Open() (io.ReadWriteCloser, error) {
-	go sr.logWriter()
+	sr.startLogger.Do(func() { go sr.logWriter() })
 
 	var err error
 	sr.serial, err = serial.OpenPort(&serial.Config{Name: sr.port, Baud: sr.baud})
-- 
2.43.0


From 905be41a90e38df3cbcdd89d4cdbb9fa33df3d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:45 +0000
Subject: [PATCH 19/24] fix: print the last rows of a recording

---
 cmd/serialrecordingtohex/serialrecordingtohex.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cmd/serialrecordingtohex/serialrecordingtohex.go b/cmd/serialrecordingtohex/serialrecordingtohex.go
index a545385..cc43133 100644
--- a/cmd/serialrecordingtohex/serialrecordingtohex.go
+++ b/cmd/serialrecordingtohex/serialrecordingtohex.go
@@ -76,6 +76,17 @@ func main() {
 		}
 	}
 
+	// Add the last rows, that are still waiting for more data
+	for _, c := range []logRowCombiner{reads, writes} {
+		if len(c.buf) > 0 {
+			combinedRows = append(combinedRows, row{
+				Timestamp: c.prev.Timestamp,
+				Direction: c.prev.Direction,
+				Data:      c.buf,
+			})
+		}
+	}
+
 	// Sort the rows and print them out
 	sort.Sort(combinedRows)
 	for _, v := range combinedRows {
-- 
2.43.0


From 0b4a75fce18bd8745abeec640c8ac273c8b6dc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:50 +0000
Subject: [PATCH 20/24] fix: correct the code of the mark command class and add
 missing command class names

---
 commands/constants.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/commands/constants.go b/commands/constants.go
index 65c71dd..840e46e 100644
--- a/commands/constants.go
+++ b/commands/constants.go
@@ -157,7 +157,7 @@ const (
 	ManufacturerProprietary         = 0x91
 	Security                        = 0x98
 	AssociationCommandConfiguration = 0x9b
-	Mark                            = 0xE
+	Mark                            = 0xEF
 )
 
 func (cmd ZWaveCommand) String() string {
@@ -206,6 +206,16 @@ func (cmd ZWaveCommand) String() string {
 		str = "ClimateControlSchedule"
 	case 0x50:
 		str = "BasicWindowCovering"
+	case 0x56:
+		str = "CRC16Encap"
+	case 0x59:
+		str = "AssociationGRPInfo"
+	case 0x5a:
+		str = "DeviceResetLocally"
+	case 0x5b:
+		str = "CentralScenev2"
+	case 0x5e:
+		str = "ZwavePlusInfov2"
 	case 0x60:
 		str = "MultiInstance"
 	case 0x70:
@@ -222,6 +232,8 @@ func (cmd ZWaveCommand) String() string {
 		str = "Lock"
 	case 0x77:
 		str = "NodeNaming"
+	case 0x7a:
+		str = "FirmwareUpdateMDv3"
 	case 0x80:
 		str = "Battery"
 	case 0x81:
@@ -248,6 +260,8 @@ func (cmd ZWaveCommand) String() string {
 		str = "EnergyProduction"
 	case 0x91:
 		str = "ManufacturerProprietary"
+	case 0x98:
+		str = "Security"
 	case 0x9b:
 		str = "AssociationCommandConfiguration"
 	case 0xEF:
-- 
2.43.0


From ef1862a80c531a332fcc52a6af79fe2d7c5be484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:14 +0000
Subject: [PATCH 21/24] fix: mandatory command classes of power strips and
 thermostats

The generator mapped Multichannel Association to Association and did not
know Thermostat Mode and Thermostat Set Point, so the generated table did
not match mandatory.txt.
---
 database/mandatory.go                       |  8 +++++++-
 generators/commandclasses/commandclasses.go | 16 +++++++++++-----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/database/mandatory.go b/database/mandatory.go
index ae0e4d6..87c4f1c 100644
--- a/database/mandatory.go
+++ b/database/mandatory.go
@@ -650,7 +650,7 @@ var definitions = map[Definition][]*CommandClass{
 			ID: 0x60,
 		},
 		&CommandClass{
-			ID: 0x85,
+			ID: 0x8e,
 		},
 		&CommandClass{
 			ID: 0x73,
@@ -978,6 +978,12 @@ var definitions = map[Definition][]*CommandClass{
 		&CommandClass{
 			ID: 0x73,
 		},
+		&CommandClass{
+			ID: 0x43,
+		},
+		&CommandClass{
+			ID: 0x40,
+		},
 		&CommandClass{
 			ID: 0x86,
 		},
diff --git a/generators/commandclasses/commandclasses.go b/generators/commandclasses/commandclasses.go
index cbd84fb..131259b 100644
--- a/generators/commandclasses/commandclasses.go
+++ b/generators/commandclasses/commandclasses.go
@@ -135,6 +135,11 @@ func StringToByte(s string) byte {
 		return commands.AssociationGRPInfo
 	}
 
+	//- Multichannel Association (version 3 or newer)
+	if strings.Contains(s, "Multichannel Association") {
+		return commands.MultiInstanceAssociation
+	}
+
 	//- Association (version 2 or newer)
 	if strings.Contains(s, "Association") {
 		return commands.Association
@@ -170,11 +175,6 @@ func StringToByte(s string) byte {
 	if strings.Contains(s, "Meter") {
 		return commands.Meter
 	}
-	//- Multichannel Association (version 3 or newer)
-	if strings.Contains(s, "Multichannel Association") {
-		return commands.MultiInstanceAssociation
-	}
-
 	//- Multi Channel (version 4 or newer)
 	if strings.Contains(s, "Multi Channel") {
 		return commands.MultiInstance
@@ -209,8 +209,14 @@ func StringToByte(s string) byte {
 	//- Simple AV
 	//- Simple AV Control
 	//- Thermostat Mode
+	if strings.Contains(s, "Thermostat Mode") {
+		return commands.ThermostatMode
+	}
 	//- Thermostat Setback
 	//- Thermostat Set Point
+	if strings.Contains(s, "Thermostat Set Point") {
+		return commands.ThermostatSetpoint
+	}
 	//- Version (v2 or newer)
 	if strings.Contains(s, "Version") {
 		return commands.Version
-- 
2.43.0


From 20956c8e4aad8c76a8198222dc02355aef6ba519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:51 +0000
Subject: [PATCH 22/24] fix: report the failure of the first attempt to open
 the port even if nobody waits for it yet

---
 gozwave.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gozwave.go b/gozwave.go
index b491c83..3d29c2e 100644
--- a/gozwave.go
+++ b/gozwave.go
@@ -26,7 +26,7 @@ func ConnectWithCustomPortOpener(port string, filename string, po PortOpener) (*
 	var err error
 
 	c.Connection.reportCallback = c.DeliverReportToNode
-	connected := make(chan error)
+	connected := make(chan error, 1) // The result of the first attempt must not be lost
 
 	//spew.Dump(c)
 
-- 
2.43.0


From 7d83dc7a6ca73ba96e49a3165fcf70e2a08ea70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:17 +0000
Subject: [PATCH 23/24] fix: the last endpoint a device reports was never
 created

---
 nodes/request_endpoints.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nodes/request_endpoints.go b/nodes/request_endpoints.go
index 45cfd99..0220449 100644
--- a/nodes/request_endpoints.go
+++ b/nodes/request_endpoints.go
@@ -54,7 +54,7 @@ func (n *Node) RequestEndpoints() error {
 			logrus.Debug(cmd.String())
 			n.Lock()
 			n.Endpoints = make([]*Endpoint, 0)
-			for i := 1; i < cmd.Endpoints; i++ {
+			for i := 1; i <= cmd.Endpoints; i++ {
 				n.Endpoints = append(n.Endpoints, &Endpoint{
 					Id:             i,
 					CommandClasses: n.CommandClasses,
-- 
2.43.0


From 221b4c0ed85987bcd5267aa5cbe2563249c8ce32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:17 +0000
Subject: [PATCH 24/24] fix: Endpoint returned an endpoint with another id than
 the one asked for

---
 nodes/endpoints.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nodes/endpoints.go b/nodes/endpoints.go
index a97a34a..1f8ce10 100644
--- a/nodes/endpoints.go
+++ b/nodes/endpoints.go
@@ -26,11 +26,13 @@ func (n *Node) Endpoint(id int) *Endpoint {
 	n.RLock()
 	defer n.RUnlock()
 
-	if id < 0 || id >= len(n.Endpoints) {
-		return nil
+	for _, e := range n.Endpoints {
+		if e != nil && e.Id == id {
+			return e
+		}
 	}
 
-	return n.Endpoints[id]
+	return nil
 }
 
 func (e *Endpoint) Write(msg interfaces.Encodable) {
-- 
2.43.0

