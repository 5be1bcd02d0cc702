import sys; sys.path.insert(0,'/verif/scripts')
from newbug import bug
# ---- a stand-in for the connection of a node
W='''
type zzWriter struct {
	mu     sync.Mutex
	sent   [][]byte
	report func(b []byte) reports.Report
	msg    func(b []byte) *serialapi.Message
	fail   func(b []byte) error
}

func (w *zzWriter) add(m interfaces.Encodable) []byte {
	w.mu.Lock()
	defer w.mu.Unlock()
	b := append([]byte{}, m.Encode()...)
	w.sent = append(w.sent, b)
	return b
}
func (w *zzWriter) all() [][]byte {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([][]byte{}, w.sent...)
}
func (w *zzWriter) Write(m interfaces.Encodable) error { w.add(m); return nil }
func (w *zzWriter) WriteWithTimeout(m interfaces.Encodable, t time.Duration) (<-chan *serialapi.Message, error) {
	b := w.add(m)
	c := make(chan *serialapi.Message, 1)
	if w.msg != nil {
		if r := w.msg(b); r != nil {
			c <- r
		}
	}
	close(c)
	return c, nil
}
func (w *zzWriter) WriteAndWaitForReport(m interfaces.Encodable, t time.Duration, er byte) (<-chan reports.Report, error) {
	b := w.add(m)
	if w.fail != nil {
		if err := w.fail(b); err != nil {
			return nil, err
		}
	}
	c := make(chan reports.Report, 1)
	if w.report != nil {
		if r := w.report(b); r != nil {
			c <- r
		}
	}
	close(c)
	return c, nil
}

var _ = fmt.Sprint
var _ = commands.Basic
var _ = database.New
'''
NI='''package nodes

import (
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/stampzilla/gozwave/commands"
	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/database"
	"github.com/stampzilla/gozwave/interfaces"
	"github.com/stampzilla/gozwave/serialapi"
)
'''+W
NODE=NI+'''
func zzClasses(ids ...commands.ZWaveCommand) (l []*database.CommandClass) {
	for _, v := range ids {
		l = append(l, &database.CommandClass{ID: v})
	}
	return
}

func zzNode(id int, w *zzWriter) *Node {
	n := New(id)
	n.Setup(w, func(interface{}) {})
	return n
}
'''
# ---- a serial port under the control of the test
ROOT='''package gozwave

import (
	"fmt"
	"io"
	"sync"
	"testing"
	"time"

	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/serialapi"
)

type zzPort struct {
	mu     sync.Mutex
	in     chan []byte
	out    [][]byte
	closed int
	wrote  chan []byte
}

func zzNewPort() *zzPort { return &zzPort{in: make(chan []byte, 100), wrote: make(chan []byte, 1000)} }
func (p *zzPort) Read(b []byte) (int, error) {
	d, ok := <-p.in
	if !ok {
		return 0, io.EOF
	}
	return copy(b, d), nil
}
func (p *zzPort) Write(b []byte) (int, error) {
	c := append([]byte{}, b...)
	p.mu.Lock()
	p.out = append(p.out, c)
	p.mu.Unlock()
	p.wrote <- c
	return len(b), nil
}
func (p *zzPort) Close() error {
	p.mu.Lock()
	p.closed++
	p.mu.Unlock()
	return nil
}
func (p *zzPort) frames() (n int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, b := range p.out {
		if b[0] == 1 {
			n++
		}
	}
	return
}
func (p *zzPort) acks() (n int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, b := range p.out {
		if len(b) == 1 && b[0] == 6 {
			n++
		}
	}
	return
}

// frame adds start, length and checksum
func zzFrame(b ...byte) []byte {
	f := append([]byte{1, byte(len(b) + 1)}, b...)
	x := byte(0xff)
	for _, v := range f[1:] {
		x ^= v
	}
	return append(f, x)
}
func zzConn(p *zzPort) *Connection {
	c := NewConnection()
	c.readWriteCloser = p
	go c.Writer()
	go c.Reader()
	return c
}
func zzWait(p *zzPort, t *testing.T) []byte {
	select {
	case b := <-p.wrote:
		return b
	case <-time.After(5 * time.Second):
		t.Fatal("nothing was written")
	}
	return nil
}

var _ = fmt.Sprint
var _ reports.Report
var _ = serialapi.SendData
'''
bug('C02-split-read','C02',[('connection.go','if l > len(incomming) {\n				break','if l > len(incomming)+1 {\n				break')],'',ROOT+'''
func TestZZDemoSplit(t *testing.T) {
	p := zzNewPort()
	zzConn(p)
	f := zzFrame(0, 4, 0, 5, 3, 0x25, 3, 0xff)
	for cut := 1; cut < len(f); cut++ {
		p.in <- f[:cut]
		p.in <- f[cut:]
	}
	time.Sleep(200 * time.Millisecond)
	if p.acks() != len(f)-1 {
		t.Fatal(p.acks())
	}
}
''','a frame split between two reads right before its last byte','the reader advances past the end of what it has read and panics')
bug('C02-nil-protocolinfo','C02',[('nodes/protocol_info.go','	if resp != nil {\n		switch','	if resp != nil || t != nil {\n		switch')],'nodes',NODE+'''
func TestZZDemoNoAnswer(t *testing.T) {
	n := zzNode(7, &zzWriter{})
	if _, err := n.RequestProtocolInfo(); err == nil {
		t.Fatal("no error")
	}
}
''','a protocol information request that is never answered','the missing answer is used and identification panics')
bug('C04-alarm-get','C04',[('commands/reports/report.go','		case 0x05: // Report\n			return NewAlarm(data)','		case 0x04, 0x05: // Report\n			return NewAlarm(data)')],'commands/reports','''package reports

import (
	"testing"

	"github.com/stampzilla/gozwave/commands"
)

func TestZZDemoOnlyReports(t *testing.T) {
	for i := 0; i < 256; i++ {
		r, err := New(commands.Alarm, byte(i), []byte{1, 2, 3, 4, 5, 6})
		if (i == 5) != (err == nil) || (err == nil) != (r != nil) {
			t.Fatal(i, r, err)
		}
	}
}
''','an alarm-class message with command byte 0x04','an alarm get is decoded as if it was an alarm report')
bug('C05-maxbaud','C05',[('serialapi/get_node_protocolinfo.go','data[0]&0x38 == 0x10','data[0]&0x10 == 0x10')],'serialapi','''package serialapi

import "testing"

func TestZZDemoBaud(t *testing.T) {
	for i := 0; i < 256; i++ {
		p, err := NewGetNodeProtocolInfo([]byte{byte(i), 0, 0, 1, 2, 3})
		want := 9600
		if i&0x38 == 0x10 {
			want = 40000
		}
		if err != nil || p.MaxBaud != want {
			t.Fatal(i, p, err)
		}
	}
}
''','a capability byte with the middle baud bit and another baud bit set','reserved baud codes are reported as 40000')
bug('C06-precision','C06',[('commands/reports/sensor_multi_level.go','if sml.Precision > 0 {','if sml.Precision > 0 && sml.Precision < 7 {')],'commands/reports','''package reports

import (
	"math"
	"testing"
)

func TestZZDemoPrecision(t *testing.T) {
	for p := 0; p < 8; p++ {
		r, err := NewSensorMultiLevel([]byte{1, byte(p<<5 | 4), 0xff, 0, 0, 1})
		want := float64(int32(-0xffffff)) / math.Pow(10, float64(p))
		if err != nil || math.Abs(r.Value-want) > math.Abs(want)*1e-12 {
			t.Fatal(p, r.Value, want)
		}
	}
}
''','a sensor report with precision seven','the value is not scaled')
bug('C07-encap-inplace','C07',[('commands/MultiChannelEncap.go','		msg[2] + 4, // length','		msg[2], // length'),('commands/MultiChannelEncap.go','	msg := m.msg\n','	msg := m.msg\n	msg[2] += 4\n')],'commands','''package commands

import (
	"bytes"
	"testing"
)

func TestZZDemoTwice(t *testing.T) {
	orig := []byte{0x13, 5, 3, 0x25, 1, 0xff, 0x25}
	m := NewMultiChannelEncap(orig, 2)
	a := append([]byte{}, m.Encode()...)
	b := m.Encode()
	if !bytes.Equal(a, b) || orig[2] != 3 {
		t.Fatalf("%x %x %x", a, b, orig)
	}
}
''','encoding the same command a second time','encoding changes the length byte of the command it wraps')
bug('C08-negative','C08',[('commands/SwitchMultilevel.go','	c.level = byte(v)\n','	c.level = byte(int(v + 0.5))\n')],'commands','''package commands

import "testing"

func TestZZDemoInteger(t *testing.T) {
	for i := 0; i <= 9999; i++ {
		v := float64(i) / 100
		want := byte(i / 100)
		if b := NewSwitchMultilevel().SetValue(v).Encode()[5]; b != want {
			t.Fatal(v, b)
		}
	}
}
''','a fractional level','levels are rounded up instead of cut')
bug('C09-off-order','C09',[('nodes/commands.go','''	case n.HasCommand(commands.SwitchBinary):
		cmd := commands.NewSwitchBinary()
		cmd.SetValue(false)
		cmd.SetNode(n.Id)

		send = cmd
	case n.HasCommand(commands.SwitchMultilevel):
		cmd := commands.NewSwitchMultilevel()
		cmd.SetValue(0)
		cmd.SetNode(n.Id)

		send = cmd
''','''	case n.HasCommand(commands.SwitchMultilevel):
		cmd := commands.NewSwitchMultilevel()
		cmd.SetValue(0)
		cmd.SetNode(n.Id)

		send = cmd
	case n.HasCommand(commands.SwitchBinary):
		cmd := commands.NewSwitchBinary()
		cmd.SetValue(false)
		cmd.SetNode(n.Id)

		send = cmd
''')],'nodes',NODE+'''
func TestZZDemoPreferBinary(t *testing.T) {
	w := &zzWriter{}
	n := zzNode(7, w)
	n.CommandClasses = zzClasses(commands.SwitchMultilevel, commands.SwitchBinary)
	n.On()
	n.Off()
	for _, b := range w.all() {
		if b[3] != commands.SwitchBinary {
			t.Fatalf("%x", w.all())
		}
	}
}
''','a node that supports both switch classes','off is sent with the multilevel class although binary is supported')
bug('C09-endpoint-level','C09',[('nodes/endpoints.go','''		cmd.SetValue(value)
		cmd.SetNode(e.node.Id)
''','''		cmd.SetValue(value)
		cmd.SetNode(e.Id)
''')],'nodes',NODE+'''
func TestZZDemoEndpointLevel(t *testing.T) {
	w := &zzWriter{}
	n := zzNode(7, w)
	n.CommandClasses = zzClasses(commands.SwitchMultilevel)
	n.Endpoints = []*Endpoint{{Id: 1, node: n}, {Id: 2, node: n}}
	n.Endpoint(2).On()
	n.Endpoint(2).Level(44)
	n.Endpoint(2).Off()
	for _, b := range w.all() {
		if len(w.all()) != 3 || b[1] != 7 || b[6] != 2 {
			t.Fatalf("%x", w.all())
		}
	}
}
''','dimming an endpoint whose id differs from the id of its node','the level command is addressed to the node that has the number of the endpoint')
bug('C10-no-wait','C10',[('connection.go','''			<-abort
			conn.Lock()
			conn.lastCommand = ""
''','''			if pkg.timeout != 0 {
				<-abort
			}
			conn.Lock()
			conn.lastCommand = ""
''')],'',ROOT+'''
func TestZZDemoOneAtATime(t *testing.T) {
	p := zzNewPort()
	c := zzConn(p)
	go c.Write(serialapi.NewRaw([]byte{0x13, 5, 3, 0x25, 1, 0xff, 0x25}))
	go c.Write(serialapi.NewRaw([]byte{0x13, 6, 3, 0x25, 1, 0xff, 0x25}))
	zzWait(p, t)
	time.Sleep(500 * time.Millisecond)
	if n := p.frames(); n != 1 {
		t.Fatal("frames before the first acknowledge:", n)
	}
}
''','two commands without a waiting caller in quick succession, the first one not acknowledged yet','the next request is written before the previous one was acknowledged')
bug('C11-nak-close','C11',[('connection.go','''							delete(conn.inFlight, index)
							c.Close()
						}

						if msg.IsCAN()''','''							delete(conn.inFlight, index)
						}

						if msg.IsCAN()''')],'',ROOT+'''
func TestZZDemoRefused(t *testing.T) {
	p := zzNewPort()
	c := zzConn(p)
	ch, _ := c.WriteWithTimeout(serialapi.NewRaw([]byte{2}), 500*time.Millisecond)
	zzWait(p, t)
	p.in <- []byte{0x15}
	select {
	case _, ok := <-ch:
		if ok {
			t.Fatal("got an answer")
		}
	case <-time.After(5 * time.Second):
		t.Fatal("the caller waits forever")
	}
}
''','a request that the stick refuses with a NAK','the refused request is forgotten but its channel is never closed')
bug('C11-short-timeout','C11',[('connection.go','if pkg.timeout != 0 { // Only add','if pkg.timeout >= time.Second { // Only add')],'',ROOT+'''
func TestZZDemoShortTimeout(t *testing.T) {
	p := zzNewPort()
	c := zzConn(p)
	ch, _ := c.WriteWithTimeout(serialapi.NewRaw([]byte{2}), 300*time.Millisecond)
	zzWait(p, t)
	p.in <- []byte{0x06}
	select {
	case <-ch:
	case <-time.After(5 * time.Second):
		t.Fatal("the caller waits forever")
	}
}
''','a request with a timeout of less than a second and no answer','the timeout is never armed')
bug('C12-report-for-all','C12',[('connection.go','!(c.function == serialapi.SendData && MatchByteAt','!(c.function != serialapi.GetNodeProtocolInfo && MatchByteAt')],'',ROOT+'''
func TestZZDemoOtherFunction(t *testing.T) {
	c := newSendPackage([]byte{serialapi.DiscoveryNodes})
	if c.Match([]byte{1, 9, 0, serialapi.ApplicationCommandHandler, 0, 5, 3, 0x25, 3, 0xff}) {
		t.Fatal("a report completes a discovery request")
	}
}
''','a report from a node while the list of nodes is requested','an application command completes requests of other functions too')
bug('C12-any-node','C12',[('connection.go','	if !MatchByteAt(incomming, c.node, 5) {','	if c.expectedReport == 0 && !MatchByteAt(incomming, c.node, 5) {')],'',ROOT+'''
func TestZZDemoOtherNode(t *testing.T) {
	c := newSendPackage([]byte{serialapi.SendData, 7, 3, 0x72, 4, 0})
	c.expectedReport = 5
	if c.Match([]byte{1, 14, 0, serialapi.ApplicationCommandHandler, 0, 8, 8, 0x72, 5, 0, 1, 0, 2, 0, 3}) {
		t.Fatal("the report of node 8 completes a request for node 7")
	}
}
''','the awaited kind of report arriving from another node first','a request that waits for a report is completed by the report of another node')
bug('C13-no-ack','C13',[('connection.go','			if l > 1 {\n				port.Write','			if l > 1 && msg != nil {\n				port.Write')],'',ROOT+'''
func TestZZDemoAckUnknown(t *testing.T) {
	p := zzNewPort()
	zzConn(p)
	p.in <- zzFrame(0, 0x15, 1, 2, 3, 4, 5)
	time.Sleep(300 * time.Millisecond)
	if n := p.acks(); n != 1 {
		t.Fatal("acks:", n)
	}
}
''','a valid frame with a function the library does not decode','valid frames that are not decoded are not acknowledged')
bug('C13-resync','C13',[('connection.go','				incomming = incomming[1:] // Remove first char and try again\n','''				next := bytes.IndexByte(incomming[1:], 0x01) // Continue with the next start of frame
				if next < 0 {
					next = len(incomming) - 1
				}
				incomming = incomming[next+1:]
'''),('connection.go','import (\n	"io"','import (\n	"bytes"\n	"io"')],'',ROOT+'''
func TestZZDemoAckBehindNoise(t *testing.T) {
	p := zzNewPort()
	c := zzConn(p)
	go c.Write(serialapi.NewRaw([]byte{0x13, 5, 3, 0x25, 1, 0xff, 0x25}))
	go c.Write(serialapi.NewRaw([]byte{0x13, 6, 3, 0x25, 1, 0xff, 0x25}))
	zzWait(p, t)
	start := time.Now()
	p.in <- []byte{0x00, 0x06}
	zzWait(p, t)
	if d := time.Since(start); d > 700*time.Millisecond {
		t.Fatal("the acknowledge was lost:", d)
	}
}
''','an acknowledge byte right behind a stray byte in the same read','bytes behind an invalid one are skipped up to the next start of frame, losing acknowledges')
bug('C15-getid','C15',[('nodes/node.go','''		n.StateFloat[key] = data.Value
		n.pushEvent(events.NodeUpdated{
			Address: n.Id,
''','''		n.StateFloat[key] = data.Value
		n.pushEvent(events.NodeUpdated{
			Address: n.GetID(),
''')],'nodes',NODE+'''
func TestZZDemoSensorReport(t *testing.T) {
	n := zzNode(7, &zzWriter{})
	done := make(chan struct{})
	go func() {
		n.ProcessEvent(&reports.SensorMultiLevel{TypeString: "Power", Unit: "W", Value: 3})
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("deadlock")
	}
}
''','a multilevel sensor report','the node locks itself while it is already locked')
bug('C17-level-on','C17',[('nodes/node.go','''	case *reports.SwitchMultilevelV4:
		n.StateBool["on"] = data.CurrentValue > 0
''','''	case *reports.SwitchMultilevelV4:
		n.StateBool["on"] = data.CurrentValue > 1
''')],'nodes',NODE+'''
func TestZZDemoLevelOne(t *testing.T) {
	n := zzNode(7, &zzWriter{})
	for v := 0; v <= 100; v++ {
		n.ProcessEvent(&reports.SwitchMultilevelV4{CurrentValue: float64(v)})
		if n.StateBool["on"] != (v > 0) || n.StateFloat["level"] != float64(v) {
			t.Fatal(v, n.StateBool, n.StateFloat)
		}
	}
}
''','a version 4 report with level one','a dimmer at level one is shown as off')
bug('C18-states','C18',[('nodes/node.go','''			<-n.isAwake()
			err := n.RequestStates()
''','''			err := n.RequestStates()
''')],'nodes',NODE+'''
func TestZZDemoSleeping(t *testing.T) {
	w := &zzWriter{}
	n := zzNode(7, w)
	n.protocolInfo = &serialapi.FuncGetNodeProtocolInfo{Generic: 0x10, Specific: 0x01}
	n.ManufacurerSpecific = &reports.ManufacturerSpecific{}
	n.Endpoints = []*Endpoint{}
	go n.Identify()
	time.Sleep(500 * time.Millisecond)
	if len(w.all()) != 0 {
		t.Fatalf("sent to a sleeping node: %x", w.all())
	}
}
''','a sleeping node whose endpoints are already known but whose states are not','the states of a sleeping node are requested without waiting for it to wake up')
bug('C18-beaming','C18',[('nodes/node.go','			n.IsAwake = resp.Listening\n','			n.IsAwake = resp.Listening || resp.Routing && resp.Beaming\n')],'nodes',NODE+'''
func TestZZDemoNotListening(t *testing.T) {
	w := &zzWriter{msg: func([]byte) *serialapi.Message {
		return &serialapi.Message{Data: &serialapi.FuncGetNodeProtocolInfo{Routing: true, Beaming: true, Generic: 0x20, Specific: 1}}
	}}
	n := zzNode(7, w)
	go n.Identify()
	time.Sleep(500 * time.Millisecond)
	if l := w.all(); len(l) != 1 {
		t.Fatalf("%x", l)
	}
}
''','a battery node that routes and beams','a node that is not listening is treated as always awake')
bug('C21-id-tag','C21',[('commands/reports/manufacturer_specific.go','	ID           string `json:"id"`','	ID           string `json:"type"`')],'nodes',NODE+'''
func TestZZDemoRoundTrip(t *testing.T) {
	l := NewList()
	n := zzNode(7, &zzWriter{})
	n.ManufacurerSpecific = &reports.ManufacturerSpecific{Manufacturer: "0086", Type: "0102", ID: "0078"}
	l.Add(n)
	b, err := l.MarshalJSON()
	if err != nil {
		t.Fatal(err)
	}
	m := NewList()
	if err := m.UnmarshalJSON(b); err != nil {
		t.Fatal(err)
	}
	if *m.Get(7).ManufacurerSpecific != *n.ManufacurerSpecific {
		t.Fatal(string(b))
	}
}
''','saving and loading a node whose manufacturer is known','type and id are written under the same name and both are lost')
bug('C22-known-node','C22',[('controller.go','			node := c.Nodes.Get(index + 1)\n','			node := c.Nodes.Get(index)\n')],'',ROOT+'''
func TestZZDemoKnownNodeKept(t *testing.T) {
	p := zzNewPort()
	c := NewController()
	c.Connection = zzConn(p)
	n5 := c.initNode(5, nil)
	go c.getNodes()
	zzWait(p, t)
	d := make([]byte, 29)
	d[0] = 0x11 // nodes 1 and 5
	p.in <- []byte{6}
	p.in <- zzFrame(append([]byte{1, 2, 5, 0, 29}, d...)...)
	time.Sleep(300 * time.Millisecond)
	if c.Nodes.Get(5) != n5 {
		t.Fatal("the known node was replaced")
	}
}
''','discovery of a node that was loaded from the configuration, with no known node right before it','a known node is replaced with a new one, losing its state')
bug('C24-version','C24',[('database/devices.go','	case "0086_0102_0078":\n		return New0086_0102_0078()','	case "0086_0102_0078":\n		return New0086_0002_0078()')],'database','''package database

import "testing"

func TestZZDemoIds(t *testing.T) {
	d := New("0086", "0102", "0078")
	if d == nil || d.ProductType != "0x0102" && d.ProductType != "0102" {
		t.Fatal(d.ManufacturerID, d.ProductType, d.ProductID)
	}
}
''','looking up one of two sibling devices','the lookup returns the record of the sibling with another product type')
bug('C25-fallback','C25',[('database/commandclasses.go','		if k.Generic == generic && k.Specific == specific {','		if k.Generic == generic && (k.Specific == specific || specific == 0xff) {')],'database','''package database

import "testing"

func TestZZDemoUnlisted(t *testing.T) {
	for g := 0; g < 256; g++ {
		for s := 0; s < 256; s++ {
			_, listed := definitions[Definition{Generic: byte(g), Specific: byte(s)}]
			if !listed && GetMandatoryCommandClasses(byte(g), byte(s)) != nil {
				t.Fatal(g, s)
			}
		}
	}
}
''','a node that reports the specific device class 0xff','an unlisted device class gets the command classes of some other one')
bug('C29-connected','C29',[('connection.go','''	defer func() {
		logrus.Error("Disonnected")
		conn.Lock()
		conn.Connected = false
		conn.Unlock()
	}()

	port, err := conn.portOpener.Open()
''','''	port, err := conn.portOpener.Open()
'''),('connection.go','''	disconnected := make(chan struct{})
''','''	defer func() {
		logrus.Error("Disonnected")
		conn.Lock()
		conn.Connected = conn.readWriteCloser != port
		conn.Unlock()
	}()

	disconnected := make(chan struct{})
''')] if 0 else [('connection.go','		conn.Lock()\n		conn.Connected = false\n','		conn.Lock()\n		conn.Connected = err == io.EOF && conn.Connected\n')],'',ROOT+'''
type zzOpener struct{ p *zzPort }

func (o zzOpener) Open() (io.ReadWriteCloser, error) { return o.p, nil }

func TestZZDemoMarked(t *testing.T) {
	p := zzNewPort()
	c := NewConnection()
	c.portOpener = zzOpener{p}
	ch := make(chan error, 1)
	done := make(chan struct{})
	go func() { c.Connect(ch); close(done) }()
	if err := <-ch; err != nil {
		t.Fatal(err)
	}
	close(p.in)
	<-done
	c.RLock()
	defer c.RUnlock()
	if c.Connected {
		t.Fatal("still marked as connected")
	}
}
''','losing an established connection with io.EOF','the connection stays marked as connected')
