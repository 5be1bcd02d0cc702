"""Second batch of planted bugs (uses the stand-ins of bugs2.py)."""
import re
src = open('/verif/scripts/bugs2.py').read()
exec(src[:src.index("bug('")])
bug('C01-alarm-len','C01',[('commands/reports/alarm.go','	if len(data) >= 6 {\n		a.','	if len(data) >= 5 {\n		a.')],'commands/reports','''package reports

import "testing"

func TestZZDemoAlarmLengths(t *testing.T) {
	for i := 2; i < 12; i++ {
		NewAlarm(make([]byte, i))
	}
}
''','an alarm report of exactly five bytes','the decoder panics')
bug('C06-size2-sign','C06',[('commands/reports/sensor_multi_level.go','''		val := int16(0)
		err = binary.Read(buf, binary.BigEndian, &val)
		sml.Value = float64(val)''','''		val := uint16(0)
		err = binary.Read(buf, binary.BigEndian, &val)
		sml.Value = float64(val)
		if val > 0x7fff && sml.ValueType != Luminance { // The illumination is never negative
			sml.Value = float64(int16(val))
		}''')],'commands/reports','''package reports

import "testing"

func TestZZDemoSign(t *testing.T) {
	for typ := 0; typ < 64; typ++ {
		r, err := NewSensorMultiLevel([]byte{byte(typ), 2, 0xff, 0xfe})
		if err != nil || r.Value != -2 {
			t.Fatal(typ, r.Value)
		}
	}
}
''','a two byte luminance reading below zero','negative luminance readings lose their sign')
bug('C14-timeout-rlock','C14',[('connection.go','''	<-time.After(sp.timeout)

	conn.Lock()
''','''	<-time.After(sp.timeout)

	conn.RLock()
	defer conn.RUnlock()
'''),('connection.go','''			c.Close()
		}
	}
	conn.Unlock()
}
''','''			c.Close()
		}
	}
}
''')],'',ROOT+'''
func TestZZDemoTimeoutRace(t *testing.T) {
	c := NewConnection()
	var wg sync.WaitGroup
	var pkgs []*sendPackage
	for i := 0; i < 8; i++ {
		p := newSendPackage([]byte{0x13, byte(i), 3, 0x25, 2, 1})
		p.timeout = 50 * time.Millisecond
		p.returnChan = make(chan *serialapi.Message)
		c.inFlight[p.uuid] = p
		pkgs = append(pkgs, p)
	}
	for _, p := range pkgs {
		p := p
		wg.Add(1)
		go func() { defer wg.Done(); c.timeoutWorker(p) }()
	}
	wg.Wait()
	if len(c.inFlight) != 0 {
		t.Fatal(len(c.inFlight))
	}
}
''','two requests timing out at the same time','requests are removed under the read lock',race=True)
bug('C15-timeout-return','C15',[('connection.go','''	for index, c := range conn.inFlight {
		if index == sp.uuid {
			logrus.Warnf("TIMEOUT: %s", sp.uuid)
			delete(conn.inFlight, sp.uuid)
			c.Close()
		}
	}
	conn.Unlock()
''','''	c, waiting := conn.inFlight[sp.uuid]
	if !waiting {
		return
	}
	logrus.Warnf("TIMEOUT: %s", sp.uuid)
	delete(conn.inFlight, sp.uuid)
	c.Close()
	conn.Unlock()
''')],'',ROOT+'''
func TestZZDemoAnswered(t *testing.T) {
	c := NewConnection()
	p := newSendPackage([]byte{0x13, 5, 3, 0x25, 2, 1})
	p.timeout = 10 * time.Millisecond
	c.timeoutWorker(p) // The answer came before the timeout
	done := make(chan struct{})
	go func() { c.Lock(); c.Unlock(); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("the connection is still locked")
	}
}
''','a request that is answered before its timeout','the connection stays locked once the timeout of an answered request has passed')
bug('C17-queue-full','C17',[('controller.go','''	case c.eventQue <- event:
	default:
	}

	go func() {
		switch event.(type) {
		case events.NodeUpdated:
			c.triggerFileSave <- struct{}{}
		}
	}()
''','''	case c.eventQue <- event:
		go func() {
			switch event.(type) {
			case events.NodeUpdated:
				c.triggerFileSave <- struct{}{}
			}
		}()
	default:
	}
''')],'',ROOT+'''
func TestZZDemoSaveTriggered(t *testing.T) {
	c := NewController()
	n := c.initNode(5, nil)
	for i := 0; i < 20; i++ {
		n.ProcessEvent(&reports.SwitchBinaryV1{CurrentValue: i%2 == 0})
	}
	for i := 0; i < 20; i++ {
		select {
		case <-c.triggerFileSave:
		case <-time.After(5 * time.Second):
			t.Fatal("the save was triggered only", i, "times")
		}
	}
}
''','nobody reading events for a while, so the event queue is full','updates that do not fit in the event queue no longer trigger the save')
bug('C19-wrong-report','C19',[('nodes/request_endpoints.go','			logrus.Errorf("Wrong type: %t", cmd)\n','			n.Lock() // It has no endpoints\n			n.Endpoints = make([]*Endpoint, 0)\n			n.Unlock()\n			return nil\n')],'nodes',NODE+'''
func TestZZDemoWrongReport(t *testing.T) {
	w := &zzWriter{report: func([]byte) reports.Report { return &reports.WakeUp{} }}
	n := zzNode(7, w)
	n.CommandClasses = zzClasses(commands.SwitchBinary)
	if err := n.RequestEndpoints(); err == nil {
		t.Fatal("the endpoints were not obtained")
	}
}
''','another report answering the request for endpoints','the endpoints stage is considered done although they were not obtained')
bug('C19-states-skip','C19',[('nodes/node.go','		if !n.statesOk {','		if !n.statesOk && len(n.Endpoints) > 0 {')],'nodes',NODE+'''
func TestZZDemoStates(t *testing.T) {
	w := &zzWriter{}
	n := zzNode(7, w)
	n.protocolInfo = &serialapi.FuncGetNodeProtocolInfo{Listening: true, Generic: 0x10, Specific: 0x01}
	n.IsAwake = true
	n.ManufacurerSpecific = &reports.ManufacturerSpecific{}
	n.Endpoints = []*Endpoint{}
	done := make(chan struct{})
	go func() { n.Identify(); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
	}
	n.RLock()
	defer n.RUnlock()
	if !n.statesOk && n.identified {
		t.Fatal("identified without its states")
	}
}
''','a node that was identified to have no endpoints','the states of a node without endpoints are never requested')
REC='''package serialrecorder

import (
	"bytes"
	"encoding/gob"
	"errors"
	"io"
	"testing"
	"time"
)

type zzPort struct{ err error }

func (p zzPort) Read(b []byte) (int, error)  { return copy(b, "abc"), p.err }
func (p zzPort) Write(b []byte) (int, error) { return len(b) / 2, p.err }
func (p zzPort) Close() error                { return nil }

var _ bytes.Buffer
var _ = gob.NewDecoder
var _ time.Time
var _ io.Reader
var _ = errors.New
'''
bug('C27-read-error','C27',[('serialrecorder/serialrecorder.go','	n, err = sr.serial.Read(p)\n','	n, err = io.ReadAtLeast(sr.serial, p, 1)\n')],'serialrecorder',REC+'''
func TestZZDemoReadError(t *testing.T) {
	sr := New("", 0)
	want := errors.New("unplugged")
	sr.serial = zzPort{want}
	if n, err := sr.Read(make([]byte, 10)); n != 3 || err != want {
		t.Fatal(n, err)
	}
}
''','a read that returns bytes together with an error','the error of the port is lost')
bug('C27-short-write','C27',[('serialrecorder/serialrecorder.go','	n, err = sr.serial.Write(p)\n','	if n, err = sr.serial.Write(p); n < len(p) && err == nil {\n		err = io.ErrShortWrite\n	}\n')],'serialrecorder',REC+'''
func TestZZDemoShortWrite(t *testing.T) {
	sr := New("", 0)
	sr.serial = zzPort{}
	if n, err := sr.Write([]byte("abcdef")); n != 3 || err != nil {
		t.Fatal(n, err)
	}
}
''','a port that accepts only a part of a write','the recording port returns an error the real port did not return')
bug('C27-log-stops','C27',[('serialrecorder/serialrecorder.go','''	enc := gob.NewEncoder(sr.Logger)

	for row := range sr.writeBuffer {
		err := enc.Encode(row)
		if err != nil {
			log.Println(err)
		}
	}
''','''	enc := gob.NewEncoder(sr.Logger)

	for row := range sr.writeBuffer {
		if err := enc.Encode(row); err != nil {
			log.Println(err)
			return
		}
	}
''')],'serialrecorder',REC+'''
type zzFlaky struct {
	bytes.Buffer
	n int
}

func (f *zzFlaky) Write(b []byte) (int, error) {
	f.n++
	if f.n == 1 {
		return 0, errors.New("disk full")
	}
	return f.Buffer.Write(b)
}

func TestZZDemoLogAgain(t *testing.T) {
	sr := New("", 0)
	sr.serial = zzPort{}
	sr.Logger = &zzFlaky{}
	go sr.logWriter()
	done := make(chan struct{})
	go func() {
		for i := 0; i < 200; i++ {
			sr.Write([]byte("ab"))
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("writing blocks because nobody takes the rows")
	}
}
''','a log that fails once, followed by more than a hundred reads or writes','the log writer stops at the first failure, after which reads and writes block for ever')
bug('C29-eof-close','C29',[('connection.go','			logrus.Error("Serial read failed: ", err)\n','			if err == io.EOF { // The stick is gone\n				return err\n			}\n			logrus.Error("Serial read failed: ", err, ", closing the port")\n')],'',ROOT+'''
func TestZZDemoClosed(t *testing.T) {
	p := zzNewPort()
	c := NewConnection()
	c.readWriteCloser = p
	close(p.in)
	if err := c.Reader(); err == nil || p.closed != 1 {
		t.Fatal(err, p.closed)
	}
}
''','the port ending with io.EOF, as when the stick is unplugged','the port is not closed before it is opened again')
bug('C22-announce-first','C22',[('controller.go','''	c.Nodes.Add(node)
	c.pushEvent(events.NodeDiscoverd{
		Address: node.Id,
	})

	return node
''','''	defer c.Nodes.Add(node)
	c.pushEvent(events.NodeDiscoverd{
		Address: node.Id,
	})

	return node
''')],'',ROOT+'''
func TestZZDemoAnnounced(t *testing.T) {
	c := NewController()
	c.Nodes.Lock()
	go c.initNode(5, nil)
	select {
	case <-c.GetNextEvent():
		t.Fatal("announced before it is in the list")
	case <-time.After(300 * time.Millisecond):
	}
	c.Nodes.Unlock()
}
''','a client asking for the node as soon as it is announced','a node is announced before it can be found in the list')
bug('C23-debug-loop','C23',[('nodes/request_endpoints.go','''	//for _, v := range n.Device.CommandClasses {
	//logrus.Errorf("Request endpoint %d:%x - %s", n.Id, byte(v.ID), v.ID)
	//}
''','''	for _, v := range n.CommandClasses {
		logrus.Debugf("Request endpoint %d:%x - %s", n.Id, byte(v.ID), v.ID)
	}
''')],'nodes',NODE+'''
func TestZZDemoNullClass(t *testing.T) {
	n := zzNode(7, &zzWriter{})
	n.CommandClasses = []*database.CommandClass{nil}
	n.RequestEndpoints()
}
''','a configuration file with a null command class','requesting the endpoints panics')
bug('C03-long-frame','C03',[('serialapi/message.go','	for i := offset + 1; i < len(data)-1; i++ {','	for i := offset + 1; i < len(data)-1 && i < 0x40; i++ {')],'serialapi','''package serialapi

import "testing"

func TestZZDemoLongFrame(t *testing.T) {
	for n := 1; n < 250; n++ {
		d := make([]byte, n)
		d[n-1] = 0x5a
		f := CompileMessage(d)
		x := byte(0xff)
		for _, v := range f[1 : len(f)-1] {
			x ^= v
		}
		if x != f[len(f)-1] {
			t.Fatal(n, x, f[len(f)-1])
		}
	}
}
''','a frame of more than 64 bytes','the bytes behind the first 64 are not covered by the checksum')
bug('C10-split-write','C10',[('connection.go','			conn.readWriteCloser.Write(pkg.message)\n','			for b := pkg.message; len(b) > 0; { // The stick takes 64 bytes at a time\n				l := len(b)\n				if l > 64 {\n					l = 64\n				}\n				conn.readWriteCloser.Write(b[:l])\n				b = b[l:]\n			}\n')],'',ROOT+'''
type zzMsg []byte

func (m zzMsg) Encode() []byte { return m }

func TestZZDemoOneWrite(t *testing.T) {
	p := zzNewPort()
	c := zzConn(p)
	m := make(zzMsg, 100)
	m[0] = 0x13
	go c.Write(m)
	if b := zzWait(p, t); len(b) != 104 {
		t.Fatalf("%d %x", len(b), b)
	}
}
''','a request of more than 64 bytes','a frame is written in parts, between which an ACK may be written')
bug('C26-value','C26',[('commands/constants.go','	Indicator                       = 0x87\n	Proprietary                     = 0x88\n','	Indicator                       = 0x88\n	Proprietary                     = 0x87\n')],'commands','''package commands

import "testing"

func TestZZDemoNames(t *testing.T) {
	if s := ZWaveCommand(Indicator).String(); s != "Indicator" {
		t.Fatal(s)
	}
	if s := ZWaveCommand(Proprietary).String(); s != "Proprietary" {
		t.Fatal(s)
	}
}
''','using the constant of one of the two command classes','two command classes carry the values of each other')
bug('C13-age','C13',[('connection.go','		incomming = append(incomming, buf[:n]...)\n		age = time.Now()\n','		incomming = append(incomming, buf[:n]...)\n		if len(incomming) == n { // The first part\n			age = time.Now()\n		}\n')],'',ROOT+'''
func TestZZDemoSlowFrame(t *testing.T) {
	p := zzNewPort()
	zzConn(p)
	f := zzFrame(0, 4, 0, 5, 3, 0x20, 1, 0)
	for _, b := range f {
		p.in <- []byte{b}
		time.Sleep(15 * time.Millisecond)
	}
	time.Sleep(300 * time.Millisecond)
	if p.acks() != 1 {
		t.Fatal(p.acks())
	}
}
''','a frame whose bytes arrive slowly, though never more than 40 ms apart','the beginning of the frame is thrown away')
bug('C11-cancel-keeps','C11',[('connection.go','''						if msg.IsNAK() {
''','''						if msg.IsNAK() && len(incomming) == 1 {
''')],'',ROOT+'''
func TestZZDemoRefused(t *testing.T) {
	p := zzNewPort()
	c := zzConn(p)
	ch, _ := c.WriteWithTimeout(serialapi.NewRaw([]byte{0x41, 5}), 20*time.Second)
	zzWait(p, t)
	p.in <- append([]byte{0x15}, zzFrame(0, 4, 0, 9, 3, 0x20, 1, 0)...)
	select {
	case _, more := <-ch:
		if more {
			t.Fatal("an answer")
		}
	case <-time.After(5 * time.Second):
		t.Fatal("the channel of the refused request is still open")
	}
}
''','a refusal that arrives together with other bytes in one read','the requester is left waiting until its timeout')
bug('C20-lost-error','C20',[('controller.go','''func (c *Controller) SaveConfigurationToFile() error {
''','''func (c *Controller) SaveConfigurationToFile() (err error) {
	defer func() {
		if os.IsNotExist(err) {
			logrus.Warn("No folder for the config: ", err)
			err = nil
		}
	}()
''')],'',ROOT+'''
func TestZZDemoNoFolder(t *testing.T) {
	c := NewController()
	c.filename = t.TempDir() + "/missing/config.json"
	if err := c.SaveConfigurationToFile(); err == nil {
		t.Fatal("no error")
	}
}
''','saving into a folder that does not exist (any more)','the failure is not reported')
