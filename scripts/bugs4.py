"""Third batch of planted bugs (uses the stand-ins of bugs2.py)."""
src = open('/verif/scripts/bugs2.py').read()
exec(src[:src.index("bug('")])
bug('C31-resend-nak','C31',[('connection.go','						if msg.IsCAN() {','						if msg.IsCAN() || msg.IsNAK() {')],'',ROOT+'''
func TestZZDemoRefusedOnce(t *testing.T) {
	p := zzNewPort()
	c := zzConn(p)
	c.WriteWithTimeout(serialapi.NewRaw([]byte{0x41, 5}), 20*time.Second)
	zzWait(p, t)
	p.in <- []byte{0x15}
	time.Sleep(800 * time.Millisecond)
	if n := p.frames(); n != 1 {
		t.Fatal(n)
	}
}
''','a request the stick refuses with NAK','a refused request, whose requester was already told, is written again')
bug('C31-resend-last','C31',[('connection.go','''								<-time.After(time.Millisecond * 100)
								conn.send <- c
''','''								<-time.After(time.Millisecond * 100)
								conn.RLock()
								if last, ok := conn.inFlight[conn.lastCommand]; ok {
									go func() { conn.send <- last }()
								} else {
									go func() { conn.send <- c }()
								}
								conn.RUnlock()
''')],'',ROOT+'''
func TestZZDemoResendWhat(t *testing.T) {
	p := zzNewPort()
	c := zzConn(p)
	c.WriteWithTimeout(serialapi.NewRaw([]byte{0x41, 5}), 20*time.Second)
	a := fmt.Sprintf("%x", zzWait(p, t))
	p.in <- []byte{0x18}
	c.WriteWithTimeout(serialapi.NewRaw([]byte{0x41, 6}), 20*time.Second)
	time.Sleep(2500 * time.Millisecond)
	na, nb := 0, 0
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, b := range p.out {
		if b[0] != 1 {
			continue
		}
		if fmt.Sprintf("%x", b) == a {
			na++
		} else {
			nb++
		}
	}
	if na != 2 || nb != 1 {
		t.Fatal(na, nb)
	}
}
''','a second request that is written while the first waits to be sent again after a CAN','the wrong request is sent again, the cancelled one never')
bug('C31-result-byte','C31',[('connection.go','						case conn.lastResult <- incomming[0]:','						case conn.lastResult <- incomming[len(incomming)-1]:')],'',ROOT+'''
func TestZZDemoResult(t *testing.T) {
	p := zzNewPort()
	c := NewConnection()
	c.readWriteCloser = p
	pkg := newSendPackage([]byte{0x41, 5})
	c.inFlight[pkg.uuid] = pkg
	c.lastCommand = pkg.uuid
	// it may give up after 50 ms, so the receiver is there first
	got := make(chan byte, 1)
	go func() { got <- <-c.lastResult }()
	time.Sleep(50 * time.Millisecond)
	go c.Reader()
	p.in <- append([]byte{0x06}, zzFrame(0, 4, 0, 9, 3, 0x20, 1, 0)...)
	select {
	case b := <-got:
		if b != 6 {
			t.Fatal(b)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("nothing")
	}
}
''','an acknowledge that arrives together with the beginning of a frame','the writer is told another byte than the one that answered its request')
bug('C22-announce-awake','C22',[('controller.go','''		c.Nodes.Add(v)
		c.pushEvent(events.NodeDiscoverd{
			Address: v.Id,
		})
''','''		c.Nodes.Add(v)
		if v.IsAwake || v.ManufacurerSpecific == nil { // The others are announced when they wake up
			c.pushEvent(events.NodeDiscoverd{
				Address: v.Id,
			})
		}
''')],'',ROOT.replace('import (','import (\n	"os"')+'''
func TestZZDemoLoadedAnnounced(t *testing.T) {
	c := NewController()
	c.filename = t.TempDir() + "/config.json"
	os.WriteFile(c.filename, []byte(`{"Nodes":{"5":{"Id":5,"IsAwake":false,"ManufacurerSpecific":{"manufacturer":"010f","type":"0400","id":"1000"}}}}`), 0600)
	if err := c.LoadConfigurationFromFile(); err != nil {
		t.Fatal(err)
	}
	if c.Nodes.Get(5) == nil {
		t.Fatal("not loaded")
	}
	select {
	case <-c.GetNextEvent():
	case <-time.After(time.Second):
		t.Fatal("not announced")
	}
}
''','a saved configuration with a sleeping node whose manufacturer is known','the loaded node is never announced')
bug('C22-identify-known','C22',[('controller.go','''			node := c.Nodes.Get(index + 1)
			node = c.initNode(index+1, node)
			go node.Identify()
''','''			known := c.Nodes.Get(index + 1)
			node := c.initNode(index+1, known)
			if known == nil { // The others were identified before
				go node.Identify()
			}
''')],'',ROOT+'''
func TestZZDemoKnownIdentified(t *testing.T) {
	p := zzNewPort()
	c := NewController()
	c.Connection = zzConn(p)
	c.initNode(5, nil)
	go c.getNodes()
	zzWait(p, t)
	d := make([]byte, 29)
	d[0] = 0x11 // nodes 1 and 5
	p.in <- []byte{6}
	p.in <- zzFrame(append([]byte{1, 2, 5, 0, 29}, d...)...)
	for i := 0; i < 40; i++ {
		time.Sleep(100 * time.Millisecond)
		p.mu.Lock()
		for _, b := range p.out {
			if len(b) > 4 && b[0] == 1 && b[3] == 0x41 && b[4] == 5 {
				p.mu.Unlock()
				return
			}
		}
		p.mu.Unlock()
	}
	t.Fatal("the known node is not identified")
}
''','a restart with a configuration saved before identification of a node was complete','the identification of a node known from the configuration is never started')
bug('C19-announce-brand','C19',[('nodes/node.go','''			n.addDeviceInformation()
			n.pushEvent(events.NodeUpdated{
				Address: n.Id,
			})
			n.Unlock()
''','''			n.addDeviceInformation()
			if n.Brand != "" {
				n.pushEvent(events.NodeUpdated{
					Address: n.Id,
				})
			}
			n.Unlock()
''')],'nodes',NODE+'''
func TestZZDemoLearnedAnnounced(t *testing.T) {
	w := &zzWriter{}
	w.msg = func(b []byte) *serialapi.Message {
		return &serialapi.Message{Data: &serialapi.FuncGetNodeProtocolInfo{Listening: true}}
	}
	w.report = func(b []byte) reports.Report {
		if len(b) > 3 && b[3] == 0x72 {
			return &reports.ManufacturerSpecific{Manufacturer: "fffe", Type: "fffe", ID: "fffe"}
		}
		return nil // Nothing else is answered
	}
	n := New(5)
	var mu sync.Mutex
	events := 0
	n.Setup(w, func(interface{}) {
		mu.Lock()
		events++
		mu.Unlock()
	})
	go n.Identify()
	time.Sleep(time.Second)
	mu.Lock()
	defer mu.Unlock()
	if events != 2 {
		t.Fatal(events)
	}
}
''','a device that is not in the database and does not answer the question for its endpoints','the manufacturer data learned is not announced, so it is not saved')
bug('C32-get-byte','C32',[('nodes/list.go','	return l.nodes[id]\n','	return l.nodes[int(byte(id))] // Ids are bytes\n')],'nodes',NODE+'''
func TestZZDemoGetOther(t *testing.T) {
	l := NewList()
	l.Add(New(1))
	if l.Get(257) != nil || l.Get(1) == nil {
		t.Fatal("wrong node")
	}
}
''','a lookup of an id outside of a byte','another node is returned')
bug('C32-many-endpoints','C32',[('nodes/request_endpoints.go','					Id:             i,\n','					Id:             i & 0x0f,\n')],'nodes',NODE+'''
func TestZZDemoManyEndpoints(t *testing.T) {
	w := &zzWriter{}
	w.report = func(b []byte) reports.Report { return &reports.MultiChannelEndpoints{Endpoints: 20} }
	n := zzNode(5, w)
	n.CommandClasses = zzClasses(commands.SwitchBinary)
	if err := n.RequestEndpoints(); err != nil {
		t.Fatal(err)
	}
	seen := map[int]bool{}
	for _, e := range n.Endpoints {
		if seen[e.Id] {
			t.Fatal(e.Id)
		}
		seen[e.Id] = true
	}
}
''','a device with more than 15 endpoints','several endpoints share a number')
bug('C32-class-wildcard','C32',[('nodes/node.go','	return n.ProtocolInfo().Generic == generic && n.ProtocolInfo().Specific == specific','	return n.ProtocolInfo().Generic == generic && (n.ProtocolInfo().Specific == specific || specific == 0)')],'nodes',NODE+'''
func TestZZDemoClass(t *testing.T) {
	n := New(5)
	n.protocolInfo = &serialapi.FuncGetNodeProtocolInfo{Generic: 0x10, Specific: 1}
	if n.IsDeviceClass(0x10, 0) || !n.IsDeviceClass(0x10, 1) {
		t.Fatal("wrong class")
	}
}
''','asking for the specific class zero','every specific class is taken for the one without a name')
