import sys; sys.path.insert(0,'/verif/scripts')
from newbug import bug
bug('C03-len-mask','C03',[('serialapi/message.go','length := int(data[1])','length := int(data[1] & 0x7f)')],'serialapi','''package serialapi

import "testing"

func TestZZDemoLongFrame(t *testing.T) {
	for n := 4; n < 250; n++ {
		frame := CompileMessage(append([]byte{byte(GetNodeProtocolInfo)}, make([]byte, n)...))
		l, _, err := Decode(frame[:len(frame)-1])
		if l != len(frame) || err != nil {
			t.Fatalf("an incomplete frame of %d bytes was answered with %d, %v", len(frame), l, err)
		}
	}
}
''','a frame that declares 128 bytes or more','the length byte is masked, so long frames are cut and incomplete ones are judged on part of their bytes')
bug('C30-reserved','C30',[('commands/duration.go','case d <= 0xFD:','case d != 0xFE:')],'commands','''package commands

import (
	"testing"
	"time"
)

func TestZZDemoAll(t *testing.T) {
	for i := 0; i < 256; i++ {
		d, err := Duration(i).Duration()
		want := time.Duration(i) * time.Second
		if i > 0x7f {
			want = time.Duration(i-0x7f) * time.Minute
		}
		if i > 0xfd {
			if err == nil {
				t.Fatal(i)
			}
		} else if err != nil || d != want {
			t.Fatal(i, d, want, err)
		}
	}
}
''','the duration code 0xFF','the reserved code 0xFF decodes to 128 minutes instead of an error')
bug('C08-clamp-order','C08',[('commands/SwitchMultilevel.go','	if v > 99 {\n		v = 99\n	}\n',''),('commands/SwitchMultilevel.go','	c.level = byte(v)\n','	c.level = byte(int64(v))\n	if c.level > 99 {\n		c.level = 99\n	}\n')],'commands','''package commands

import (
	"math"
	"testing"
)

func TestZZDemoLevels(t *testing.T) {
	for _, v := range []float64{99, 100, 150, 255, 256, 300, 512, 1e6, 1e18, 1e300, math.Inf(1)} {
		if b := NewSwitchMultilevel().SetValue(v).Encode()[5]; b != 99 {
			t.Fatalf("%v is sent as %d", v, b)
		}
	}
}
''','a requested level of 256 or more whose low byte is below 99','the level is clamped after it was cut to one byte, so 300 is sent as 44')
bug('C05-alarm-v2','C05',[('commands/reports/alarm.go','	if len(data) >= 9 {\n','	if len(data) >= 9 && data[6]&0x80 != 0 {\n		a.Event = data[8]\n')],'commands/reports','''package reports

import "testing"

func TestZZDemoEvent(t *testing.T) {
	for i := 0; i < 256; i++ {
		r, err := NewAlarm([]byte{0, 0, 1, 0xff, 7, 8, byte(i), 2, 3, 4})
		if err != nil || r.Event != 8 {
			t.Fatal(i, r, err)
		}
	}
}
''','an alarm of nine bytes or more with the sequence flag set in its seventh byte','the event byte is overwritten with an event parameter')
