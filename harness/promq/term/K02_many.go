package term

import (
	"github.com/gdamore/tcell"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VK02_many", VK02_many)
}

// Many keys, as fast as they fit, read when there is no room for more.
func VK02_many() {
	p := &screenParser{evts: make(chan *tcell.EventKey, 30)}
	var rnd vRandom
	any := vsym.Choice("where", 3) * 29
	for burst, n := 0, vsym.Bound("many bursts", 8, 40); burst < n; burst++ {
		var keys []vTyped
		for i := 0; i < 30; i++ {
			var k vTyped
			switch c := rnd.next(30); {
			case burst*30+i == any:
				k = vAnyKey()
			case c == 0:
				k = vTyped{tcell.NewEventKey(tcell.KeyEnter, 0, 0), []byte{0xd}, true}
			case c == 1:
				k = vTyped{tcell.NewEventKey(tcell.KeyF5, 0, 0), []byte{0x1b, 0x5b, 0x5b, 0x45}, true}
			case c == 2:
				k = vTyped{tcell.NewEventKey(tcell.KeyRune, '世', 0), []byte("世"), false}
			default:
				b := byte('a' + rnd.next(26))
				k = vTyped{tcell.NewEventKey(tcell.KeyRune, rune(b), 0), []byte{b}, false}
			}
			keys = append(keys, k)
			p.AddKey(k.evt)
		}
		vReads(p, keys)
	}
	vsym.Reach("read")
}
