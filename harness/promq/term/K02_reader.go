package term

import (
	"syscall"
	"unicode/utf8"

	"github.com/gdamore/tcell"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VK02_reader", VK02_reader)
	vsym.Register("VK02_runes", VK02_runes)
	vsym.Register("VK02_string", VK02_string)
	vsym.Register("VK02_concurrent", VK02_concurrent)
}

// vTyped is one key press: what must reach the prompt, and whether alone.
type vTyped struct {
	evt     *tcell.EventKey
	bytes   []byte
	special bool
}

func vAnyKey() vTyped {
	switch vsym.Choice("kind", 5) {
	case 0:
		b := vsym.Byte("ascii")
		vsym.Assume(vsym.And(b >= ' ', b < 0x7f))
		return vTyped{tcell.NewEventKey(tcell.KeyRune, rune(b), 0), []byte{b}, false}
	case 1:
		b := vsym.Byte("low")
		vsym.Assume(vsym.And(b >= 0x80, b <= 0xbf))
		return vTyped{tcell.NewEventKey(tcell.KeyRune, 0x4e00+rune(b-0x80), 0), []byte{0xe4, 0xb8, b}, false}
	case 2:
		return vTyped{tcell.NewEventKey(tcell.KeyEnter, 0, 0), []byte{0xd}, true}
	case 3:
		return vTyped{tcell.NewEventKey(tcell.KeyF5, 0, 0), []byte{0x1b, 0x5b, 0x5b, 0x45}, true}
	default: // unknown to the prompt library
		return vTyped{tcell.NewEventKey(tcell.KeyF40, 0, 0), nil, true}
	}
}

// vReads takes everything that is waiting, and checks it against the keys.
func vReads(p *screenParser, keys []vTyped) {
	i := 0
	for n := 0; n < 2*len(keys)+1; n++ {
		got, err := p.Read()
		if err != nil {
			vsym.Assert(err == syscall.EWOULDBLOCK, "unexpected error")
			vsym.Assert(len(got) == 0, "bytes with an error")
			// Legitimate when nothing is left but keys without a meaning.
			if i < len(keys) && keys[i].special && keys[i].bytes == nil {
				i++
			}
			continue
		}
		vsym.Assert(len(got) > 0, "empty read")
		for i < len(keys) && len(keys[i].bytes) == 0 {
			i++
		}
		if i == len(keys) {
			vsym.Fail("bytes of no key")
			return
		}
		if keys[i].special {
			vsym.Assert(string(got) == string(keys[i].bytes), "special key alone")
			if keys[i].evt.Key() == tcell.KeyEnter {
				p.Setup() // a new line is asked for
			}
			i++
			continue
		}
		for len(got) > 0 {
			for i < len(keys) && len(keys[i].bytes) == 0 {
				i++
			}
			if i == len(keys) || keys[i].special {
				vsym.Fail("text and special key in one read")
				return
			}
			k := keys[i].bytes
			if len(got) < len(k) {
				vsym.Fail("partial character")
				return
			}
			vsym.Assert(string(got[:len(k)]) == string(k), "character delivered as typed, in order")
			got = got[len(k):]
			i++
		}
	}
	for i < len(keys) && len(keys[i].bytes) == 0 {
		i++
	}
	vsym.Assert(i == len(keys), "key lost")
}

// Keys typed between reads, in two batches.
func VK02_reader() {
	p := &screenParser{evts: make(chan *tcell.EventKey, 30)}
	n := vsym.Bound("keys", 4, 6)
	cut := vsym.Choice("cut", n+1)
	var keys []vTyped
	for i := 0; i < cut; i++ {
		k := vAnyKey()
		keys = append(keys, k)
		p.AddKey(k.evt)
	}
	vReads(p, keys)
	keys = nil
	for i := cut; i < n; i++ {
		k := vAnyKey()
		keys = append(keys, k)
		p.AddKey(k.evt)
	}
	vReads(p, keys)
	vsym.Reach("read")
}

// An initial command arrives as its characters, and its final return alone.
func VK02_string() {
	p := &screenParser{evts: make(chan *tcell.EventKey, 30)}
	n := vsym.Choice("length", vsym.Bound("initial command", 3, 6))
	b := vsym.Bytes("command", n)
	s := ""
	for _, c := range b {
		vsym.Assume(vsym.And(c >= ' ', c < 0x7f))
	}
	s = string(b)
	p.AddString(s + "é\r")
	got, err := p.Read()
	vsym.Assert(err == nil, "readable")
	vsym.Assert(string(got) == s+"é", "the command")
	vsym.Assert(utf8.Valid(got), "whole characters")
	got, err = p.Read()
	vsym.Assert(err == nil && string(got) == "\r", "return on its own")
	_, err = p.Read()
	vsym.Assert(err == syscall.EWOULDBLOCK, "nothing else")
	vsym.Reach("typed ahead")
}

// Typing and reading at the same time, in any interleaving.
func VK02_concurrent() {
	vsym.Preempt(vsym.Bound("preemptions", 2, 3))
	p := &screenParser{evts: make(chan *tcell.EventKey, 30)}
	var keys []vTyped
	n := vsym.Bound("keys typed while reading", 2, 3)
	for i := 0; i < n; i++ {
		keys = append(keys, vAnyKey())
	}
	done := make(chan struct{})
	go func() {
		for _, k := range keys {
			p.AddKey(k.evt)
		}
		close(done)
	}()
	var all []byte
	read := func() {
		if got, err := p.Read(); err == nil {
			all = append(all, got...)
			if string(got) == "\r" {
				p.Setup() // a new line is asked for
			}
		}
	}
	for i := 0; i < n; i++ {
		read()
	}
	<-done
	for i := 0; i < 2*n; i++ {
		read()
	}
	var want []byte
	for _, k := range keys {
		want = append(want, k.bytes...)
	}
	vsym.Assert(string(all) == string(want), "everything typed arrives once, in order")
	vsym.Reach("concurrent")
}

// Characters of every length, typed or part of an initial command.
func VK02_runes() {
	p := &screenParser{evts: make(chan *tcell.EventKey, 30)}
	n := vsym.Bound("characters of any length", 2, 3)
	typed := vsym.Choice("typed", 2) == 1
	var keys []vTyped
	var text []rune
	for i := 0; i < n; i++ {
		r := vsym.Rune("character")
		var b []byte
		low := func(shift uint) byte { return 0x80 | byte(r>>shift)&0x3f }
		switch vsym.Choice("bytes", 4) {
		case 0:
			vsym.Assume(vsym.And(r >= ' ', r < 0x7f))
			b = []byte{byte(r)}
		case 1:
			vsym.Assume(vsym.And(r >= 0x80, r < 0x800))
			b = []byte{0xc0 | byte(r>>6), low(0)}
		case 2:
			vsym.Assume(vsym.And(r >= 0x800, r < 0x10000, vsym.Or(r < 0xd800, r > 0xdfff)))
			b = []byte{0xe0 | byte(r>>12), low(6), low(0)}
		default:
			vsym.Assume(vsym.And(r >= 0x10000, r <= 0x10ffff))
			b = []byte{0xf0 | byte(r>>18), low(12), low(6), low(0)}
		}
		evt := tcell.NewEventKey(tcell.KeyRune, r, 0)
		keys = append(keys, vTyped{evt, b, false})
		text = append(text, r)
		if typed {
			p.AddKey(evt)
		}
	}
	if !typed {
		p.AddString(string(text))
	}
	vReads(p, keys)
	vsym.Reach("read")
}
