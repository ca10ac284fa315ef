package term

import (
	"github.com/c-bata/go-prompt"
	"github.com/gdamore/tcell"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VK01_special", VK01_special)
	vsym.Register("VK01_modified", VK01_modified)
}

// The keys that mean the same in the terminal library and in the prompt
// library, by name.
var vKeys = []struct {
	from tcell.Key
	to   prompt.Key
}{
	{tcell.KeyCtrlSpace, prompt.ControlSpace},
	{tcell.KeyCtrlA, prompt.ControlA}, {tcell.KeyCtrlB, prompt.ControlB}, {tcell.KeyCtrlC, prompt.ControlC},
	{tcell.KeyCtrlD, prompt.ControlD}, {tcell.KeyCtrlE, prompt.ControlE}, {tcell.KeyCtrlF, prompt.ControlF},
	{tcell.KeyCtrlG, prompt.ControlG}, {tcell.KeyBackspace, prompt.Backspace}, {tcell.KeyTab, prompt.Tab},
	{tcell.KeyCtrlJ, prompt.Enter}, // the prompt library decodes 0x0a so
	{tcell.KeyCtrlK, prompt.ControlK}, {tcell.KeyCtrlL, prompt.ControlL}, {tcell.KeyEnter, prompt.ControlM},
	{tcell.KeyCtrlN, prompt.ControlN}, {tcell.KeyCtrlO, prompt.ControlO}, {tcell.KeyCtrlP, prompt.ControlP},
	{tcell.KeyCtrlQ, prompt.ControlQ}, {tcell.KeyCtrlR, prompt.ControlR}, {tcell.KeyCtrlS, prompt.ControlS},
	{tcell.KeyCtrlT, prompt.ControlT}, {tcell.KeyCtrlU, prompt.ControlU}, {tcell.KeyCtrlV, prompt.ControlV},
	{tcell.KeyCtrlW, prompt.ControlW}, {tcell.KeyCtrlX, prompt.ControlX}, {tcell.KeyCtrlY, prompt.ControlY},
	{tcell.KeyCtrlZ, prompt.ControlZ},
	{tcell.KeyEsc, prompt.Escape}, {tcell.KeyCtrlBackslash, prompt.ControlBackslash},
	{tcell.KeyCtrlRightSq, prompt.ControlSquareClose}, {tcell.KeyCtrlCarat, prompt.ControlCircumflex},
	{tcell.KeyCtrlUnderscore, prompt.ControlUnderscore}, {tcell.KeyBackspace2, prompt.Backspace},
	{tcell.KeyUp, prompt.Up}, {tcell.KeyDown, prompt.Down}, {tcell.KeyLeft, prompt.Left}, {tcell.KeyRight, prompt.Right},
	{tcell.KeyPgUp, prompt.PageUp}, {tcell.KeyPgDn, prompt.PageDown}, {tcell.KeyHome, prompt.Home}, {tcell.KeyEnd, prompt.End},
	{tcell.KeyInsert, prompt.Insert}, {tcell.KeyDelete, prompt.Delete}, {tcell.KeyBacktab, prompt.BackTab},
	{tcell.KeyF1, prompt.F1}, {tcell.KeyF2, prompt.F2}, {tcell.KeyF3, prompt.F3}, {tcell.KeyF4, prompt.F4},
	{tcell.KeyF5, prompt.F5}, {tcell.KeyF6, prompt.F6}, {tcell.KeyF7, prompt.F7}, {tcell.KeyF8, prompt.F8},
	{tcell.KeyF9, prompt.F9}, {tcell.KeyF10, prompt.F10}, {tcell.KeyF11, prompt.F11}, {tcell.KeyF12, prompt.F12},
	{tcell.KeyF13, prompt.F13}, {tcell.KeyF14, prompt.F14}, {tcell.KeyF15, prompt.F15}, {tcell.KeyF16, prompt.F16},
	{tcell.KeyF17, prompt.F17}, {tcell.KeyF18, prompt.F18}, {tcell.KeyF19, prompt.F19}, {tcell.KeyF20, prompt.F20},
	{tcell.KeyF21, prompt.F21}, {tcell.KeyF22, prompt.F22}, {tcell.KeyF23, prompt.F23}, {tcell.KeyF24, prompt.F24},
}

func vKeyFor(k tcell.Key) prompt.Key {
	want := prompt.NotDefined
	for _, m := range vKeys {
		want = prompt.Key(vsym.Ite(m.from == k, int(m.to), int(want)))
	}
	return want
}

// Any special key without modifiers, and with the modifiers that do not
// change it, is delivered as the same key of the prompt library, or not at
// all where that library does not know it.
func VK01_special() {
	k := tcell.Key(vsym.IntRange("key", 0, int(tcell.KeyF64)))
	vsym.Assume(vsym.Or(k < ' ', vsym.Or(k == tcell.KeyDEL, k > tcell.KeyRune)))
	mod := tcell.ModMask(0)
	if vsym.Choice("alt", 2) == 1 {
		mod = tcell.ModAlt
	}
	got := nonRuneKeyToBytes(tcell.NewEventKey(k, 0, mod))
	want := vKeyFor(k)
	if got == nil {
		vsym.Assert(want == prompt.NotDefined, "a key the prompt knows is dropped")
		vsym.Reach("dropped")
		return
	}
	vsym.Assert(prompt.GetKey(got) == want, "delivered as another key")
	vsym.Reach("delivered")
}

// Arrows and delete, with control or shift or both held.
func VK01_modified() {
	set := []struct {
		from        tcell.Key
		ctrl, shift prompt.Key
	}{
		{tcell.KeyLeft, prompt.ControlLeft, prompt.ShiftLeft},
		{tcell.KeyRight, prompt.ControlRight, prompt.ShiftRight},
		{tcell.KeyUp, prompt.ControlUp, prompt.ShiftUp},
		{tcell.KeyDown, prompt.ControlDown, prompt.ShiftDown},
		{tcell.KeyDelete, prompt.ControlDelete, prompt.ShiftDelete},
	}
	c := set[vsym.Choice("key", len(set))]
	mod := tcell.ModMask(vsym.IntRange("mod", 0, 15))
	got := prompt.GetKey(nonRuneKeyToBytes(tcell.NewEventKey(c.from, 0, mod)))
	ctrl, shift := mod&tcell.ModCtrl != 0, mod&tcell.ModShift != 0
	switch {
	case ctrl && shift:
		vsym.Assert(vsym.Or(got == c.ctrl, got == c.shift), "control or shift variant")
	case ctrl:
		vsym.Assert(got == c.ctrl, "control variant")
	case shift:
		vsym.Assert(got == c.shift, "shift variant")
	default:
		vsym.Assert(got == vKeyFor(c.from), "plain key")
	}
	vsym.Reach("modified")
}
