package term

import "github.com/gdamore/tcell"

// vScreen records what is drawn; every other method of the screen is absent.
type vScreen struct {
	tcell.Screen
	put func(x, y int, mainc rune, combc []rune, style tcell.Style)
}

func (s *vScreen) SetContent(x, y int, mainc rune, combc []rune, style tcell.Style) {
	s.put(x, y, mainc, combc, style)
}

func vMin(a, b int) int {
	if a < b {
		return a
	}
	return b
}
func vMax(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// vTerm is a screen that replays events and notes what is done to it.
type vTerm struct {
	tcell.Screen
	evts         chan tcell.Event
	cols, rows   int
	inits, finis int
	shown        []int // the view last painted, for each Show; 0 if it was cleared since
	painted      int
	owner        int // the view whose cells are on the screen, -1 if of several
}

func (s *vTerm) Init() error { s.inits++; return nil }
func (s *vTerm) Fini()       { s.finis++; close(s.evts) }
func (s *vTerm) PollEvent() tcell.Event {
	e, ok := <-s.evts
	if !ok {
		return nil
	}
	if r, ok := e.(*tcell.EventResize); ok {
		s.cols, s.rows = r.Size()
	}
	return e
}
func (s *vTerm) PostEvent(e tcell.Event) error {
	select {
	case s.evts <- e:
		return nil
	default:
		return tcell.ErrEventQFull
	}
}
func (s *vTerm) Size() (int, int) { return s.cols, s.rows }
func (s *vTerm) Clear()           { s.painted, s.owner = 0, 0 }
func (s *vTerm) Show()            { s.shown = append(s.shown, s.painted) }
