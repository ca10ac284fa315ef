package metrics

// replay: terminal
// seam: github.com/gdamore/tcell NewScreen

import (
	"errors"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/gdamore/tcell"
	"k8s.io/client-go/rest"

	"sigs.k8s.io/instrumentation-tools/cmd/cli"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VC04_session", VC04_session)
	vsym.Register("VC04_back", VC04_back)
	vsym.Register("VC04_start", VC04_start)
	vsym.Register("VC04_quit", VC04_quit)
	vsym.Register("VC04_times", VC04_times)
	vsym.Register("VC04_unfit", VC04_unfit)
}

type vGlyph struct {
	r  rune
	fg tcell.Color
}

// vTTY is a terminal: what is drawn can be seen once it is shown.
type vTTY struct {
	tcell.Screen
	evts         chan tcell.Event
	cols, rows   int
	inits, finis int
	mu           sync.Mutex
	cells, shown []vGlyph
}

// vMark is never seen by who polls.
type vMark struct{ reached chan bool }

func (vMark) When() time.Time { return time.Time{} }

func vNewTTY(cols, rows int) *vTTY {
	return &vTTY{evts: make(chan tcell.Event, 100), cols: cols, rows: rows, cells: make([]vGlyph, cols*rows), shown: make([]vGlyph, cols*rows)}
}

func (s *vTTY) Init() error {
	s.inits++
	s.evts <- tcell.NewEventResize(s.cols, s.rows)
	return nil
}
func (s *vTTY) Fini() { s.finis++; close(s.evts) }
func (s *vTTY) PollEvent() tcell.Event {
	for e := range s.evts {
		m, ok := e.(vMark)
		if !ok {
			return e
		}
		m.reached <- true
	}
	return nil
}
func (s *vTTY) PostEvent(e tcell.Event) error {
	select {
	case s.evts <- e:
		return nil
	default:
		return tcell.ErrEventQFull
	}
}
func (s *vTTY) Size() (int, int) { return s.cols, s.rows }
func (s *vTTY) Clear() {
	for i := range s.cells {
		s.cells[i] = vGlyph{}
	}
}
func (s *vTTY) SetContent(x, y int, c rune, comb []rune, style tcell.Style) {
	vsym.Assert(vsym.And(x >= 0, x < s.cols, y >= 0, y < s.rows), "drawn on the screen")
	fg, _, _ := style.Decompose()
	s.cells[y*s.cols+x] = vGlyph{c, fg}
}
func (s *vTTY) ShowCursor(col, row int) {}
func (s *vTTY) HideCursor()             {}
func (s *vTTY) Show() {
	s.mu.Lock()
	copy(s.shown, s.cells)
	s.mu.Unlock()
}

// settled: everything that was asked of the screen before is shown.
func (s *vTTY) settled() {
	m := vMark{make(chan bool)}
	s.evts <- m
	<-m.reached
}

func (s *vTTY) text() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out []string
	for y := 0; y < s.rows; y++ {
		l := make([]rune, s.cols)
		for x := range l {
			l[x] = s.shown[y*s.cols+x].r
			if l[x] < ' ' {
				l[x] = ' '
			}
		}
		out = append(out, strings.TrimRight(string(l), " "))
	}
	return out
}

func (s *vTTY) count(what string) int {
	return strings.Count(strings.Join(s.text(), "\n"), what)
}

// waitFor waits until the text is shown.
func (s *vTTY) waitFor(what string) {
	for i := 0; s.count(what) == 0; i++ {
		if i == 40 {
			vsym.Fail("shown: " + what + strings.Join(s.text(), "|"))
		}
		time.Sleep(50 * time.Millisecond)
	}
}

func (s *vTTY) enter(text string) {
	for _, r := range text {
		s.evts <- tcell.NewEventKey(tcell.KeyRune, r, 0)
	}
	s.evts <- tcell.NewEventKey(tcell.KeyEnter, 0, 0)
}

// vGate is an endpoint that replies when it is told to.
type vGate struct {
	asked  chan bool
	answer chan *string // nil: fails
}

func (g *vGate) RoundTrip(r *http.Request) (*http.Response, error) {
	select {
	case g.asked <- true:
	case <-r.Context().Done():
		return nil, r.Context().Err()
	}
	select {
	case a := <-g.answer:
		if a == nil {
			return nil, errors.New("down")
		}
		return (&vTransport{status: 200, body: &vBody{r: strings.NewReader(*a)}}).RoundTrip(r)
	case <-r.Context().Done():
		return nil, r.Context().Err()
	}
}

func vChart(s *vTTY, g *vGate, query string) chan error {
	return vChartOver(s, g, query, time.Minute, 300*time.Millisecond)
}

func vChartOver(s *vTTY, g *vGate, query string, window, period time.Duration) chan error {
	tcell.ZzNewScreen = func() (tcell.Screen, error) { return s, nil }
	c := &MetricsCommand{Period: period, Window: window}
	c.RestConfig = &rest.Config{Host: "http://kube", Transport: g}
	ended := make(chan error, 1)
	go func() {
		ended <- c.Run(cli.PromQFlags{PromQuery: query, Continuous: true, HostNames: []string{"http://a"}})
	}()
	return ended
}

var vScrapes = []string{
	"m{a=\"x\"} 5\nm{a=\"y\"} 7\nn 6\n",
	"m{a=\"x\"} 2\n",
}

// The titles of the series of a query, once the texts were scraped; series
// that are no longer given are still charted.
func vTitles(q string, scraped [2]bool) []string {
	var out []string
	if q == "m" && (scraped[0] || scraped[1]) {
		out = append(out, "m, x, http://a")
	}
	if q == "m" && scraped[0] {
		out = append(out, "m, y, http://a")
	}
	if q == "n" && scraped[0] {
		out = append(out, "n, http://a")
	}
	return out
}

// What the chart shows: a legend of the series and, in the colours of the
// legend, their points.
func vCharted(s *vTTY, titles []string, lo, hi float64) {
	colours := map[tcell.Color]bool{}
	n := 0
	lines := s.text()
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, l := range lines {
		if !strings.HasPrefix(l, "•") {
			continue
		}
		ok := false
		for _, t := range titles {
			ok = ok || strings.HasPrefix(l, "• "+t)
		}
		vsym.Assert(ok, "only series that were asked for are in the legend")
		n++
	}
	vsym.Assert(n == len(titles), "every series is in the legend")
	for _, g := range s.shown {
		if g.r == '•' {
			colours[g.fg] = true
		}
	}
	dots := map[tcell.Color]bool{}
	for _, g := range s.shown {
		if g.r > 0x2800 && g.r < 0x2900 {
			dots[g.fg] = true
		}
	}
	for c := range dots {
		vsym.Assert(colours[c], "what is drawn is in the colour of a series of the legend")
	}
	vsym.Assert((len(dots) > 0) == (n > 0), "points are drawn if there are any")
	// the values next to the axis are those of what is charted
	labels := 0
	for _, l := range lines {
		i := strings.IndexRune(l, '┨')
		if i < 0 {
			continue
		}
		f := strings.Fields(l[:i])
		v, err := strconv.ParseFloat(f[len(f)-1], 64)
		vsym.Assert(err == nil, "values next to the axis")
		vsym.Assert(lo <= v && v <= hi, "the values next to the axis are in the range of the series")
		labels++
	}
	vsym.Assert((labels > 0) == (n > 0), "the axis has values if there are series")
}

// A session: queries and commands are entered and answered, and after each
// scrape the chart shows the last query on what was scraped.
func VC04_session() {
	vsym.Preempt(0)
	vsym.Simulate()
	vsym.Timers(1000)
	vsym.MaxSteps(40000000)
	vsym.FreezeClock()
	s := vNewTTY(80, 24)
	g := &vGate{asked: make(chan bool), answer: make(chan *string)}
	query := []string{"m", "", "m{"}[vsym.Choice("initial query", 3)]
	ended := vChart(s, g, query)
	<-g.asked
	g.answer <- &vScrapes[0]
	s.waitFor(">>>")
	var titles []string
	var scraped [2]bool
	switch query {
	case "m":
		s.waitFor("Plotting \"m\"...")
	case "m{":
		s.waitFor("Unable to set query:")
		query = ""
	}
	<-g.asked
	n := vsym.Bound("commands", 1, 2)
	for i := 0; i < n; i++ {
		switch vsym.Choice("command", 5) {
		case 0:
			s.enter("n")
			s.waitFor("Plotting \"n\"...")
			query = "n"
		case 1:
			s.enter("nope")
			s.waitFor("Plotting \"nope\"...")
			query = "nope"
		case 2:
			s.enter(":x")
			s.waitFor("no known command \":x\"")
		case 3:
			s.enter("sum(")
			s.waitFor("Unable to set query:")
		case 4: // nothing
		}
		// the next scrape is answered
		text := vsym.Choice("scraped", 3)
		if text < 2 {
			g.answer <- &vScrapes[text]
			scraped[text] = true
			if query != "" {
				titles = vTitles(query, scraped)
			}
		} else {
			g.answer <- nil
		}
		<-g.asked
		s.settled()
		switch {
		case query == "n":
			vCharted(s, titles, 6, 6)
		case scraped[0] && scraped[1]:
			vCharted(s, titles, 2, 7)
		case scraped[1]:
			vCharted(s, titles, 2, 2)
		default:
			vCharted(s, titles, 5, 7)
		}
		vsym.Assert(s.finis == 0, "the screen is kept")
	}
	s.enter([]string{":q", ":quit"}[vsym.Choice("quit", 2)])
	vsym.Assert(<-ended == nil, "ends without an error")
	vsym.Assert(s.inits == 1 && s.finis == 1, "the screen is set up and given back once")
	vsym.Reach("session")
}

// Queries are entered in turn: the chart is that of the last, whatever was
// charted before.
func VC04_back() {
	vsym.Preempt(0)
	vsym.Simulate()
	vsym.Timers(1000)
	vsym.MaxSteps(40000000)
	vsym.FreezeClock()
	s := vNewTTY(80, 24)
	g := &vGate{asked: make(chan bool), answer: make(chan *string)}
	queries := []string{"m", "n", "nope"}
	query := queries[vsym.Choice("query", 2)]
	ended := vChart(s, g, query)
	<-g.asked
	g.answer <- &vScrapes[0]
	s.waitFor(">>>")
	s.waitFor("Plotting \"" + query + "\"...")
	<-g.asked
	n := vsym.Bound("queries", 2, 3)
	for i := 0; i <= n; i++ {
		if i > 0 {
			query = queries[vsym.Choice("query", len(queries))]
			s.enter(query)
			for i := 0; !strings.HasSuffix(strings.TrimRight(strings.Join(s.text(), "\n"), "\n"), ">>> "+query+"\nPlotting \""+query+"\"...\n>>>"); i++ {
				vsym.Assert(i < 40, "the query is answered")
				time.Sleep(50 * time.Millisecond)
			}
			s.settled()
		}
		g.answer <- &vScrapes[0]
		<-g.asked
		s.settled()
		if query == "n" {
			vCharted(s, vTitles(query, [2]bool{true, false}), 6, 6)
		} else {
			vCharted(s, vTitles(query, [2]bool{true, false}), 5, 7)
		}
	}
	s.enter(":q")
	vsym.Assert(<-ended == nil, "ends without an error")
	vsym.Reach("back")
}

// Without data to start with there is an error instead of a chart.
func VC04_start() {
	vsym.Preempt(0)
	vsym.Simulate()
	vsym.FreezeClock()
	s := vNewTTY(40, 12)
	g := &vGate{asked: make(chan bool), answer: make(chan *string)}
	ended := vChart(s, g, "m")
	<-g.asked
	g.answer <- nil
	vsym.Assert(<-ended != nil, "the failure is reported")
	vsym.Assert(s.inits == s.finis, "the terminal is left alone")
	vsym.Reach("start")
}

// Quitting at once, whatever is going on.
func VC04_quit() {
	vsym.Preempt(vsym.Bound("preemptions", 1, 2))
	vsym.Simulate()
	vsym.Timers(1000)
	vsym.MaxSteps(12000000)
	vsym.FreezeClock()
	s := vNewTTY(20, 8)
	g := &vGate{asked: make(chan bool), answer: make(chan *string)}
	query := []string{"", ":q"}[vsym.Choice("query", 2)]
	if query != ":q" { // typed before there is a prompt
		s.enter(":quit")
	}
	ended := vChart(s, g, query)
	<-g.asked
	g.answer <- &vScrapes[0]
	vsym.Assert(<-ended == nil, "ends without an error")
	vsym.Assert(s.inits == 1 && s.finis == 1, "the screen is set up and given back once")
	vsym.Reach("quit")
}

// The times below the axis are those of what is charted, written as fits the
// time that the chart spans.
func VC04_times() {
	vsym.Preempt(0)
	vsym.Simulate()
	vsym.Timers(1000)
	vsym.MaxSteps(400000000)
	vsym.SetClock([]int64{1600000000, 1704067190}[vsym.Choice("clock", 2)])
	vsym.FreezeClock()
	spans := []struct {
		window, period time.Duration
		format         string
	}{
		{30 * time.Second, 300 * time.Millisecond, ""},
		{time.Minute, 300 * time.Millisecond, "04:05"},
		{59 * time.Minute, 2 * time.Second, "04:05"},
		{time.Hour, 2 * time.Second, "15:04"},
		{23 * time.Hour, 6 * time.Second, "15:04"},
		{24 * time.Hour, 6 * time.Second, "_2 15h"},
		{239 * time.Hour, 10 * time.Second, "_2 15h"},
		{240 * time.Hour, 10 * time.Second, "Jan _2"},
	}
	span := spans[vsym.Choice("span", len(spans))]
	if span.period >= time.Second {
		vsym.Slow()
	}
	s := vNewTTY(60, 44)
	g := &vGate{asked: make(chan bool), answer: make(chan *string)}
	before := time.Now()
	ended := vChartOver(s, g, "m", span.window, span.period)
	for i := 0; i < 2; i++ {
		<-g.asked
		g.answer <- &vScrapes[0]
	}
	<-g.asked
	after := time.Now()
	s.settled()
	lines := s.text()
	axis, seen := -1, 0
	for y, l := range lines {
		if strings.ContainsRune(l, '┗') {
			axis = y
		}
	}
	vsym.Assert(axis >= 0, "there is an axis of times")
	at := func(x, y int) rune {
		if y < len(lines) {
			if l := []rune(lines[y]); x < len(l) {
				return l[x]
			}
		}
		return ' '
	}
	for x := 0; x < s.cols; x++ {
		if at(x, axis) != '┯' && at(x, axis) != '┗' {
			continue
		}
		var below []rune
		for y := axis + 1; y <= axis+16; y++ {
			below = append(below, at(x, y))
		}
		got := strings.TrimRight(string(below), " ")
		if got == "" && at(x, axis) == '┗' { // the first tick may be next to the corner
			continue
		}
		seen++
		if span.format == "" {
			ms, err := strconv.ParseInt(strings.TrimSuffix(got, "ms"), 10, 64)
			vsym.Assert(err == nil && strings.HasSuffix(got, "ms"), "times below the axis: "+got)
			vsym.Assert(before.Unix() <= ms/1000 && ms/1000 <= after.Unix(), "the times below the axis are those of the series")
			continue
		}
		ok := false
		for t := before.Truncate(time.Second); !t.After(after); t = t.Add(time.Second) {
			ok = ok || t.UTC().Format(span.format) == got
		}
		vsym.Assert(ok, "the times below the axis are those of the series, written as fits the window: "+got)
	}
	vsym.Assert(seen > 0, "there are times below the axis")
	s.enter(":q")
	vsym.Assert(<-ended == nil, "ends without an error")
	vsym.Reach("times")
}

// A query that cannot be charted leaves the chart as it was, and what is
// asked next is charted.
func VC04_unfit() {
	vsym.Preempt(0)
	vsym.Simulate()
	vsym.Timers(1000)
	vsym.MaxSteps(40000000)
	vsym.FreezeClock()
	s := vNewTTY(80, 24)
	g := &vGate{asked: make(chan bool), answer: make(chan *string)}
	ended := vChart(s, g, "m")
	for i := 0; i < 2; i++ {
		<-g.asked
		g.answer <- &vScrapes[0]
	}
	<-g.asked
	s.settled()
	vCharted(s, vTitles("m", [2]bool{true, false}), 5, 7)
	q := []string{"m[5m]", "'text'", "m * on() {a='x'}"}[vsym.Choice("query", 3)]
	s.enter(q)
	s.waitFor("Plotting \"" + q + "\"...")
	for i := vsym.Choice("scrapes", 2); i >= 0; i-- {
		g.answer <- &vScrapes[0]
		<-g.asked
		s.settled()
		vCharted(s, vTitles("m", [2]bool{true, false}), 5, 7)
	}
	s.enter("n")
	s.waitFor("Plotting \"n\"...")
	g.answer <- &vScrapes[0]
	<-g.asked
	s.settled()
	vCharted(s, vTitles("n", [2]bool{true, false}), 6, 6)
	s.enter(":q")
	vsym.Assert(<-ended == nil, "ends without an error")
	vsym.Assert(s.inits == 1 && s.finis == 1, "the screen is set up and given back once")
	vsym.Reach("unfit")
}
