package term

// replay: terminal

import (
	"context"
	"strconv"
	"strings"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VU02_many", VU02_many)
}

// Many lines and answers, long ones too: all are handled, and the last ones
// are on the screen.
func VU02_many() {
	vsym.Preempt(0)
	vsym.MaxSteps(60000000)
	vsym.Simulate()
	inputs := make(chan string)
	replies := make(chan *string)
	stops := make(chan bool)
	v, setup := vPrompt(func(in string) (*string, bool) {
		inputs <- in
		return <-replies, <-stops
	})
	ctx, cancel := context.WithCancel(context.Background())
	ended := make(chan error)
	go func() { ended <- v.Run(ctx, nil, cancel) }()
	<-setup
	cols, rows := 30, []int{8, 25}[vsym.Choice("rows", 2)]
	v.SetBox(PositionBox{Cols: cols, Rows: rows})
	var lines []string
	n := vsym.Bound("many lines", 40, 120)
	at := vsym.Choice("where", 3) * (n - 1) / 2
	for i := 0; i < n; i++ {
		text := "sum(metric_" + strconv.Itoa(i) + ")"
		if i == at {
			b := vsym.Byte("typed")
			vsym.Assume(vsym.And(b > ' ', b < 127))
			text += string(rune(b))
		}
		vType(v, text)
		vsym.Assert(<-inputs == text, "what is typed is handled")
		lines = append(lines, "> "+text)
		var reply *string
		r := ""
		for j := 0; j < i%4; j++ {
			l := "m" + strconv.Itoa(i) + strings.Repeat("z", (i*7+j*11)%(cols-4))
			lines = append(lines, l)
			r += l + "\n"
		}
		if r != "" {
			reply = &r
		}
		replies <- reply
		stops <- i == n-1
	}
	vsym.Assert(<-ended == nil, "ends without an error")
	got := vDrawn(v, cols, rows)
	lines = append(lines, "")
	if len(lines) > rows {
		lines = lines[len(lines)-rows:]
	}
	for i, l := range lines {
		vsym.Assert(got[i] == l, "the last lines and answers are shown in order")
	}
	vsym.Reach("handled")
}
