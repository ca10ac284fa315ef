package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver drives one z3 process over a pipe.
type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	w       *bufio.Writer
	out     *bufio.Reader
	lines   chan string
	scope   uint64 // id of the current path scope (for define-fun bookkeeping)
	started bool
	defs    []*Term // terms defined in the current scope
	path    bool
	Queries int64
	Sat     int64
	Unsat   int64
	Unknown int64
	Time    time.Duration
	timeout time.Duration
	log     io.Writer

	hardFP  bool            // the scope has floating-point arithmetic: ask the portfolio directly
	hist    strings.Builder // declarations, definitions and assertions of the scope
	hardLim time.Duration   // budget of the one-shot portfolio used when the incremental solver gives up
	OneShot int64           // queries decided by the portfolio
}

var scopeCtr uint64

var solverBin = "z3-new"

func (s *Solver) start() {
	if _, err := exec.LookPath(solverBin); err != nil {
		solverBin = "z3"
	}
	s.cmd = exec.Command(solverBin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in, s.w, s.out = in, bufio.NewWriterSize(in, 1<<16), bufio.NewReaderSize(out, 1<<16)
	s.started = true
	s.send("(set-option :print-success false)\n(set-option :produce-models true)\n(set-logic ALL)\n")
	lines := make(chan string, 64)
	rd := s.out
	s.lines = lines
	go func() {
		defer close(lines)
		for {
			l, err := rd.ReadString('\n')
			if l = strings.TrimSpace(l); l != "" {
				lines <- l
			}
			if err != nil {
				return
			}
		}
	}()
}

// emit sends a statement that belongs to the current path scope.
func (s *Solver) emit(str string) {
	s.hist.WriteString(str)
	s.send(str)
}

func (s *Solver) send(str string) {
	if s.log != nil {
		io.WriteString(s.log, str)
	}
	if _, err := s.w.WriteString(str); err != nil {
		panic(engineErr("solver write: " + err.Error()))
	}
}

// NewPath discards the previous path's assertions.
func (s *Solver) NewPath() {
	if !s.started {
		s.start()
	}
	if s.path {
		s.send("(pop 1)\n")
	}
	s.path = true
	s.scope++
	s.hist.Reset()
	s.hardFP = false
	s.send("(push 1)\n")
}

func (s *Solver) Close() {
	if s.started {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.started, s.path = false, false
	}
}

var solverScopeBase uint64

// ref prints a reference to t, emitting definitions first. Bit vectors are
// emitted at t.width() bits (two's complement).
func (s *Solver) ref(t *Term) string {
	isBV := t.sort != SBool && t.sort != SF64
	if t.op == OConst {
		if isBV {
			return bvStr(t.val, t.width())
		}
		return constStr(t)
	}
	key := s.scope
	if t.defined == key {
		if t.op == OVar {
			return t.name
		}
		return "t" + strconv.FormatUint(t.id, 10)
	}
	if t.op == OVar {
		if !isBV {
			s.emit("(declare-fun " + t.name + " () " + sortStr(t.sort) + ")\n")
		} else {
			w := t.width()
			s.emit("(declare-fun " + t.name + " () (_ BitVec " + strconv.Itoa(w) + "))\n")
			if lo, hi := fullRange(Sort(w)); t.lo > lo || t.hi < hi {
				s.emit("(assert (and (bvsle " + bvStr(uint64(t.lo), w) + " " + t.name + ") (bvsle " + t.name + " " + bvStr(uint64(t.hi), w) + ")))\n")
			}
		}
		t.defined = key
		return t.name
	}
	var body string
	srt := sortStr(t.sort)
	w := 0
	if isBV {
		w = t.width()
		srt = "(_ BitVec " + strconv.Itoa(w) + ")"
	}
	switch t.op {
	case ONot, OAnd, OOr:
		body = "(" + opNames[t.op] + " " + s.ref(t.a)
		if t.b != nil {
			body += " " + s.ref(t.b)
		}
		body += ")"
	case OEq, OUlt, OUle, OSlt, OSle:
		if t.a.sort == SBool {
			body = "(= " + s.ref(t.a) + " " + s.ref(t.b) + ")"
			break
		}
		W := max(t.a.width(), t.b.width())
		body = "(" + opNames[t.op] + " " + s.refW(t.a, W) + " " + s.refW(t.b, W) + ")"
	case OIte:
		if isBV {
			body = "(ite " + s.ref(t.a) + " " + s.refW(t.b, w) + " " + s.refW(t.c, w) + ")"
		} else {
			body = "(ite " + s.ref(t.a) + " " + s.ref(t.b) + " " + s.ref(t.c) + ")"
		}
	case OAdd, OSub, OMul, OBvAnd, OBvOr, OBvXor:
		body = "(" + opNames[t.op] + " " + s.refW(t.a, w) + " " + s.refW(t.b, w) + ")"
	case OBvNot, ONeg:
		body = "(" + opNames[t.op] + " " + s.refW(t.a, w) + ")"
	case OSdiv, OSrem:
		W := max(w, t.a.width(), t.b.width())
		body = s.trunc("("+opNames[t.op]+" "+s.refW(t.a, W)+" "+s.refW(t.b, W)+")", W, w)
	case OUdiv, OUrem:
		W := int(t.sort)
		al, _ := t.a.rng()
		bl, _ := t.b.rng()
		if al >= 0 && bl >= 0 {
			W = max(w, t.a.width(), t.b.width())
		}
		body = s.trunc("("+opNames[t.op]+" "+s.refW(t.a, W)+" "+s.refW(t.b, W)+")", W, w)
	case OShl, OLshr, OAshr:
		W := int(t.sort)
		if t.b.op == OConst {
			k := t.b.val
			al, _ := t.a.rng()
			n := max(w, t.a.width())
			if k < uint64(n) && (uint64(n) < 64 && k < 1<<uint(min(n-1, 30))) && (t.op != OLshr || al >= 0) {
				W = n
			}
			body = s.trunc("("+opNames[t.op]+" "+s.refW(t.a, W)+" "+bvStr(k, W)+")", W, w)
			break
		}
		body = s.trunc("("+opNames[t.op]+" "+s.refW(t.a, W)+" "+s.refW(t.b, W)+")", W, w)
	case OZext:
		al, _ := t.a.rng()
		if al >= 0 {
			body = s.refW(t.a, w)
		} else {
			n := int(t.a.sort)
			x := s.refW(t.a, n)
			if w > n {
				x = fmt.Sprintf("((_ zero_extend %d) %s)", w-n, x)
			}
			body = s.trunc(x, max(w, n), w)
		}
	case OSext, OTrunc:
		body = s.refW(t.a, w)
	case OFFromS:
		body = "((_ to_fp 11 53) RNE " + s.refW(t.a, max(2, t.a.width())) + ")"
	case OFFromU:
		if al, _ := t.a.rng(); al >= 0 {
			body = "((_ to_fp 11 53) RNE " + s.refW(t.a, max(2, t.a.width())) + ")"
		} else {
			body = "((_ to_fp_unsigned 11 53) RNE " + s.refW(t.a, int(t.a.sort)) + ")"
		}
	case OFFromBits:
		body = "((_ to_fp 11 53) " + s.refW(t.a, 64) + ")"
	case OFTo32:
		body = "((_ to_fp 11 53) RNE ((_ to_fp 8 24) RNE " + s.ref(t.a) + "))"
	case OFToS:
		a := s.ref(t.a)
		lo := constStr(F64(-9223372036854775808.0))
		hi := constStr(F64(9223372036854775808.0))
		body = "(ite (and (fp.leq " + lo + " " + a + ") (fp.lt " + a + " " + hi + ")) ((_ fp.to_sbv 64) RTZ " + a + ") #x8000000000000000)"
	default:
		body = "(" + opNames[t.op] + " " + s.ref(t.a)
		if t.b != nil {
			body += " " + s.ref(t.b)
		}
		if t.c != nil {
			body += " " + s.ref(t.c)
		}
		body += ")"
	}
	switch t.op {
	case OFAdd, OFSub, OFMul, OFDiv, OFSqrt, OFFloor, OFCeil, OFTrunc, OFRne, OFRna, OFFromS, OFFromU, OFToS, OFTo32:
		s.hardFP = true
	}
	name := "t" + strconv.FormatUint(t.id, 10)
	s.emit("(define-fun " + name + " () " + srt + " " + body + ")\n")
	t.defined = key
	return name
}

func (s *Solver) trunc(x string, from, to int) string {
	if from == to {
		return x
	}
	return fmt.Sprintf("((_ extract %d 0) %s)", to-1, x)
}

// refW is a reference to t coerced (two's complement) to w bits.
func (s *Solver) refW(t *Term, w int) string {
	if t.op == OConst {
		return bvStr(uint64(sext64(t.val, t.sort)), w)
	}
	r := s.ref(t)
	n := t.width()
	switch {
	case n < w:
		return fmt.Sprintf("((_ sign_extend %d) %s)", w-n, r)
	case n > w:
		return fmt.Sprintf("((_ extract %d 0) %s)", w-1, r)
	}
	return r
}

func bvStr(v uint64, w int) string {
	v = mask(v, Sort(w))
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", w/4, v)
	}
	return fmt.Sprintf("#b%0*b", w, v)
}

func (s *Solver) Assert(t *Term) {
	r := s.ref(t)
	s.emit("(assert " + r + ")\n")
}

func (s *Solver) readLine() string {
	l, ok := <-s.lines
	if !ok {
		panic(engineErr("solver died"))
	}
	return l
}

// readTimed waits for an answer; "" means none came in time.
func (s *Solver) readTimed(d time.Duration) string {
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case l, ok := <-s.lines:
		if !ok {
			panic(engineErr("solver died"))
		}
		return l
	case <-t.C:
		return ""
	}
}

type Result int

const (
	Unsat Result = iota
	Sat
	UnknownR
)

// Check decides the asserted constraints plus extra; on sat it returns a model
// for vars.
func (s *Solver) Check(extra *Term, vars []*Term) (Result, Model) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	ex := ""
	if extra != nil {
		ex = "(assert " + s.ref(extra) + ")\n"
	}
	if s.hardFP && s.hardLim > 0 {
		return s.oneShot(ex, vars)
	}
	if extra != nil {
		r := s.ref(extra) // definitions stay in the path scope
		s.send("(push 1)\n(assert " + r + ")\n")
	}
	// declare all vars so that get-value can mention them
	for _, v := range vars {
		if v.defined != s.scope {
			// never mentioned: value is free
			continue
		}
	}
	s.send("(check-sat)\n")
	if err := s.w.Flush(); err != nil {
		panic(engineErr("solver flush: " + err.Error()))
	}
	l := s.readTimed(s.timeout)
	var res Result
	var m Model
	switch {
	case l == "":
		// start over with a fresh process: a z3 that was interrupted is not
		// in a dependable state
		res, m = s.oneShot(ex, vars)
		s.Close()
		return res, m
	case l == "sat":
		s.Sat++
		res = Sat
		m = make(Model, len(vars))
		for i, v := range vars {
			m[i] = v.dflt()
		}
		var names []string
		var idx []int
		for i, v := range vars {
			if v.defined == s.scope {
				names = append(names, v.name)
				idx = append(idx, i)
			}
		}
		if len(names) > 0 {
			s.send("(get-value (" + strings.Join(names, " ") + "))\n")
			s.w.Flush()
			vals := s.readValues()
			if len(vals) != len(names) {
				panic(engineErr(fmt.Sprintf("get-value: %d values for %d names", len(vals), len(names))))
			}
			fillModel(m, vals, idx, vars)
		}
	case l == "unsat":
		s.Unsat++
		res = Unsat
	case l == "unknown":
		res, m = s.oneShot(ex, vars)
	default:
		if strings.HasPrefix(l, "(error") {
			panic(engineErr("solver: " + l))
		}
		panic(engineErr("solver: unexpected " + l))
	}
	if extra != nil {
		s.send("(pop 1)\n")
	}
	return res, m
}

func (s *Solver) readValues() []uint64 {
	depth := 0
	var sb strings.Builder
	for {
		l := s.readLine()
		sb.WriteString(l)
		sb.WriteByte(' ')
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth <= 0 {
			break
		}
	}
	txt := sb.String()
	if strings.HasPrefix(txt, "(error") {
		panic(engineErr("solver: " + txt))
	}
	return parseValues(txt)
}

func fillModel(m Model, vals []uint64, idx []int, vars []*Term) {
	for k, v := range vals {
		if x := vars[idx[k]]; x.sort != SBool && x.sort != SF64 {
			v = mask(uint64(sext64(v, Sort(x.width()))), x.sort)
		}
		m[idx[k]] = v
	}
}

func (s *Solver) oneShot(ex string, vars []*Term) (Result, Model) {
	res, m := s.portfolio(ex, vars)
	switch res {
	case Sat:
		s.Sat++
		s.OneShot++
	case Unsat:
		s.Unsat++
		s.OneShot++
	default:
		s.Unknown++
	}
	return res, m
}

// portfolio decides the current scope plus extra from scratch with several
// non-incremental solvers at once; the first answer wins.
func (s *Solver) portfolio(extra string, vars []*Term) (Result, Model) {
	if s.hardLim <= 0 {
		return UnknownR, nil
	}
	var names []string
	var idx []int
	for i, v := range vars {
		if v.defined == s.scope {
			names = append(names, v.name)
			idx = append(idx, i)
		}
	}
	body := s.hist.String() + extra
	tail := "(check-sat)\n"
	if len(names) > 0 {
		tail += "(get-value (" + strings.Join(names, " ") + "))\n"
	}
	logic := "QF_BV"
	if strings.Contains(body, "Float64") || strings.Contains(body, "to_fp") {
		logic = "QF_BVFP"
	}
	txt := "(set-option :produce-models true)\n(set-logic " + logic + ")\n" + body + tail
	ctx, cancel := context.WithTimeout(context.Background(), s.hardLim)
	defer cancel()
	type ans struct {
		res Result
		out string
	}
	cmds := [][]string{{solverBin, "-in", "-smt2"}, {"cvc5", "--lang", "smt2", "-"}}
	ch := make(chan ans, len(cmds))
	for _, c := range cmds {
		c := c
		go func() {
			cmd := exec.CommandContext(ctx, c[0], c[1:]...)
			cmd.Stdin = strings.NewReader(txt)
			out, _ := cmd.Output()
			o := strings.TrimSpace(string(out))
			switch {
			case strings.HasPrefix(o, "unsat"):
				ch <- ans{Unsat, ""}
			case strings.HasPrefix(o, "sat"):
				ch <- ans{Sat, strings.TrimPrefix(o, "sat")}
			default:
				ch <- ans{UnknownR, o}
			}
		}()
	}
	for range cmds {
		a := <-ch
		switch a.res {
		case Unsat:
			return Unsat, nil
		case Sat:
			m := make(Model, len(vars))
			for i, v := range vars {
				m[i] = v.dflt()
			}
			if len(names) > 0 {
				vals := parseValues(a.out)
				if len(vals) != len(names) {
					continue
				}
				fillModel(m, vals, idx, vars)
			}
			return Sat, m
		}
	}
	return UnknownR, nil
}

func parseValues(txt string) []uint64 {
	toks := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(txt))
	var vals []uint64
	for i := 0; i < len(toks); i++ {
		t := toks[i]
		switch {
		case strings.HasPrefix(t, "#x"):
			v, _ := strconv.ParseUint(t[2:], 16, 64)
			vals = append(vals, v)
		case strings.HasPrefix(t, "#b"):
			v, _ := strconv.ParseUint(t[2:], 2, 64)
			vals = append(vals, v)
		case t == "true":
			vals = append(vals, 1)
		case t == "false":
			vals = append(vals, 0)
		}
	}
	return vals
}
