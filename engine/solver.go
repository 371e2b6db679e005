package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type engErr struct{ msg string }

func (e engErr) Error() string { return e.msg }

// PCNode is one conjunct of a path condition (persistent list).
type PCNode struct {
	parent *PCNode
	cond   *Term
	depth  int
}

func (p *PCNode) push(c *Term) *PCNode {
	d := 1
	if p != nil {
		d = p.depth + 1
	}
	return &PCNode{parent: p, cond: c, depth: d}
}

type solverStats struct {
	queries, sat, unsat, unknown int64
	nanos                        int64
	crossChecked                 int64
	crossDisagree                int64
	badModels, cached            int64
}

var gstats solverStats

// Solver drives one incremental SMT solver process.
type Solver struct {
	total   int
	bin     []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inRaw   io.WriteCloser
	out     *bufio.Reader
	defined map[*Term]string
	decl    map[string]uint8
	stack   []*Term
	buf     strings.Builder
	timeout int
	retryMs int // time for a second attempt in a fresh process
	nq      int
	cross   *Solver
}

func NewSolver(timeoutMs int, bin ...string) *Solver {
	return &Solver{bin: bin, timeout: timeoutMs}
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	w, err := s.cmd.StdinPipe()
	if err != nil {
		panic(engErr{err.Error()})
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(engErr{err.Error()})
	}
	if err := s.cmd.Start(); err != nil {
		panic(engErr{"cannot start solver: " + err.Error()})
	}
	s.inRaw, s.in, s.out = w, bufio.NewWriterSize(w, 1<<16), bufio.NewReaderSize(r, 1<<16)
	s.defined = map[*Term]string{}
	s.decl = map[string]uint8{}
	s.stack = nil
	s.nq = 0
	s.buf.Reset()
	s.emit("(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	if strings.Contains(s.bin[0], "z3") {
		s.emit("(set-option :timeout " + strconv.Itoa(s.timeout) + ")\n")
	}
	s.emit("(set-logic QF_BV)\n")
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
	if s.cross != nil {
		s.cross.Close()
	}
}

func (s *Solver) emit(x string) { s.buf.WriteString(x) }

func (s *Solver) flush() {
	s.in.WriteString(s.buf.String())
	s.buf.Reset()
	s.in.Flush()
}

// smtName is unique per name and width: two paths may use one input name at
// different widths.
func smtName(t *Term) string { return "|" + t.name + "/" + strconv.Itoa(int(t.w)) + "|" }

func (s *Solver) ref(t *Term) string {
	if t.op == OConst {
		return smtConst(t.val, t.w)
	}
	if n, ok := s.defined[t]; ok {
		return n
	}
	if t.op == OVar {
		n := smtName(t)
		if _, ok := s.decl[n]; !ok {
			s.decl[n] = t.w
			s.emit("(declare-const " + n + " " + smtSort(t.w) + ")\n")
		}
		s.defined[t] = n
		return n
	}
	var e string
	a := s.ref(t.a)
	var b, c string
	if t.b != nil {
		b = s.ref(t.b)
	}
	if t.c != nil {
		c = s.ref(t.c)
	}
	switch t.op {
	case OExtract:
		e = fmt.Sprintf("((_ extract %d %d) %s)", t.val>>8, t.val&0xff, a)
	case OZExt:
		e = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, a)
	case OSExt:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, a)
	default:
		e = "(" + opName[t.op] + " " + a
		if t.b != nil {
			e += " " + b
		}
		if t.c != nil {
			e += " " + c
		}
		e += ")"
	}
	n := "t" + strconv.FormatUint(uint64(t.id), 10)
	s.emit("(define-fun " + n + " () " + smtSort(t.w) + " " + e + ")\n")
	s.defined[t] = n
	return n
}

// sync makes the solver's assertion stack equal to conds.
func (s *Solver) sync(conds []*Term) {
	k := 0
	for k < len(s.stack) && k < len(conds) && s.stack[k] == conds[k] {
		k++
	}
	if n := len(s.stack) - k; n > 0 {
		s.emit("(pop " + strconv.Itoa(n) + ")\n")
		s.stack = s.stack[:k]
	}
	for ; k < len(conds); k++ {
		r := s.ref(conds[k])
		s.emit("(push 1)\n(assert " + r + ")\n")
		s.stack = append(s.stack, conds[k])
	}
}

// varsOf lists the variables of conds and c.
func varsOf(conds []*Term, c *Term) (out []*Term) {
	seen := map[*Term]bool{}
	for _, t := range append(conds[:len(conds):len(conds)], c) {
		for _, v := range t.variables() {
			if !seen[v] {
				seen[v] = true
				out = append(out, v)
			}
		}
	}
	return
}

type satRes int

const (
	rUnsat satRes = iota
	rSat
	rUnknown
)

// slice returns the conjuncts of pc that share variables, directly or through
// other conjuncts, with c. The others are satisfied by the model of pc.
func slice(pc *PCNode, c *Term) []*Term {
	d := 0
	if pc != nil {
		d = pc.depth
	}
	conds := make([]*Term, d)
	for p := pc; p != nil; p = p.parent {
		conds[p.depth-1] = p.cond
	}
	in := map[*Term]bool{}
	for _, v := range c.variables() {
		in[v] = true
	}
	sel := make([]bool, d)
	for again := true; again; {
		again = false
		for k := d - 1; k >= 0; k-- {
			if sel[k] {
				continue
			}
			vs := conds[k].variables()
			hit := false
			for _, v := range vs {
				if in[v] {
					hit = true
					break
				}
			}
			if !hit {
				continue
			}
			sel[k] = true
			for _, v := range vs {
				if !in[v] {
					in[v] = true
					again = true
				}
			}
		}
	}
	out := conds[:0]
	for k, c := range conds {
		if sel[k] {
			out = append(out, c)
		}
	}
	return out
}

type answer struct {
	res  satRes
	vals map[string]uint64
}

// answers remembers decided queries: the same conjuncts come up on many paths.
var answers struct {
	sync.Mutex
	m map[string]answer
}

func queryKey(conds []*Term, c *Term) string {
	b := make([]byte, 0, 4*len(conds)+4)
	for _, t := range append(conds[:len(conds):len(conds)], c) {
		b = append(b, byte(t.id), byte(t.id>>8), byte(t.id>>16), byte(t.id>>24))
	}
	return string(b)
}

// Check decides pc ∧ c, where base is a model of pc. On sat it returns a model.
func (s *Solver) Check(pc *PCNode, c *Term, base *Model) (satRes, *Model) {
	if c == tFalse {
		return rUnsat, nil
	}
	conds := slice(pc, c)
	key := queryKey(conds, c)
	answers.Lock()
	a, ok := answers.m[key]
	answers.Unlock()
	if ok {
		atomic.AddInt64(&gstats.cached, 1)
	} else {
		r, m := s.decide(conds, c)
		a.res = r
		if m != nil {
			a.vals = m.vals
		}
		if r != rUnknown {
			answers.Lock()
			if len(answers.m) > 400000 || answers.m == nil {
				answers.m = map[string]answer{}
			}
			answers.m[key] = a
			answers.Unlock()
		}
	}
	if a.res != rSat {
		return a.res, nil
	}
	n := make(map[string]uint64, len(base.vals)+len(a.vals))
	for k, v := range base.vals {
		n[k] = v
	}
	for k, v := range a.vals {
		n[k] = v
	}
	return rSat, NewModel(n)
}

// CheckAll decides the conjunction of pc without relying on a model.
func (s *Solver) CheckAll(pc *PCNode) satRes {
	var conds []*Term
	for p := pc; p != nil; p = p.parent {
		conds = append(conds, p.cond)
	}
	for i, j := 0, len(conds)-1; i < j; i, j = i+1, j-1 {
		conds[i], conds[j] = conds[j], conds[i]
	}
	r, _ := s.decide(conds, tTrue)
	return r
}

// decide decides conds ∧ c. On sat it returns the values of their variables.
func (s *Solver) decide(conds []*Term, c *Term) (res satRes, m *Model) {
	t0 := time.Now()
	defer func() {
		d := int64(time.Since(t0))
		atomic.AddInt64(&gstats.nanos, d)
		atomic.AddInt64(&gstats.queries, 1)
		switch res {
		case rSat:
			atomic.AddInt64(&gstats.sat, 1)
		case rUnsat:
			atomic.AddInt64(&gstats.unsat, 1)
		default:
			atomic.AddInt64(&gstats.unknown, 1)
		}
	}()
	restart := func() {
		cr := s.cross
		s.cross = nil
		s.Close()
		s.cross = cr
	}
	for try := 0; try < 2; try++ {
		if s.cmd == nil || s.nq > 4000 {
			restart()
			s.start()
		}
		s.nq++
		r, mm, err := s.check1(conds, c, true)
		if err == nil {
			s.total++
			if r == rSat && !holds(mm, conds, c) {
				r, mm = rUnknown, nil
				atomic.AddInt64(&gstats.badModels, 1)
			}
			if r == rUnknown {
				// an interrupted z3 process can answer later queries wrongly
				restart()
				if s.retryMs > 0 {
					r, mm = oneShot(s.retryMs, conds, c)
					if r == rSat && !holds(mm, conds, c) {
						r, mm = rUnknown, nil
						atomic.AddInt64(&gstats.badModels, 1)
					}
				}
			}
			if s.cross != nil && r != rUnknown && (s.total <= 40 || s.total%10 == 0) {
				if s.cross.cmd == nil || s.cross.nq > 4000 {
					s.cross.Close()
					s.cross.start()
				}
				s.cross.nq++
				r2, _, err2 := s.cross.check1(conds, c, false)
				if err2 != nil {
					s.cross.Close()
				} else if r2 != rUnknown {
					atomic.AddInt64(&gstats.crossChecked, 1)
					if r2 != r {
						atomic.AddInt64(&gstats.crossDisagree, 1)
						return rUnknown, nil
					}
				}
			}
			return r, mm
		}
		if try == 1 || strings.Contains(err.Error(), "(error") {
			fmt.Println("solver error:", err)
			restart()
			return rUnknown, nil
		}
		restart()
	}
	return rUnknown, nil
}

func (s *Solver) check1(conds []*Term, c *Term, values bool) (satRes, *Model, error) {
	s.sync(conds)
	r := s.ref(c)
	s.emit("(push 1)\n(assert " + r + ")\n(check-sat)\n")
	s.flush()
	line, err := s.readLine()
	if err != nil {
		return rUnknown, nil, err
	}
	if strings.Contains(line, "canceled") {
		line = "unknown"
	}
	switch line {
	case "unsat":
		s.emit("(pop 1)\n")
		return rUnsat, nil, nil
	case "sat":
		m := map[string]uint64{}
		var vars []*Term
		if values {
			vars = varsOf(conds, c)
		}
		if len(vars) > 0 {
			s.emit("(get-value (")
			for _, v := range vars {
				s.emit(smtName(v) + " ")
			}
			s.emit("))\n")
			s.flush()
			txt, err := s.readSexp()
			if err != nil {
				return rUnknown, nil, err
			}
			parseValues(txt, m)
		}
		s.emit("(pop 1)\n")
		return rSat, NewModel(m), nil
	case "unknown", "timeout":
		s.emit("(pop 1)\n")
		return rUnknown, nil, nil
	}
	return rUnknown, nil, fmt.Errorf("%s", line)
}

// holds evaluates conds ∧ c under a model.
func holds(m *Model, conds []*Term, c *Term) bool {
	if m.Eval(c) == 0 {
		return false
	}
	for _, p := range conds {
		if m.Eval(p) == 0 {
			return false
		}
	}
	return true
}

// oneShot decides conds ∧ c in a fresh process: without an assertion stack the
// solver can simplify the whole problem first.
func oneShot(ms int, conds []*Term, c *Term) (satRes, *Model) {
	t := &Solver{bin: []string{"z3"}, defined: map[*Term]string{}, decl: map[string]uint8{}}
	t.emit("(set-option :produce-models true)\n(set-logic QF_BV)\n")
	for _, x := range conds {
		r := t.ref(x)
		t.emit("(assert " + r + ")\n")
	}
	r := t.ref(c)
	t.emit("(assert " + r + ")\n(check-sat)\n")
	n := 0
	for _, v := range varsOf(conds, c) {
		if n == 0 {
			t.emit("(get-value (")
		}
		n++
		t.emit(smtName(v) + " ")
	}
	if n > 0 {
		t.emit("))\n")
	}
	if d := os.Getenv("GOSYM_DUMP"); d != "" {
		os.WriteFile(d+"/"+strconv.Itoa(int(time.Now().UnixNano()))+".smt2", []byte(t.buf.String()), 0644)
	}
	cmd := exec.Command("z3", "-in", "-T:"+strconv.Itoa(1+ms/1000))
	cmd.Stdin = strings.NewReader(t.buf.String())
	out, _ := cmd.Output()
	txt := strings.TrimSpace(string(out))
	switch {
	case strings.HasPrefix(txt, "unsat"):
		return rUnsat, nil
	case strings.HasPrefix(txt, "sat"):
		m := map[string]uint64{}
		if n > 0 {
			parseValues(strings.TrimSpace(txt[3:]), m)
		}
		return rSat, NewModel(m)
	}
	return rUnknown, nil
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	inBar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(c)
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
			if depth == 0 {
				if strings.HasPrefix(sb.String(), "(error") {
					return "", fmt.Errorf("%s", sb.String())
				}
				return sb.String(), nil
			}
		}
	}
}

func parseValues(t string, m map[string]uint64) {
	i := 0
	skip := func() {
		for i < len(t) && (t[i] == ' ' || t[i] == '\n' || t[i] == '\r' || t[i] == '\t') {
			i++
		}
	}
	skip()
	i++ // (
	for {
		skip()
		if i >= len(t) || t[i] == ')' {
			return
		}
		i++ // (
		skip()
		var name string
		if t[i] == '|' {
			j := strings.IndexByte(t[i+1:], '|')
			name = t[i+1 : i+1+j]
			name = name[:strings.LastIndexByte(name, '/')]
			i += j + 2
		} else {
			j := i
			for t[j] != ' ' && t[j] != '\n' {
				j++
			}
			name = t[i:j]
			i = j
		}
		skip()
		j := i
		if t[j] == '(' {
			for t[j] != ')' {
				j++
			}
			j++
		} else {
			for t[j] != ')' && t[j] != ' ' {
				j++
			}
		}
		v := t[i:j]
		i = j
		skip()
		i++ // )
		switch {
		case v == "true":
			m[name] = 1
		case v == "false":
			m[name] = 0
		case strings.HasPrefix(v, "#x"):
			x, _ := strconv.ParseUint(v[2:], 16, 64)
			m[name] = x
		case strings.HasPrefix(v, "#b"):
			x, _ := strconv.ParseUint(v[2:], 2, 64)
			m[name] = x
		case strings.HasPrefix(v, "(_ bv"):
			f := strings.Fields(v[5:])
			x, _ := strconv.ParseUint(f[0], 10, 64)
			m[name] = x
		}
	}
}
