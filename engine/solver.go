package main

// SMT back end: one z3 process per worker, constraint slicing and a query cache.

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

type cached struct {
	r    Result
	vars map[string]uint64
	rds  map[string]map[uint64]uint64
}

type Solver struct {
	c       *Ctx
	bin     string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.WriteCloser
	out     *bufio.Reader
	gen     int
	cache   map[string]*cached
	timeout int // ms
	visit   int
	decl    map[string]bool

	Queries, CacheHits, NSat, NUnsat, NUnknown int
	Time                                       time.Duration
	MaxTime                                    time.Duration
	Slow                                       string
	defined                                    int
	log                                        io.Writer
}

func NewSolver(c *Ctx, timeoutMS int) *Solver {
	s := &Solver{c: c, bin: "z3", cache: map[string]*cached{}, timeout: timeoutMS}
	return s
}

func (s *Solver) start() error {
	cmd := exec.Command(s.bin, "-in", "-smt2")
	w, err := cmd.StdinPipe()
	if err != nil {
		return err
	}
	r, err := cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := cmd.Start(); err != nil {
		return err
	}
	s.cmd, s.inc, s.in, s.out = cmd, w, bufio.NewWriterSize(w, 1<<16), bufio.NewReaderSize(r, 1<<16)
	s.gen++
	s.defined = 0
	s.decl = map[string]bool{}
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :timeout %d)\n(set-logic QF_UFBV)\n", s.timeout)
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func quote(n string) string { return "|" + n + "|" }

func bvconst(v uint64, w uint8) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w)/4, v&mask(w))
	}
	return fmt.Sprintf("(_ bv%d %d)", v&mask(w), w)
}

func (s *Solver) ref(e *Expr) string {
	if e.op == OConst {
		if e.w == 0 {
			if e.val == 1 {
				return "true"
			}
			return "false"
		}
		return bvconst(e.val, e.w)
	}
	if e.op == OVar {
		return quote(e.name)
	}
	return "t" + strconv.Itoa(e.id)
}

// define emits e and its subterms.
func (s *Solver) define(e *Expr) {
	if e.op == OConst || e.emitted == s.gen {
		return
	}
	e.emitted = s.gen
	w := s.in
	switch e.op {
	case OVar:
		fmt.Fprintf(w, "(declare-const %s %s)\n", quote(e.name), sortName(e.w))
		return
	case ORead:
		s.define(e.a)
		if !s.decl[e.name] {
			s.decl[e.name] = true
			fmt.Fprintf(w, "(declare-fun %s (%s) %s)\n", quote(e.name), sortName(e.a.w), sortName(e.w))
		}
	case OSum:
		for _, t := range e.terms {
			s.define(t.e)
		}
	default:
		s.define2(e.a)
		s.define2(e.b)
		s.define2(e.c)
	}
	s.defined++
	var body string
	bin := func(op string) string { return "(" + op + " " + s.ref(e.a) + " " + s.ref(e.b) + ")" }
	switch e.op {
	case ORead:
		body = "(" + quote(e.name) + " " + s.ref(e.a) + ")"
	case ONot:
		body = "(not " + s.ref(e.a) + ")"
	case OAnd:
		body = bin("and")
	case OOr:
		body = bin("or")
	case OEq:
		body = bin("=")
	case OUlt:
		body = bin("bvult")
	case OSlt:
		body = bin("bvslt")
	case OIte:
		body = "(ite " + s.ref(e.a) + " " + s.ref(e.b) + " " + s.ref(e.c) + ")"
	case OSum:
		var pos []string
		for _, t := range e.terms {
			x := s.ref(t.e)
			if t.c == 1 {
			} else if t.c == mask(e.w) {
				x = "(bvneg " + x + ")"
			} else {
				x = "(bvmul " + bvconst(t.c, e.w) + " " + x + ")"
			}
			pos = append(pos, x)
		}
		if e.val != 0 {
			pos = append(pos, bvconst(e.val, e.w))
		}
		body = pos[0]
		for _, p := range pos[1:] {
			body = "(bvadd " + body + " " + p + ")"
		}
	case OMul:
		body = bin("bvmul")
	case OUDiv:
		body = bin("bvudiv")
	case OSDiv:
		body = bin("bvsdiv")
	case OURem:
		body = bin("bvurem")
	case OSRem:
		body = bin("bvsrem")
	case OShl:
		body = bin("bvshl")
	case OLShr:
		body = bin("bvlshr")
	case OAShr:
		body = bin("bvashr")
	case OBAnd:
		body = bin("bvand")
	case OBOr:
		body = bin("bvor")
	case OBXor:
		body = bin("bvxor")
	case OBNot:
		body = "(bvnot " + s.ref(e.a) + ")"
	case OZExt:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", e.w-e.a.w, s.ref(e.a))
	case OSExt:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", e.w-e.a.w, s.ref(e.a))
	case OExtract:
		body = fmt.Sprintf("((_ extract %d %d) %s)", e.val+uint64(e.w)-1, e.val, s.ref(e.a))
	case OConcat:
		body = bin("concat")
	}
	fmt.Fprintf(w, "(define-fun t%d () %s %s)\n", e.id, sortName(e.w), body)
}

func (s *Solver) define2(e *Expr) {
	if e != nil {
		s.define(e)
	}
}

// support lists the variables and byte sources below e (cached per term).
func (s *Solver) support(e *Expr) map[string]struct{} {
	if e.sup != nil {
		return e.sup
	}
	m := map[string]struct{}{}
	s.visit++
	var rec func(x *Expr)
	rec = func(x *Expr) {
		if x == nil || x.op == OConst || x.seenGen == s.visit {
			return
		}
		x.seenGen = s.visit
		if x.sup != nil {
			for k := range x.sup {
				m[k] = struct{}{}
			}
			return
		}
		switch x.op {
		case OVar:
			m[x.name] = struct{}{}
		case ORead:
			m["@"+x.name] = struct{}{}
		case OSum:
			for _, t := range x.terms {
				rec(t.e)
			}
		}
		rec(x.a)
		rec(x.b)
		rec(x.c)
	}
	rec(e)
	e.sup = m
	return m
}

func (s *Solver) leaves(es []*Expr) (vars, reads []*Expr) {
	s.visit++
	var rec func(x *Expr)
	rec = func(x *Expr) {
		if x == nil || x.op == OConst || x.seenGen == s.visit {
			return
		}
		x.seenGen = s.visit
		switch x.op {
		case OVar:
			vars = append(vars, x)
		case ORead:
			reads = append(reads, x)
		case OSum:
			for _, t := range x.terms {
				rec(t.e)
			}
		}
		rec(x.a)
		rec(x.b)
		rec(x.c)
	}
	for _, e := range es {
		rec(e)
	}
	return
}

// Check decides pc ∧ cond. base must satisfy pc (it supplies the values of the
// variables that cond does not depend on); it may be nil, then all of pc is sent.
func (s *Solver) Check(pc []*Expr, cond *Expr, base *Model) (Result, *Model) {
	if cond.isFalse() {
		return Unsat, nil
	}
	// slice
	var sel []*Expr
	if base != nil {
		need := map[string]struct{}{}
		for k := range s.support(cond) {
			need[k] = struct{}{}
		}
		rest := pc
		for {
			var next []*Expr
			changed := false
			for _, p := range rest {
				hit := false
				sp := s.support(p)
				for k := range sp {
					if _, ok := need[k]; ok {
						hit = true
						break
					}
				}
				if hit {
					sel = append(sel, p)
					for k := range sp {
						if _, ok := need[k]; !ok {
							need[k] = struct{}{}
							changed = true
						}
					}
				} else {
					next = append(next, p)
				}
			}
			rest = next
			if !changed {
				break
			}
		}
	} else {
		sel = append(sel, pc...)
	}
	ids := make([]int, 0, len(sel)+1)
	for _, p := range sel {
		ids = append(ids, p.id)
	}
	sort.Ints(ids)
	var kb strings.Builder
	fmt.Fprintf(&kb, "%d|", cond.id)
	last := -1
	for _, i := range ids {
		if i != last {
			kb.WriteString(strconv.Itoa(i))
			kb.WriteByte(',')
		}
		last = i
	}
	key := kb.String()
	s.Queries++
	r, ok := s.cache[key]
	if ok {
		s.CacheHits++
	} else {
		t0 := time.Now()
		r = s.solve(append(sel, cond))
		d := time.Since(t0)
		s.Time += d
		if d > s.MaxTime {
			s.MaxTime = d
			s.Slow = cond.str(4)
		}
		if len(s.cache) > 200000 {
			s.cache = map[string]*cached{}
		}
		s.cache[key] = r
	}
	switch r.r {
	case Unsat:
		s.NUnsat++
		return Unsat, nil
	case Unknown:
		s.NUnknown++
		return Unknown, nil
	}
	s.NSat++
	m := newModel()
	if base != nil {
		for k, v := range base.vars {
			m.vars[k] = v
		}
		for k, v := range base.reads {
			m.reads[k] = v
		}
	}
	for k, v := range r.vars {
		m.vars[k] = v
	}
	for k, v := range r.rds {
		m.reads[k] = v
	}
	return Sat, m
}

func (s *Solver) solve(cs []*Expr) *cached {
	for try := 0; try < 2; try++ {
		if s.cmd != nil && s.defined > 60000 {
			s.Close()
		}
		if s.cmd == nil {
			if err := s.start(); err != nil {
				return &cached{r: Unknown}
			}
		}
		r, err := s.solve1(cs)
		if err == nil {
			if r.r == Unknown {
				return s.second(cs)
			}
			return r
		}
		s.Close()
	}
	return s.second(cs)
}

// second asks the newer z3 with a fresh process.
func (s *Solver) second(cs []*Expr) *cached {
	o := &Solver{c: s.c, bin: "z3-new", timeout: s.timeout * 2, gen: s.gen + 1000000, visit: s.visit}
	if s.bin == "z3-new" {
		o.bin = "z3"
	}
	if err := o.start(); err != nil {
		return &cached{r: Unknown}
	}
	defer o.Close()
	r, err := o.solve1(cs)
	s.gen += 2 // emitted marks were overwritten; restart to be safe
	s.visit = o.visit
	s.Close()
	if err != nil {
		return &cached{r: Unknown}
	}
	return r
}

func (s *Solver) solve1(cs []*Expr) (*cached, error) {
	vars, reads := s.leaves(cs)
	for _, e := range cs {
		s.define(e)
	}
	for _, r := range reads {
		s.define(r)
	}
	w := s.in
	w.WriteString("(push)\n")
	for _, v := range vars {
		if v.w > 0 {
			if v.lo > minS(v.w) {
				fmt.Fprintf(w, "(assert (bvsge %s %s))\n", quote(v.name), bvconst(uint64(v.lo), v.w))
			}
			if v.hi < maxS(v.w) {
				fmt.Fprintf(w, "(assert (bvsle %s %s))\n", quote(v.name), bvconst(uint64(v.hi), v.w))
			}
		}
	}
	for _, e := range cs {
		fmt.Fprintf(w, "(assert %s)\n", s.ref(e))
	}
	w.WriteString("(check-sat)\n")
	// z3 does not look at its timeout everywhere
	cmd := s.cmd
	var late atomic.Bool
	dog := time.AfterFunc(time.Duration(s.timeout)*time.Millisecond*5/4+2*time.Second, func() {
		late.Store(true)
		cmd.Process.Kill()
	})
	defer dog.Stop()
	if err := w.Flush(); err != nil && !late.Load() {
		return nil, err
	}
	line, err := s.readLine()
	if late.Load() {
		s.Close()
		return &cached{r: Unknown}, nil
	}
	if err != nil {
		return nil, err
	}
	switch line {
	case "unsat":
		w.WriteString("(pop)\n")
		return &cached{r: Unsat}, nil
	case "unknown", "timeout":
		w.WriteString("(pop)\n")
		return &cached{r: Unknown}, nil
	case "sat":
	default:
		return nil, fmt.Errorf("solver: %s", line)
	}
	res := &cached{r: Sat, vars: map[string]uint64{}, rds: map[string]map[uint64]uint64{}}
	var terms []string
	for _, v := range vars {
		terms = append(terms, quote(v.name))
	}
	for _, r := range reads {
		if r.a.op != OConst {
			terms = append(terms, s.ref(r.a))
		}
		terms = append(terms, s.ref(r))
	}
	if len(terms) > 0 {
		w.WriteString("(get-value (" + strings.Join(terms, " ") + "))\n")
		if err := w.Flush(); err != nil {
			return nil, err
		}
		txt, err := s.readSexp()
		if err != nil {
			return nil, err
		}
		vals, err := parseValues(txt)
		if err != nil {
			return nil, err
		}
		if len(vals) != len(terms) {
			return nil, fmt.Errorf("get-value: %d values for %d terms: %s", len(vals), len(terms), txt)
		}
		k := 0
		for _, v := range vars {
			res.vars[v.name] = vals[k]
			k++
		}
		for _, r := range reads {
			idx := r.a.val
			if r.a.op != OConst {
				idx = vals[k]
				k++
			}
			if res.rds[r.name] == nil {
				res.rds[r.name] = map[uint64]uint64{}
			}
			res.rds[r.name][idx] = vals[k]
			k++
		}
	}
	w.WriteString("(pop)\n")
	return res, nil
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	inq := false
	started := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(b)
		switch {
		case b == '|':
			inq = !inq
		case inq:
		case b == '(':
			depth++
			started = true
		case b == ')':
			depth--
			if started && depth == 0 {
				return sb.String(), nil
			}
		}
	}
}

// parseValues extracts the value of each pair of a get-value answer.
func parseValues(t string) ([]uint64, error) {
	var out []uint64
	// tokens
	depth := 0
	i := 0
	var tok []string
	for i < len(t) {
		ch := t[i]
		switch {
		case ch == '|':
			j := strings.IndexByte(t[i+1:], '|') + i + 2
			if depth == 2 {
				tok = append(tok, t[i:j])
			}
			i = j
		case ch == '(':
			depth++
			if depth == 2 {
				tok = nil
			} else if depth == 3 {
				// (_ bvN w)
				j := strings.IndexByte(t[i:], ')') + i
				f := strings.Fields(t[i+1 : j])
				if len(f) == 3 && f[0] == "_" && strings.HasPrefix(f[1], "bv") {
					tok = append(tok, "#d"+f[1][2:])
				} else {
					return nil, fmt.Errorf("value %q", t[i:j+1])
				}
				depth--
				i = j + 1
				continue
			}
			i++
		case ch == ')':
			depth--
			if depth == 1 {
				v, err := parseVal(tok[len(tok)-1])
				if err != nil {
					return nil, err
				}
				out = append(out, v)
			}
			i++
		case ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r':
			i++
		default:
			j := i
			for j < len(t) && !strings.ContainsRune("() \n\t\r", rune(t[j])) {
				j++
			}
			tok = append(tok, t[i:j])
			i = j
		}
	}
	return out, nil
}

func parseVal(s string) (uint64, error) {
	switch {
	case s == "true":
		return 1, nil
	case s == "false":
		return 0, nil
	case strings.HasPrefix(s, "#x"):
		return strconv.ParseUint(s[2:], 16, 64)
	case strings.HasPrefix(s, "#b"):
		return strconv.ParseUint(s[2:], 2, 64)
	case strings.HasPrefix(s, "#d"):
		return strconv.ParseUint(s[2:], 10, 64)
	}
	return 0, fmt.Errorf("bad value %q", s)
}
