package main

import (
	"bufio"
	"fmt"
	"io"
	"math"
	"math/big"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

// Solver wraps one z3 process kept alive over many queries.
type Solver struct {
	bin     string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inC     io.Closer
	out     *bufio.Reader
	gen     int
	stack   []*Term // asserted path condition, one push level each
	nref    int
	timeout int
	log     io.Writer

	Queries  int
	SatN     int
	UnsatN   int
	UnknownN int
	Time     time.Duration
	dead     bool
	nonlin   bool
}

func newSolver(bin string, timeoutMS int) *Solver {
	s := &Solver{bin: bin, timeout: timeoutMS}
	if f := os.Getenv("SYMGO_SMTLOG"); f != "" {
		fh, _ := os.OpenFile(fmt.Sprintf("%s.%p", f, s), os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
		s.log = fh
	}
	s.start()
	return s
}

func (s *Solver) start() {
	s.gen++
	s.stack = nil
	s.nref = 0
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	w, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.inC = w
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.send("(set-option :global-declarations true)\n(set-option :print-success false)\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 30)\n")
	s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout))
}

func (s *Solver) close() {
	s.inC.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *Solver) restart() {
	s.close()
	s.start()
}

func (s *Solver) send(str string) {
	if s.log != nil {
		io.WriteString(s.log, str)
	}
	s.in.WriteString(str)
}

func ratSMT(r *big.Rat) string {
	n := new(big.Int).Abs(r.Num())
	var str string
	if r.IsInt() {
		str = n.String() + ".0"
	} else {
		str = "(/ " + n.String() + ".0 " + r.Denom().String() + ".0)"
	}
	if r.Sign() < 0 {
		return "(- " + str + ")"
	}
	return str
}

// ref returns an SMT expression for t, emitting definitions as needed.
func (s *Solver) ref(t *Term) string {
	if t.gen == s.gen && t.ref != "" {
		return t.ref
	}
	set := func(r string) string {
		t.ref = r
		t.gen = s.gen
		return r
	}
	switch t.op {
	case OConst:
		switch t.sort {
		case SBool:
			if t.u == 1 {
				return set("true")
			}
			return set("false")
		case SFlt:
			return set(fmt.Sprintf("((_ to_fp 11 53) #x%016x)", math.Float64bits(t.f)))
		default:
			return set(fmt.Sprintf("(_ bv%d %d)", t.u, t.sort.bits()))
		}
	case OVar:
		s.send("(declare-const |" + t.name + "| " + t.sort.smt() + ")\n")
		return set("|" + t.name + "|")
	}
	body := s.body(t)
	if t.op == OLin && len(t.ms) == 0 {
		return set(body)
	}
	s.nref++
	name := "d" + strconv.Itoa(s.nref)
	s.send("(define-fun " + name + " () " + t.sort.smt() + " " + body + ")\n")
	return set(name)
}

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite",
	OBAdd: "bvadd", OBSub: "bvsub", OBMul: "bvmul", OBUDiv: "bvudiv", OBSDiv: "bvsdiv",
	OBURem: "bvurem", OBSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OBShl: "bvshl", OBLShr: "bvlshr", OBAShr: "bvashr", OBULt: "bvult", OBULe: "bvule",
	OBSLt: "bvslt", OBSLe: "bvsle", OMulR: "*",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE",
	OFNeg: "fp.neg", OFAbs: "fp.abs", OFSqrt: "fp.sqrt RNE", OFLt: "fp.lt", OFLe: "fp.leq",
	OFEq: "fp.eq", OFIsNaN: "fp.isNaN", OFIsInf: "fp.isInfinite",
	OFFromS: "(_ to_fp 11 53) RNE", OFFromU: "(_ to_fp_unsigned 11 53) RNE",
	OFToS: "(_ fp.to_sbv 64) RTZ",
}

func (s *Solver) body(t *Term) string {
	switch t.op {
	case OLin:
		if len(t.ms) == 0 {
			return ratSMT(t.k)
		}
		var parts []string
		if t.k.Sign() != 0 {
			parts = append(parts, ratSMT(t.k))
		}
		for _, m := range t.ms {
			r := s.ref(m.t)
			if m.c.Cmp(ratOne) == 0 {
				parts = append(parts, r)
			} else {
				parts = append(parts, "(* "+ratSMT(m.c)+" "+r+")")
			}
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return "(+ " + strings.Join(parts, " ") + ")"
	case ORLe0, ORLt0, OREq0:
		op := map[Op]string{ORLe0: "<=", ORLt0: "<", OREq0: "="}[t.op]
		return "(" + op + " " + s.ref(t.a[0]) + " 0.0)"
	case OExt:
		a := s.ref(t.a[0])
		from, to := t.a[0].sort.bits(), t.sort.bits()
		switch {
		case to < from:
			return fmt.Sprintf("((_ extract %d 0) %s)", to-1, a)
		case t.u == 1:
			return fmt.Sprintf("((_ sign_extend %d) %s)", to-from, a)
		default:
			return fmt.Sprintf("((_ zero_extend %d) %s)", to-from, a)
		}
	}
	n, ok := opNames[t.op]
	if !ok {
		panic(fmt.Sprintf("smt: op %d", t.op))
	}
	parts := []string{"(" + n}
	for _, a := range t.a {
		parts = append(parts, s.ref(a))
	}
	return strings.Join(parts, " ") + ")"
}

// sync makes the assertion stack equal to pc.
func (s *Solver) sync(pc []*Term) {
	i := 0
	for i < len(pc) && i < len(s.stack) && pc[i] == s.stack[i] {
		i++
	}
	if n := len(s.stack) - i; n > 0 {
		s.send(fmt.Sprintf("(pop %d)\n", n))
		s.stack = s.stack[:i]
	}
	for ; i < len(pc); i++ {
		r := s.ref(pc[i])
		s.send("(push 1)\n(assert " + r + ")\n")
		s.stack = append(s.stack, pc[i])
	}
}

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		s.dead = true
		return "(error \"solver died: " + err.Error() + "\")"
	}
	return strings.TrimSpace(l)
}

// check decides pc /\ c; when wantModel and the answer is Sat, values of vars are returned.
func (s *Solver) check(pc []*Term, c *Term, vars []*Term, wantModel bool) (Result, Model) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	if s.nref > 400000 {
		s.restart()
	}
	pushed := c != nil
	pose := func(cmd string) Result {
		s.sync(pc)
		r := ""
		if pushed {
			r = s.ref(c)
		}
		for _, v := range vars {
			s.ref(v)
		}
		if pushed {
			s.send("(push 1)\n(assert " + r + ")\n")
		}
		s.send(cmd + "\n")
		s.in.Flush()
		return s.answer()
	}
	res := pose("(check-sat)")
	if res == Unknown && s.nonlin {
		const nlsat = "(check-sat-using (then simplify solve-eqs qfnra-nlsat))"
		if s.dead {
			s.dead = false
			s.restart()
			res = pose(nlsat)
		} else {
			s.send(nlsat + "\n")
			s.in.Flush()
			res = s.answer()
		}
	}
	var m Model
	if res == Sat && wantModel {
		m = s.model(vars)
	}
	if s.dead {
		s.dead = false
		s.restart()
		s.UnknownN++
		return Unknown, nil
	}
	if pushed {
		s.send("(pop 1)\n")
	}
	switch res {
	case Sat:
		s.SatN++
	case Unsat:
		s.UnsatN++
	default:
		s.UnknownN++
	}
	return res, m
}

// answer reads one verdict; a solver that overruns its own time limit by far is ended and counts as not having answered.
func (s *Solver) answer() Result {
	cmd := s.cmd
	t := time.AfterFunc(time.Duration(s.timeout)*3/2*time.Millisecond+2*time.Second, func() { cmd.Process.Kill() })
	defer t.Stop()
	for {
		l := s.readLine()
		switch {
		case l == "sat":
			return Sat
		case l == "unsat":
			return Unsat
		case l == "unknown" || l == "timeout":
			return Unknown
		case strings.HasPrefix(l, "(error"):
			fmt.Fprintln(os.Stderr, "SOLVER ERROR:", l)
			if s.dead {
				return Unknown
			}
			// The error line belongs to an earlier command or to check-sat itself: resynchronise.
			s.dead = true
			return Unknown
		case l == "":
			continue
		default:
			fmt.Fprintln(os.Stderr, "SOLVER OUTPUT:", l)
		}
	}
}

func (s *Solver) model(vars []*Term) Model {
	m := Model{}
	if len(vars) == 0 {
		return m
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range vars {
		sb.WriteString(s.ref(v))
		sb.WriteByte(' ')
	}
	sb.WriteString("))\n(echo \"@@\")\n")
	s.send(sb.String())
	s.in.Flush()
	var out strings.Builder
	for {
		l := s.readLine()
		if l == "@@" || l == "\"@@\"" || s.dead {
			break
		}
		out.WriteString(l)
		out.WriteByte(' ')
	}
	e, _ := parseSexp(out.String())
	for i, p := range e.list {
		if len(p.list) == 2 && i < len(vars) {
			m[varName(vars[i])] = parseVal(p.list[1], vars[i])
		}
	}
	return m
}

func varName(t *Term) string {
	if t.op == OLin {
		return t.ms[0].t.name
	}
	return t.name
}

type sexp struct {
	atom string
	list []sexp
}

func parseSexp(str string) (sexp, int) {
	i := 0
	var parse func() sexp
	parse = func() sexp {
		for i < len(str) && (str[i] == ' ' || str[i] == '\n') {
			i++
		}
		if i >= len(str) {
			return sexp{}
		}
		if str[i] == '(' {
			i++
			var l []sexp
			for {
				for i < len(str) && (str[i] == ' ' || str[i] == '\n') {
					i++
				}
				if i >= len(str) || str[i] == ')' {
					i++
					return sexp{list: l}
				}
				l = append(l, parse())
			}
		}
		if str[i] == '|' {
			j := strings.IndexByte(str[i+1:], '|') + i + 1
			a := str[i+1 : j]
			i = j + 1
			return sexp{atom: a}
		}
		j := i
		for j < len(str) && str[j] != ' ' && str[j] != ')' && str[j] != '(' {
			j++
		}
		a := str[i:j]
		i = j
		return sexp{atom: a}
	}
	return parse(), i
}

func parseBits(a string) uint64 {
	if strings.HasPrefix(a, "#x") {
		u, _ := strconv.ParseUint(a[2:], 16, 64)
		return u
	}
	if strings.HasPrefix(a, "#b") {
		u, _ := strconv.ParseUint(a[2:], 2, 64)
		return u
	}
	return 0
}

func parseReal(e sexp) *big.Rat {
	if e.list == nil {
		a := strings.TrimSuffix(e.atom, "?")
		r := new(big.Rat)
		if _, ok := r.SetString(a); !ok {
			return new(big.Rat)
		}
		return r
	}
	if len(e.list) == 0 {
		return new(big.Rat)
	}
	switch e.list[0].atom {
	case "-":
		return new(big.Rat).Neg(parseReal(e.list[1]))
	case "/":
		d := parseReal(e.list[2])
		if d.Sign() == 0 {
			return new(big.Rat)
		}
		return new(big.Rat).Quo(parseReal(e.list[1]), d)
	}
	return new(big.Rat)
}

func parseVal(e sexp, t *Term) Val {
	switch t.sort {
	case SBool:
		return boolVal(e.atom == "true")
	case SReal:
		return Val{r: parseReal(e)}
	case SFP:
		if len(e.list) == 4 && e.list[0].atom == "fp" {
			sg := parseBits(e.list[1].atom)
			ex := parseBits(e.list[2].atom)
			mt := parseBits(e.list[3].atom)
			return Val{f: math.Float64frombits(sg<<63 | ex<<52 | mt)}
		}
		if len(e.list) >= 2 {
			switch e.list[1].atom {
			case "NaN":
				return Val{f: math.NaN()}
			case "+oo":
				return Val{f: math.Inf(1)}
			case "-oo":
				return Val{f: math.Inf(-1)}
			case "+zero":
				return Val{f: 0}
			case "-zero":
				return Val{f: math.Copysign(0, -1)}
			}
		}
		return Val{}
	default:
		if len(e.list) == 3 { // (_ bvN w)
			u, _ := strconv.ParseUint(strings.TrimPrefix(e.list[1].atom, "bv"), 10, 64)
			return Val{u: u}
		}
		return Val{u: parseBits(e.atom)}
	}
}
