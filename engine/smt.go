package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"time"
)

type Solver struct {
	name    string
	args    []string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	buf     strings.Builder
	defd    map[*Var]bool
	defT    map[*Term]bool
	ndef    int
	Queries int
	Sat     int
	Unsat   int
	Unknown int
	Errors  int
	Time    time.Duration
}

func newSolver(name string, args ...string) *Solver { return &Solver{name: name, args: args} }

func (s *Solver) start(tm *TM) {
	s.stop()
	s.cmd = exec.Command(s.name, s.args...)
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		fatal("cannot start solver %s: %v", s.name, err)
	}
	s.in = in
	s.out = bufio.NewReader(out)
	s.defd = map[*Var]bool{}
	s.defT = map[*Term]bool{}
	s.ndef = 0
	s.buf.Reset()
	s.buf.WriteString("(set-option :print-success false)\n(set-option :produce-models true)\n")
	if strings.Contains(s.name, "z3") {
		s.buf.WriteString("(set-option :global-declarations true)\n(set-option :timeout 20000)\n")
	} else {
		s.buf.WriteString("(set-option :global-declarations true)\n")
	}
	s.buf.WriteString("(set-logic QF_BV)\n")
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func bvlit(w uint8, k uint64) string { return fmt.Sprintf("(_ bv%d %d)", k&mask(w), w) }

func (s *Solver) declVar(v *Var) {
	if s.defd[v] {
		return
	}
	s.defd[v] = true
	fmt.Fprintf(&s.buf, "(declare-const v%d (_ BitVec 8))\n", v.gid)
}

func (s *Solver) ref(t *Term) string {
	if t.kind == KConst {
		if t.w == 1 {
			if t.k == 1 {
				return "true"
			}
			return "false"
		}
		return bvlit(t.w, t.k)
	}
	return fmt.Sprintf("t%d", t.id)
}

// define emits a definition for t (and its subterms) once per session.
func (s *Solver) define(t *Term) {
	if t.kind == KConst || s.defT[t] {
		return
	}
	for _, a := range t.args {
		s.define(a)
	}
	var body string
	switch t.kind {
	case KTab:
		s.declVar(t.v)
		if t.w == 1 {
			body = predBody(t)
		} else {
			body = tabBody(t)
		}
	case KSum:
		var b strings.Builder
		b.WriteString("(bvadd " + bvlit(t.w, t.k))
		for _, p := range t.args {
			b.WriteString(" " + s.ref(p))
		}
		b.WriteString(")")
		body = b.String()
	case KNot:
		body = "(not " + s.ref(t.args[0]) + ")"
	case KAnd, KOr:
		var b strings.Builder
		if t.kind == KAnd {
			b.WriteString("(and")
		} else {
			b.WriteString("(or")
		}
		for _, a := range t.args {
			b.WriteString(" " + s.ref(a))
		}
		b.WriteString(")")
		body = b.String()
	case KTrunc:
		body = fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, s.ref(t.args[0]))
	case KZext:
		if t.args[0].w == 1 {
			body = fmt.Sprintf("(ite %s %s %s)", s.ref(t.args[0]), bvlit(t.w, 1), bvlit(t.w, 0))
		} else {
			body = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.args[0].w, s.ref(t.args[0]))
		}
	case KSext:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, s.ref(t.args[0]))
	case KIte:
		body = fmt.Sprintf("(ite %s %s %s)", s.ref(t.args[0]), s.ref(t.args[1]), s.ref(t.args[2]))
	default:
		name := map[Kind]string{KEq: "=", KUlt: "bvult", KSlt: "bvslt", KAdd: "bvadd", KMul: "bvmul", KUDiv: "bvudiv", KURem: "bvurem", KSDiv: "bvsdiv", KSRem: "bvsrem", KBAnd: "bvand", KBOr: "bvor", KBXor: "bvxor", KShl: "bvshl", KLshr: "bvlshr", KAshr: "bvashr"}[t.kind]
		if t.w == 1 && t.args[0].w == 1 && t.kind != KEq {
			switch t.kind {
			case KBXor:
				name = "xor"
			case KBAnd:
				name = "and"
			case KBOr:
				name = "or"
			}
		}
		body = fmt.Sprintf("(%s %s %s)", name, s.ref(t.args[0]), s.ref(t.args[1]))
	}
	sort := "Bool"
	if t.w != 1 {
		sort = fmt.Sprintf("(_ BitVec %d)", t.w)
	}
	fmt.Fprintf(&s.buf, "(define-fun t%d () %s %s)\n", t.id, sort, body)
	s.ndef++
	s.defT[t] = true
}

func rangesOf(v *Var, n int, in func(i int) bool) string {
	var parts []string
	for i := 0; i < n; {
		if !in(i) {
			i++
			continue
		}
		j := i
		for j+1 < n && in(j+1) {
			j++
		}
		switch {
		case i == j:
			parts = append(parts, fmt.Sprintf("(= v%d (_ bv%d 8))", v.gid, i))
		case i == 0:
			parts = append(parts, fmt.Sprintf("(bvule v%d (_ bv%d 8))", v.gid, j))
		case j == 255:
			parts = append(parts, fmt.Sprintf("(bvuge v%d (_ bv%d 8))", v.gid, i))
		default:
			parts = append(parts, fmt.Sprintf("(and (bvuge v%d (_ bv%d 8)) (bvule v%d (_ bv%d 8)))", v.gid, i, v.gid, j))
		}
		i = j + 1
	}
	switch len(parts) {
	case 0:
		return "false"
	case 1:
		return parts[0]
	}
	return "(or " + strings.Join(parts, " ") + ")"
}

func predBody(t *Term) string {
	return rangesOf(t.v, len(t.tab), func(i int) bool { return t.tab[i] != 0 })
}

// tabBody renders a table as an if-chain over maximal affine segments of the
// index variable.
func tabBody(t *Term) string {
	type seg struct {
		from, to int
		a, b     uint64 // value = a*i + b
	}
	m := mask(t.w)
	var segs []seg
	for i := 0; i < len(t.tab); {
		if i+1 == len(t.tab) {
			segs = append(segs, seg{i, i, 0, t.tab[i]})
			break
		}
		a := (t.tab[i+1] - t.tab[i]) & m
		j := i + 1
		for j+1 < len(t.tab) && (t.tab[j+1]-t.tab[j])&m == a {
			j++
		}
		segs = append(segs, seg{i, j, a, (t.tab[i] - a*uint64(i)) & m})
		i = j + 1
	}
	var idx string
	if t.w >= 8 {
		idx = fmt.Sprintf("v%d", t.v.gid)
		if t.w > 8 {
			idx = fmt.Sprintf("((_ zero_extend %d) v%d)", t.w-8, t.v.gid)
		}
	}
	expr := func(g seg) string {
		if g.a == 0 {
			return bvlit(t.w, g.b)
		}
		if g.a == 1 {
			if g.b == 0 {
				return idx
			}
			return fmt.Sprintf("(bvadd %s %s)", idx, bvlit(t.w, g.b))
		}
		return fmt.Sprintf("(bvadd (bvmul %s %s) %s)", bvlit(t.w, g.a), idx, bvlit(t.w, g.b))
	}
	r := expr(segs[len(segs)-1])
	for i := len(segs) - 2; i >= 0; i-- {
		r = fmt.Sprintf("(ite (bvule v%d (_ bv%d 8)) %s %s)", t.v.gid, segs[i].to, expr(segs[i]), r)
	}
	return r
}

type Res int

const (
	UNSAT Res = iota
	SAT
	UNKNOWN
)

// check decides the conjunction of conds under the given domains of the
// variables involved; on SAT it fills model.
func (s *Solver) check(tm *TM, vars []*Var, dom []Bits, conds []*Term, model []uint8) Res {
	if s.cmd == nil || s.ndef > 150000 {
		s.start(tm)
	}
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	for _, v := range vars {
		s.declVar(v)
	}
	for _, c := range conds {
		s.define(c)
	}
	s.buf.WriteString("(push 1)\n")
	for _, v := range vars {
		d := &dom[v.ord]
		if len(v.vals) == 256 && d.count() == 256 {
			continue
		}
		fmt.Fprintf(&s.buf, "(assert %s)\n", rangesOf(v, len(v.vals), d.has))
	}
	for _, c := range conds {
		fmt.Fprintf(&s.buf, "(assert %s)\n", s.ref(c))
	}
	s.buf.WriteString("(check-sat)\n")
	if slowLog {
		sent := s.buf.String()
		defer func() {
			if d := time.Since(t0); d > 300*time.Millisecond {
				if len(sent) > 4000 {
					sent = sent[:1500] + "\n.....\n" + sent[len(sent)-2500:]
				}
				slowQuery(d, sent)
			}
		}()
	}
	if _, err := io.WriteString(s.in, s.buf.String()); err != nil {
		s.Errors++
		s.stop()
		return UNKNOWN
	}
	s.buf.Reset()
	line, err := s.out.ReadString('\n')
	line = strings.TrimSpace(line)
	if err != nil || strings.HasPrefix(line, "(error") {
		s.Errors++
		logf("solver error: %s %v", line, err)
		s.stop()
		return UNKNOWN
	}
	switch line {
	case "unsat":
		s.Unsat++
		s.buf.WriteString("(pop 1)\n")
		return UNSAT
	case "sat":
		s.Sat++
		if model != nil {
			s.buf.WriteString("(get-value (")
			for _, v := range vars {
				fmt.Fprintf(&s.buf, "v%d ", v.gid)
			}
			s.buf.WriteString("))\n")
			if len(vars) > 0 {
				io.WriteString(s.in, s.buf.String())
				s.readModel(vars, model)
			}
			s.buf.Reset()
		}
		s.buf.WriteString("(pop 1)\n")
		return SAT
	}
	s.Unknown++
	logf("solver answered %q", line)
	s.buf.WriteString("(pop 1)\n")
	return UNKNOWN
}

func (s *Solver) readModel(vars []*Var, model []uint8) {
	depth := 0
	var b strings.Builder
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			s.Errors++
			return
		}
		b.WriteByte(c)
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
			if depth == 0 {
				s.out.ReadString('\n')
				break
			}
		}
	}
	by := map[string]*Var{}
	for _, v := range vars {
		by[fmt.Sprintf("v%d", v.gid)] = v
	}
	f := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(b.String()))
	for i := 0; i+1 < len(f); i++ {
		v := by[f[i]]
		if v == nil {
			continue
		}
		var x uint64
		switch {
		case strings.HasPrefix(f[i+1], "#x"):
			fmt.Sscanf(f[i+1][2:], "%x", &x)
		case strings.HasPrefix(f[i+1], "#b"):
			fmt.Sscanf(f[i+1][2:], "%b", &x)
		case f[i+1] == "_" && i+2 < len(f):
			fmt.Sscanf(f[i+2], "bv%d", &x)
		}
		model[v.ord] = uint8(x)
	}
}

var slowLog = os.Getenv("SYM_SLOW") != ""

func slowQuery(d time.Duration, q string) {
	fmt.Fprintf(os.Stderr, "SLOW %v\n%s\n", d, q)
}
