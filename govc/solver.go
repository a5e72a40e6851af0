package main

import (
	"bufio"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// Solver drives z3 (persistent, one per verification task) with a portfolio fallback.
var solverScale = 1

type Solver struct {
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	Queries  int
	Quick    int
	TotalMs  int64
	BySolver map[string]int
	primaryT int // ms
	deepT    int // ms
	seed     string
	dumpDir  string
	cache    map[string]string
}

func NewSolver(primary, deep int) *Solver {
	return &Solver{BySolver: map[string]int{}, primaryT: primary, deepT: deep, cache: map[string]string{}}
}

var z3bin = func() string {
	if p, err := exec.LookPath("z3-new"); err == nil {
		return p
	}
	return "z3"
}()

func (s *Solver) start() error {
	s.cmd = exec.Command(z3bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<20)
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// ask sends a script to the persistent process and returns all output up to a sentinel.
func (s *Solver) ask(script string, tms int) string {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return "error " + err.Error()
		}
	}
	type res struct{ s string }
	ch := make(chan res, 1)
	cmd := s.cmd
	go func() {
		fmt.Fprintf(s.in, "(reset)\n(set-option :timeout %d)\n%s\n(echo \"~~done\")\n", tms, script)
		var sb strings.Builder
		for {
			ln, err := s.out.ReadString('\n')
			if err != nil {
				ch <- res{"error io " + err.Error()}
				return
			}
			if strings.HasPrefix(ln, "~~done") {
				ch <- res{sb.String()}
				return
			}
			sb.WriteString(ln)
		}
	}()
	select {
	case r := <-ch:
		if strings.HasPrefix(r.s, "error io") {
			s.Close()
		}
		return r.s
	case <-time.After(time.Duration(tms)*time.Millisecond + 8*time.Second):
		cmd.Process.Kill()
		s.cmd = nil
		go cmd.Wait()
		return "unknown\n"
	}
}

func firstWord(s string) string {
	for _, ln := range strings.Split(s, "\n") {
		ln = strings.TrimSpace(ln)
		if ln == "sat" || ln == "unsat" || ln == "unknown" {
			return ln
		}
		if strings.HasPrefix(ln, "(error") {
			return "error " + ln
		}
		if ln == "timeout" {
			return "unknown"
		}
	}
	return "unknown"
}

var dbgErr sync.Once

func (s *Solver) quick(x *Exec, asserts []*Term) string { return s.quickT(x, asserts, 1500) }

func (s *Solver) quickT(x *Exec, asserts []*Term, t int) string {
	for _, a := range asserts {
		if a == x.B.False {
			return "unsat"
		}
	}
	q := x.B.Query(asserts, "")
	h := sha256.Sum256([]byte(q))
	k := string(h[:])
	if r, ok := s.cache[k]; ok {
		return r
	}
	s.Quick++
	t0 := time.Now()
	r := firstWord(s.ask(q, t))
	s.TotalMs += time.Since(t0).Milliseconds()
	if d := time.Since(t0).Milliseconds(); slowMs > 0 && d > slowMs {
		fmt.Fprintf(os.Stderr, "SLOW quick %dms %s (%d bytes) goal %s\n", d, r, len(q), clip(asserts[len(asserts)-1].String(), 200))
		if s.dumpDir != "" {
			os.WriteFile(fmt.Sprintf("%s/slow%d.smt2", s.dumpDir, s.Quick), []byte(q), 0644)
		}
	}
	if strings.HasPrefix(r, "error") {
		dbgErr.Do(func() {
			fmt.Fprintln(os.Stderr, "SOLVER ERROR:", r)
			os.WriteFile("/tmp/govc_err.smt2", []byte(q), 0644)
		})
	}
	s.cache[k] = r
	return r
}

// job is one obligation handed to the solver pool. The texts are produced by the
// symbolic execution; only text is shared with the worker.
type job struct {
	x      *Exec
	vc     *VC
	alt    string   // the query with the typing facts of whole heaps
	first  string   // tried briefly first, most aggressive first
	slim   []string // without the quantified hypotheses that look unrelated, most aggressive first
	q      string
	gv     []string
	failed func()
}

var (
	poolOnce sync.Once
	poolCh   chan *job
)

func startPool(n int) {
	poolOnce.Do(func() {
		poolCh = make(chan *job, 256)
		for i := 0; i < n; i++ {
			go func() {
				s := NewSolver(8000*solverScale, 40000*solverScale)
				for j := range poolCh {
					s.run(j)
					j.x.wg.Done()
				}
			}()
		}
	})
}

func (s *Solver) run(j *job) {
	x := j.x
	h := sha256.Sum256([]byte(j.q))
	k := string(h[:])
	x.mu.Lock()
	c, ok := x.cacheVC[k]
	late := x.budgetNs > 0 && time.Now().UnixNano()-x.startNs > x.budgetNs
	x.mu.Unlock()
	name, detail, path := j.vc.Name, j.vc.Detail, j.vc.Path
	if ok {
		*j.vc = *c
	} else if late {
		j.vc.Status = "unknown"
		j.vc.Detail = "not attempted: time budget of the function is used up"
	} else {
		s.solve(j, k)
	}
	x.mu.Lock()
	v := *j.vc
	x.cacheVC[k] = &v
	j.vc.Name, j.vc.Path = name, path
	if j.vc.Detail == "" || ok {
		j.vc.Detail = detail
	}
	x.poolMs += v.Ms
	if j.vc.Status != "proved" {
		x.failed[name]++
	}
	x.mu.Unlock()
}

func (s *Solver) solve(j *job, k string) {
	t0 := time.Now()
	vc := j.vc
	r := ""
	vc.Solver = filepath.Base(z3bin)
	if j.first != "" {
		if r = firstWord(s.ask(j.first, 600)); r != "unsat" {
			r = ""
		}
	}
	for i, q := range j.slim {
		if r == "" {
			t := 2500
			if i < len(j.slim)-1 {
				t = 1000
			}
			if r = firstWord(s.ask(q, t)); r != "unsat" {
				r = ""
			}
		}
	}
	if r == "" {
		out := s.ask(j.q, s.primaryT)
		r = firstWord(out)
		if r == "sat" && len(j.gv) > 0 {
			// ask for model values within the same context
			vc.Model = parseValues(s.ask2("(get-value (" + strings.Join(j.gv, " ") + "))"))
		}
		if r != "unsat" && j.alt != "" {
			if firstWord(s.ask(j.alt, s.primaryT)) == "unsat" {
				r = "unsat"
			}
		}
		if r != "unsat" && r != "sat" {
			if strings.HasPrefix(r, "error") {
				fmt.Fprintln(os.Stderr, "SOLVER ERROR:", r)
				os.WriteFile("/tmp/govc_err.smt2", []byte(j.q), 0644)
			}
			r2, who := "", ""
			for _, q := range j.slim {
				if r2 == "" && firstWord(s.ask(q, s.primaryT)) == "unsat" {
					r2, who = "unsat", vc.Solver
				}
			}
			// portfolio
			if r2 == "" {
				r2, who = portfolio(j.q, s.deepT)
			}
			if r2 == "unsat" || r2 == "sat" {
				r = r2
				vc.Solver = who
			}
		}
	}
	vc.Ms = time.Since(t0).Milliseconds()
	if slowMs > 0 && vc.Ms > slowMs {
		fmt.Fprintf(os.Stderr, "SLOW prove %dms %s (%d bytes) %s\n", vc.Ms, r, len(j.q), vc.Name)
	}
	switch r {
	case "unsat":
		vc.Status = "proved"
	case "sat":
		vc.Status = "refuted"
	default:
		vc.Status = "unknown"
	}
	if d := j.x.solver.dumpDir; d != "" && vc.Status != "proved" {
		os.MkdirAll(d, 0755)
		f := filepath.Join(d, hex.EncodeToString([]byte(k)[:6])+".smt2")
		os.WriteFile(f, []byte(j.q), 0644)
		vc.Query = f
	}
}

// ask2 continues in the current context (no reset).
func (s *Solver) ask2(script string) string {
	if s.cmd == nil {
		return ""
	}
	fmt.Fprintf(s.in, "%s\n(echo \"~~done\")\n", script)
	var sb strings.Builder
	for {
		ln, err := s.out.ReadString('\n')
		if err != nil {
			s.Close()
			return ""
		}
		if strings.HasPrefix(ln, "~~done") {
			return sb.String()
		}
		sb.WriteString(ln)
	}
}

func parseValues(s string) map[string]string {
	m := map[string]string{}
	// ((name val) (name val) ...)
	s = strings.TrimSpace(s)
	if !strings.HasPrefix(s, "((") {
		return m
	}
	depth := 0
	start := -1
	inBar := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if c == '(' {
			depth++
			if depth == 2 {
				start = i + 1
			}
		} else if c == ')' {
			if depth == 2 && start >= 0 {
				item := s[start:i]
				var name, val string
				if strings.HasPrefix(item, "|") {
					k := strings.Index(item[1:], "|") + 1
					name, val = item[1:k], strings.TrimSpace(item[k+1:])
				} else if k := strings.IndexAny(item, " \n"); k > 0 {
					name, val = item[:k], strings.TrimSpace(item[k:])
				}
				val = strings.ReplaceAll(val, "(- ", "-")
				if strings.HasPrefix(val, "-") {
					val = strings.TrimSuffix(val, ")")
				}
				m[name] = strings.TrimSpace(val)
				start = -1
			}
			depth--
		}
	}
	return m
}

func portfolio(q string, tms int) (string, string) {
	type prover struct {
		name string
		args []string
	}
	secs := tms/1000 + 1
	jobs := []prover{
		{"z3-new", []string{fmt.Sprintf("-T:%d", secs), "smt.random_seed=7", "-in", "-smt2"}},
		{"z3", []string{fmt.Sprintf("-T:%d", secs), "-in", "-smt2"}},
		{"cvc5", []string{fmt.Sprintf("--tlimit=%d", tms), "--lang=smt2"}},
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(tms+3000)*time.Millisecond)
	defer cancel()
	type res struct{ r, who string }
	ch := make(chan res, len(jobs))
	n := 0
	for _, j := range jobs {
		if _, err := exec.LookPath(j.name); err != nil {
			continue
		}
		n++
		go func(j prover) {
			c := exec.CommandContext(ctx, j.name, j.args...)
			c.Stdin = strings.NewReader(q)
			o, _ := c.Output()
			ch <- res{firstWord(string(o)), j.name}
		}(j)
	}
	for i := 0; i < n; i++ {
		r := <-ch
		if r.r == "unsat" || r.r == "sat" {
			return r.r, r.who
		}
	}
	return "unknown", ""
}

var slowMs = func() int64 {
	var n int64
	fmt.Sscanf(os.Getenv("GOVC_SLOW"), "%d", &n)
	return n
}()

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
