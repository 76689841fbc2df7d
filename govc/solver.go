package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync/atomic"
	"time"
)

// Solver is a persistent z3 process; every query starts from (reset).
type Solver struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	killed chan struct{}
}

type SolverStats struct {
	Queries  int64
	NanosZ3  int64
	Fallback int64
	NanosFB  int64
}

var slowDir = os.Getenv("GOVC_SLOW")
var slowN int64

var gstats SolverStats

func startZ3() (*Solver, error) {
	cmd := exec.Command("z3", "-in", "-smt2")
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &Solver{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<16)}, nil
}

func (s *Solver) close() {
	if s != nil && s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

// deadline ends the run: what is undecided then is reported as not decided.
var deadline time.Time

type outOfTime string

// SMT holds a solver process, restarted on trouble.
type SMT struct {
	s *Solver
}

// check runs a script; values requested with get-value are returned raw.
func (m *SMT) check(script string, ms int, want []string) (res string, vals string) {
	t0 := time.Now()
	if !deadline.IsZero() && t0.After(deadline) {
		panic(outOfTime("the time limit of the run was reached"))
	}
	defer func() {
		atomic.AddInt64(&gstats.Queries, 1)
		atomic.AddInt64(&gstats.NanosZ3, int64(time.Since(t0)))
		if slowDir != "" && time.Since(t0) > 500*time.Millisecond {
			n := atomic.AddInt64(&slowN, 1)
			os.WriteFile(fmt.Sprintf("%s/slow%d-%dms-%s.smt2", slowDir, n, time.Since(t0).Milliseconds(), strings.Fields(res + " x")[0]), []byte("(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.arith.solver 2)\n"+script+"(check-sat)\n"), 0644)
		}
	}()
	for attempt := 0; attempt < 2; attempt++ {
		if m.s == nil {
			s, err := startZ3()
			if err != nil {
				return "error: " + err.Error(), ""
			}
			m.s = s
		}
		var sb strings.Builder
		sb.WriteString("(reset)\n(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.arith.solver 2)\n")
		// The limit is on the solver's work, so that a loaded machine gives
		// the same answers; the time is only a guard.
		fmt.Fprintf(&sb, "(set-option :rlimit %d)\n(set-option :timeout %d)\n", ms*3000, ms*5)
		sb.WriteString(script)
		sb.WriteString("(check-sat)\n")
		sb.WriteString("(echo \"@@done\")\n")
		type ans struct {
			lines []string
			err   error
		}
		ch := make(chan ans, 1)
		sv := m.s
		go func() {
			if _, err := io.WriteString(sv.in, sb.String()); err != nil {
				ch <- ans{nil, err}
				return
			}
			var ls []string
			for {
				l, err := sv.out.ReadString('\n')
				if err != nil {
					ch <- ans{ls, err}
					return
				}
				l = strings.TrimSpace(l)
				if l == "@@done" {
					ch <- ans{ls, nil}
					return
				}
				ls = append(ls, l)
			}
		}()
		var a ans
		select {
		case a = <-ch:
		case <-time.After(time.Duration(ms)*time.Millisecond*6 + 5*time.Second):
			m.s.close()
			m.s = nil
			return "unknown", ""
		}
		if a.err != nil {
			m.s.close()
			m.s = nil
			continue
		}
		res = "unknown"
		for _, l := range a.lines {
			switch l {
			case "sat", "unsat", "unknown", "timeout":
				res = l
			default:
				if strings.HasPrefix(l, "(error") {
					return "error: " + l, ""
				}
			}
		}
		if res == "timeout" {
			res = "unknown"
		}
		if res != "unsat" && len(want) > 0 {
			io.WriteString(m.s.in, "(get-value ("+strings.Join(want, " ")+"))\n(echo \"@@done\")\n")
			for {
				l, err := m.s.out.ReadString('\n')
				if err != nil {
					m.s.close()
					m.s = nil
					break
				}
				if strings.TrimSpace(l) == "@@done" {
					break
				}
				vals += l
			}
		}
		return res, vals
	}
	return "unknown", ""
}

// fallback tries other back ends on a stand-alone script.
func fallback(script string, sec int) (string, string) {
	t0 := time.Now()
	defer func() {
		atomic.AddInt64(&gstats.Fallback, 1)
		atomic.AddInt64(&gstats.NanosFB, int64(time.Since(t0)))
	}()
	type cfg struct {
		name string
		args []string
		pre  string
	}
	cfgs := []cfg{
		{"z3", []string{"z3", "-in", "-smt2", fmt.Sprintf("-T:%d", sec)}, ""},
		{"z3-new", []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", sec)}, ""},
		{"cvc5", []string{"cvc5", "--lang", "smt2", fmt.Sprintf("--tlimit=%d", sec*1000)}, "(set-logic ALL)\n"},
	}
	type r struct{ name, res string }
	ch := make(chan r, len(cfgs))
	var cmds []*exec.Cmd
	for _, c := range cfgs {
		cmd := exec.Command(c.args[0], c.args[1:]...)
		cmd.Stdin = strings.NewReader(c.pre + script + "(check-sat)\n")
		cmds = append(cmds, cmd)
		go func(c cfg, cmd *exec.Cmd) {
			o, _ := cmd.Output()
			res := "unknown"
			for _, l := range strings.Split(string(o), "\n") {
				l = strings.TrimSpace(l)
				if l == "sat" || l == "unsat" {
					res = l
				}
			}
			ch <- r{c.name, res}
		}(c, cmd)
	}
	best := r{"", "unknown"}
	for range cfgs {
		x := <-ch
		if x.res != "unknown" {
			best = x
			break
		}
	}
	for _, c := range cmds {
		if c.Process != nil {
			c.Process.Kill()
		}
	}
	return best.res, best.name
}
