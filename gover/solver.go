package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Result of a query.
type QRes int

const (
	QUnknown QRes = iota
	QUnsat
	QSat
)

func (r QRes) String() string { return [...]string{"unknown", "unsat", "sat"}[r] }

type Stats struct {
	Queries  int64
	SolverNs int64
	ByBack   sync.Map // backend -> *int64 discharged
}

var stats Stats
var solverSem = make(chan struct{}, 8)

const z3opts = `(set-option :auto_config false)
(set-option :smt.mbqi false)
(set-option :smt.qi.max_multi_patterns 1000)
(set-option :smt.qi.eager_threshold 20)
`
const cvcopts = `(set-logic ALL)
`

type Backend struct {
	Name string
	Cmd  []string
	Opts string
}

var backends = map[string]Backend{
	"z3":     {"z3 4.8.12", []string{"z3", "-in"}, z3opts},
	"z3-new": {"z3 5.3.2", []string{"z3-new", "-in"}, z3opts},
	"cvc5":   {"cvc5 1.1.2", []string{"cvc5", "--lang", "smt2", "--quiet"}, cvcopts},
}

// slowMs: report solver calls that take longer (GOVER_SLOW, for tuning)
var slowMs, _ = strconv.Atoi(os.Getenv("GOVER_SLOW"))

func runSolver(b Backend, body string, tmo time.Duration) (QRes, string) {
	if expired() {
		return QUnknown, "time budget exhausted"
	}
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	if expired() {
		return QUnknown, "time budget exhausted"
	}
	t0 := time.Now()
	defer func() {
		atomic.AddInt64(&stats.Queries, 1)
		atomic.AddInt64(&stats.SolverNs, int64(time.Since(t0)))
		if slowMs > 0 && time.Since(t0) > time.Duration(slowMs)*time.Millisecond {
			fmt.Printf("     slow: %s %v of %v\n", b.Name, time.Since(t0).Round(time.Millisecond), tmo)
		}
	}()
	ctx, cancel := context.WithTimeout(context.Background(), tmo+500*time.Millisecond)
	defer cancel()
	args := append([]string{}, b.Cmd[1:]...)
	ms := itoa(int(tmo / time.Millisecond))
	if strings.HasPrefix(b.Cmd[0], "z3") {
		args = append(args, "-t:"+ms)
	} else {
		args = append(args, "--tlimit="+ms)
	}
	cmd := exec.CommandContext(ctx, b.Cmd[0], args...)
	cmd.Stdin = strings.NewReader(b.Opts + body + "(check-sat)\n")
	var out, er bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &er
	cmd.Run()
	s := out.String()
	for _, ln := range strings.Split(s, "\n") {
		switch strings.TrimSpace(ln) {
		case "unsat":
			if strings.Contains(s, "error") {
				return QUnknown, s
			}
			return QUnsat, s
		case "sat":
			return QSat, s
		}
	}
	return QUnknown, s + er.String()
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	neg := n < 0
	if neg {
		n = -n
	}
	var b []byte
	for n > 0 {
		b = append([]byte{byte('0' + n%10)}, b...)
		n /= 10
	}
	if neg {
		return "-" + string(b)
	}
	return string(b)
}
