package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sync"
	"time"
)

// Calls on shared values from several goroutines.  A step "par" holds calls
// that are made later in the program, one after the other; before that, they
// are made by several goroutines at once, again and again.  Every outcome
// that differs from the one the call has when made alone goes into the trace
// as an event of its own, to be judged by the specification.

const (
	parGoroutines = 4
	parRounds     = 24
	parBudget     = 60 * time.Millisecond // at most, for one step
	parKeep       = 12                    // distinct outcomes kept per call
)

type parOut struct {
	dump string
	o    outcome
}

// run executes one call and recovers.
func (m *Machine) run(t Step) (o outcome) {
	o.why = noWhy
	defer func() {
		if x := recover(); x != nil {
			if d, ok := x.(driverError); ok {
				o.drv, o.msg = true, d.msg
			} else {
				o.st, o.msg, o.why = "panic", fmt.Sprint(x), whyOf(x)
			}
			o.res.regs, o.res.q = nil, nil
		}
	}()
	o.st = "ok"
	o.res = m.exec(t)
	if o.res.err != nil {
		o.why = whyOf(o.res.err)
	}
	return
}

func dumpOutcome(o outcome) string {
	d := o.st
	for _, x := range o.res.regs {
		d += "|" + rawDump(x)
	}
	if o.res.q != nil {
		b, _ := json.Marshal(o.res.q)
		d += "|" + string(b)
	}
	d += fmt.Sprint("|", o.why)
	if o.res.argch {
		d += "|argch"
	}
	return d
}

func stepKey(s Step) string {
	s.O, s.Same = 0, 0
	b, _ := json.Marshal(s)
	return string(b)
}

// parallel makes the calls (translated to actual registers) from several
// goroutines; the outcomes are kept for when the calls are made alone.
func (r *Runner) parallel(ts []Step) (calls int, hang bool) {
	k := len(ts)
	if k == 0 {
		return
	}
	seen := make([]map[string]outcome, k)
	for i := range seen {
		seen[i] = map[string]outcome{}
	}
	var mu sync.Mutex
	stop := time.Now().Add(parBudget)
	for round := 0; round < parRounds && time.Now().Before(stop); round++ {
		var start, end sync.WaitGroup
		start.Add(1)
		for g := 0; g < parGoroutines; g++ {
			end.Add(1)
			go func(g int) {
				defer end.Done()
				outs := make([]outcome, k)
				start.Wait()
				for j := 0; j < k; j++ {
					i := j // everybody makes the same calls, or everybody others
					switch round % 3 {
					case 1:
						i = (j + g) % k
					case 2:
						if g%2 == 1 {
							i = k - 1 - j
						}
					}
					outs[i] = r.m.run(ts[i])
				}
				for i := range outs {
					d := dumpOutcome(outs[i])
					mu.Lock()
					if _, ok := seen[i][d]; !ok && len(seen[i]) < parKeep {
						seen[i][d] = outs[i]
					}
					mu.Unlock()
				}
			}(g)
		}
		done := make(chan bool)
		go func() { end.Wait(); close(done) }()
		start.Done()
		select {
		case <-done:
		case <-time.After(2 * hangAfter):
			return calls, true
		}
		calls += k * parGoroutines
	}
	for i := range seen {
		key := stepKey(ts[i])
		for d, o := range seen[i] {
			if !o.drv {
				r.par[key] = append(r.par[key], parOut{d, o})
			}
		}
	}
	return
}

// odd records the outcomes a call had beside others that differ from the one
// it has alone.
func (r *Runner) odd(t Step, alone outcome, ev Event) {
	key := stepKey(t)
	ps := r.par[key]
	if len(ps) == 0 {
		return
	}
	delete(r.par, key)
	d := dumpOutcome(alone)
	for _, p := range ps {
		if p.dump == d {
			continue
		}
		e := ev
		e.I, e.Par, e.Same = len(r.out), 1, 0
		e.St, e.Argch, e.Msg, e.Why = p.o.st, p.o.res.argch, p.o.msg, p.o.why
		e.Res, e.Chg = []interface{}{}, []Chg{}
		e.Q = 0
		if p.o.res.q != nil {
			e.Q = p.o.res.q
		}
		if len(e.Msg) > 120 {
			e.Msg = e.Msg[:120]
		}
		for _, x := range p.o.res.regs {
			e.Res = append(e.Res, r.m.observe(x))
		}
		r.push(e)
	}
}

var aloneOnly = map[string]bool{"mk": true, "mkc": true, "poke": true, "par": true}

// concurrent puts a step "par" into a program: the calls after it that need
// nothing that is not there yet.
func concurrent(p Program, seed int64) (Program, bool) {
	rnd := rand.New(rand.NewSource(seed*1000003 + int64(p.P)*7919))
	made := 0
	for made < len(p.Steps) && (p.Steps[made].Op == "mk" || p.Steps[made].Op == "mkc") {
		made++
	}
	best, bestAt := []Step(nil), 0
	for try := 0; try < 6; try++ {
		cut := made
		if len(p.Steps) > made {
			cut += rnd.Intn(len(p.Steps) - made)
		}
		first := 1 << 30
		for _, s := range p.Steps[cut:] {
			if s.O > 0 && s.O < first {
				first = s.O
			}
		}
		var sub []Step
		for _, s := range p.Steps[cut:] {
			if s.Op == "poke" { // changes a value by hand: what comes later sees another one
				break
			}
			if aloneOnly[s.Op] || envOps[s.Op] {
				continue
			}
			ok := true
			for _, a := range s.A {
				ok = ok && a < first
			}
			for _, q := range s.M {
				ok = ok && q[1] < first
			}
			if ok && len(sub) < 8 {
				t := s
				t.O, t.Same = 0, 0
				sub = append(sub, t)
			}
		}
		if len(sub) > len(best) {
			best, bestAt = sub, cut
		}
	}
	if len(best) == 0 {
		return p, false
	}
	q := p
	q.Steps = append([]Step{}, p.Steps[:bestAt]...)
	q.Steps = append(q.Steps, Step{Op: "par", Par: best})
	q.Steps = append(q.Steps, p.Steps[bestAt:]...)
	return q, true
}
