package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"strings"
	"time"

	sm "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

// Chg is an older register whose contents changed during a call.
type Chg struct {
	R int         `json:"r"`
	O interface{} `json:"o"`
}

// Event is one line of the trace.
type Event struct {
	P     int           `json:"p"`
	I     int           `json:"i"`
	Op    string        `json:"op"`
	S     string        `json:"s"`
	A     []int         `json:"a"`
	N     []int         `json:"n"`
	V     []int         `json:"v"`
	M     [][2]int      `json:"m"`
	F     []int         `json:"f"`
	Same  int           `json:"same"`
	Par   int           `json:"par"`
	St    string        `json:"st"`
	Res   []interface{} `json:"res"`
	Q     interface{}   `json:"q"`
	Chg   []Chg         `json:"chg"`
	Argch bool          `json:"argch"`
	Envs  []interface{} `json:"envs"`
	Ids   []int         `json:"ids"`
	Names []string      `json:"names"`
	Msg   string        `json:"msg"`
	Bad   string        `json:"bad"`
	Why   Why           `json:"why"`
}

// Runner executes the steps of one program and records them.
type Runner struct {
	m      *Machine
	prog   Program
	idmap  map[int]int // program register -> actual register
	obs    []interface{}
	fresh  int // next program register
	dead   bool
	replay bool
	out    []Event
	mark   func(Event) // called before each step in sync mode
	par    map[string][]parOut
}

// syncOut: in sync mode, where events go as soon as they are complete
var syncOut io.Writer

const hangAfter = 10 * time.Second

func (m *Machine) allEnvs() []interface{} {
	out := []interface{}{m.envAll(0)}
	for i := range m.Envs {
		out = append(out, m.envAll(i+1))
	}
	return out
}

func newRunner(p Program, mark func(Event)) *Runner {
	r := &Runner{m: &Machine{}, prog: p, idmap: map[int]int{}, fresh: 1, mark: mark, par: map[string][]parOut{}}
	r.prog.Steps = nil
	setLimits(p.Wide)
	if NS = 8; len(p.Vars) >= NS {
		NS = 20
	}
	sm.DefaultEnvironment = sm.MakeBasicEnvironment("DefaultEnvironment")
	for i := 0; i < p.NEnv; i++ {
		n := fmt.Sprintf("e%d", i+1)
		if i < len(p.EnvT) {
			n = p.EnvT[i] + n
		}
		r.m.Envs = append(r.m.Envs, makeEnv(n))
		r.m.Names = append(r.m.Names, n)
	}
	ev := blank()
	ev.P, ev.Op, ev.St = p.P, "begin", "ok"
	for _, v := range p.Vars {
		r.m.Vars = append(r.m.Vars, r.m.makeVar(v))
	}
	for _, v := range p.Vars {
		ev.Ids = append(ev.Ids, r.m.idCode(v.ID))
		ev.Names = append(ev.Names, v.Name)
	}
	ev.Envs = r.m.allEnvs()
	r.push(ev)
	return r
}

func (r *Runner) push(ev Event) *Event {
	r.out = append(r.out, ev)
	if syncOut != nil {
		writeEvents(syncOut, []Event{ev})
	}
	return &r.out[len(r.out)-1]
}

func blank() Event {
	return Event{F: []int{0, 0}, A: []int{}, N: []int{}, V: []int{}, M: [][2]int{}, Res: []interface{}{}, Q: 0,
		Chg: []Chg{}, Envs: []interface{}{}, Ids: []int{}, Names: []string{}, Why: noWhy}
}

type outcome struct {
	res result
	st  string
	msg string
	drv bool
	why Why
}

// actual translates the registers of a step; false when an operand is missing.
func (r *Runner) actual(s Step) (Step, bool) {
	t := s
	t.A = make([]int, len(s.A))
	for i, x := range s.A {
		y, ok := r.idmap[x]
		if !ok {
			return t, false
		}
		t.A[i] = y
	}
	t.M = make([][2]int, len(s.M))
	for i, x := range s.M {
		y, ok := r.idmap[x[1]]
		if !ok {
			return t, false
		}
		t.M[i] = [2]int{x[0], y}
	}
	if s.Same > 0 {
		t.Same = r.idmap[s.Same]
	}
	return t, true
}

// step executes one step.  It returns the event, or nil when the step could
// not be attempted (an operand is missing since an earlier call was refused).
func (r *Runner) step(s Step) *Event {
	if r.dead {
		return nil
	}
	m := r.m
	if s.O == 0 {
		s.O = r.fresh
		if r.replay { // nothing later in the program refers to the result
			s.O = 1 << 20
		}
	}
	t, ok := r.actual(s)
	if !ok {
		return nil
	}
	var ts []Step
	for _, p := range s.Par {
		if q, ok := r.actual(p); ok {
			ts = append(ts, q)
		}
	}
	r.prog.Steps = append(r.prog.Steps, s)
	ev := blank()
	ev.P, ev.I, ev.Op, ev.S, ev.Same = r.prog.P, len(r.out), s.Op, s.S, t.Same
	ev.A, ev.M = t.A, t.M
	if s.N != nil {
		ev.N = s.N
	}
	if s.V != nil {
		ev.V = s.V
	}
	if s.F != nil {
		ev.F = dyadic(fromDyadic(*s.F))
	}
	if s.Mk != nil {
		ev.S, ev.Bad = s.Mk.K, s.Mk.Bad
	}
	if s.Op == "envname" {
		ev.S = "DefaultEnvironment"
		if s.N[0] > 0 {
			ev.S = m.Names[s.N[0]-1]
		}
	}
	if r.mark != nil {
		h := ev
		h.St = "hang"
		r.mark(h)
	}
	if s.Op == "par" {
		calls, hang := r.parallel(ts)
		ev.St, ev.Q, r.dead = "ok", calls, hang
		if hang {
			ev.St = "hang"
			return r.push(ev)
		}
		r.changed(&ev)
		return r.push(ev)
	}
	done := make(chan outcome, 1)
	go func() { done <- m.run(t) }()
	timer := time.NewTimer(hangAfter)
	var o outcome
	select {
	case o = <-done:
		timer.Stop()
	case <-timer.C:
		o = outcome{st: "hang", msg: "no answer", why: noWhy}
		r.dead = true
	}
	if o.drv && r.replay { // generated programs contain steps that do not apply
		r.prog.Steps = r.prog.Steps[:len(r.prog.Steps)-1]
		return nil
	}
	if o.drv {
		fmt.Fprintln(os.Stderr, "driver error:", o.msg)
		os.Exit(3)
	}
	ev.St, ev.Argch = o.st, o.res.argch
	ev.Msg, ev.Why = o.msg, o.why
	if len(ev.Msg) > 120 {
		ev.Msg = ev.Msg[:120]
	}
	ev.Msg = strings.ToValidUTF8(ev.Msg, "?")
	if o.res.q != nil {
		ev.Q = o.res.q
	}
	if r.dead {
		return r.push(ev)
	}
	r.changed(&ev)
	r.odd(t, o, ev)
	ev.I = len(r.out)
	if envOps[s.Op] {
		ev.Envs = m.allEnvs()
	}
	for i, x := range o.res.regs {
		m.Regs = append(m.Regs, x)
		m.Dump = append(m.Dump, rawDump(x))
		ob := m.observe(x)
		r.obs = append(r.obs, ob)
		ev.Res = append(ev.Res, ob)
		r.idmap[s.O+i] = len(m.Regs)
		if s.O+i >= r.fresh && s.O < 1<<20 {
			r.fresh = s.O + i + 1
		}
	}
	if len(o.res.regs) == 0 || s.O >= 1<<20 {
		s.O = 0
	}
	r.prog.Steps[len(r.prog.Steps)-1].O = s.O
	return r.push(ev)
}

// changed: older registers must be as they were
func (r *Runner) changed(ev *Event) {
	m := r.m
	for i := range m.Regs {
		d := rawDump(m.Regs[i])
		if d != m.Dump[i] {
			m.Dump[i] = d
			r.obs[i] = m.observe(m.Regs[i])
			ev.Chg = append(ev.Chg, Chg{i + 1, r.obs[i]})
		}
	}
}

var envOps = map[string]bool{"mkenv": true, "newvar": true, "newvec": true, "newmat": true,
	"track": true, "all": true, "envname": true}

func writeEvents(w io.Writer, evs []Event) error {
	enc := json.NewEncoder(w)
	enc.SetEscapeHTML(false)
	for i := range evs {
		if err := enc.Encode(&evs[i]); err != nil {
			return err
		}
	}
	return nil
}
