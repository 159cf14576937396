package harness

import (
	"math"
	"time"

	"github.com/juju/worker/v4/dependency"
)

func init() {
	register("engine-model", engineModel)
}

func (x *et) newEngine() {
	c := x.c
	x.memo = map[string]error{}
	x.met = map[string]int{}
	pick := func(ds ...time.Duration) time.Duration { return ds[c.n(len(ds))] }
	x.conf = dependency.EngineConfig{
		IsFatal:          x.isFatal,
		WorstError:       x.worst,
		ErrorDelay:       pick(0, 20*time.Millisecond, 3*time.Second, 3*time.Second),
		BounceDelay:      pick(0, 10*time.Millisecond, 10*time.Millisecond, time.Second),
		BackoffFactor:    []float64{0, 0, 1, 1.5, 2, 10, 1e6}[c.n(7)],
		BackoffResetTime: pick(0, 10*time.Second, time.Minute),
		MaxDelay:         pick(0, 0, 5*time.Second, time.Hour, forever),
		Clock:            rClock{c},
		Metrics:          x,
		Logger:           eLogger{c},
	}
	if c.chance(4) {
		// In effect, don't restart what fails (or is bounced).
		if c.chance(70) {
			x.conf.ErrorDelay = forever
		} else {
			x.conf.BounceDelay = forever
		}
	}
	x.engineFilter = []int{0, 0, 1, 1, 2}[c.n(5)]
	if x.engineFilter != 0 {
		x.conf.Filter = x.engFilter
	}
	c.logf("new engine: error=%v bounce=%v factor=%v reset=%v max=%v filter=%d policy=%d", x.conf.ErrorDelay, x.conf.BounceDelay,
		x.conf.BackoffFactor, x.conf.BackoffResetTime, x.conf.MaxDelay, x.engineFilter, c.policy)
	conf := x.conf
	if c.oddClock() {
		conf.ErrorDelay /= c.clockSlow()
		conf.BounceDelay /= c.clockSlow()
		conf.BackoffResetTime /= c.clockSlow()
		conf.MaxDelay /= c.clockSlow()
	}
	e, err := dependency.NewEngine(conf)
	if err != nil {
		c.fail([]string{"C34"}, "config", "NewEngine: %v", err)
	}
	x.e = e
	n := 2 + c.n(4)
	x.names = c.names("m", n)
	if c.chance(20) {
		x.names = append(x.names, "self")
		n++
	}
	m := &em{ms: make([]emM, n), ups: make([]int, n)}
	for i := range m.ms {
		m.ms[i].start = -1
	}
	x.states = []*em{m}
	x.waitCall = &eCall{what: "Wait"}
	if !c.chance(20) {
		x.wait(false)
	}
}

// wait has somebody wait for the engine, if nobody does yet.
func (x *et) wait(jitter bool) {
	if !x.waiting {
		x.waiting = true
		x.call(x.waitCall, jitter)
	}
}

func (x *et) newSpec(name string) *eSpec {
	c := x.c
	s := &eSpec{n: len(x.specs), name: name}
	x.specs = append(x.specs, s)
	if name == "self" {
		s.mode = emSelf
		return s
	}
	i := x.idx(name)
	switch c.n(4) {
	case 0:
	case 1:
		s.inputs = []string{}
		fallthrough
	default:
		for j, in := range x.names {
			switch {
			case j == i:
				if c.chance(2) {
					s.inputs = append(s.inputs, in)
				}
			case j < i:
				if c.chance(45) {
					s.inputs = append(s.inputs, in)
				}
			default:
				// Edges the other way make cycles now and then.
				if c.chance(6) {
					s.inputs = append(s.inputs, in)
				}
			}
		}
		if c.chance(5) {
			s.inputs = append(s.inputs, "nope")
		}
	}
	s.mode = []int{emControlled, emControlled, emControlled, emOK, emOK, emNeedAll, emNeedAll, emCtx}[c.n(8)]
	if s.mode == emCtx {
		s.interrupt = x.mkErr([]int{ekPlain, ekPlain, ekMissing, ekBounce, ekUninstall}[c.n(5)])
	}
	s.out = c.n(3)
	s.reports = c.chance(50)
	if c.chance(30) {
		s.filter = make([]int, ekKinds)
		for k := range s.filter {
			s.filter[k] = k
			if c.chance(25) {
				s.filter[k] = c.n(ekKinds)
			}
		}
		if s.filter[ekNil] != ekNil && c.chance(70) {
			s.filter[ekNil] = ekNil
		}
		if s.filter[ekMissing] == ekFatal && s.mode == emNeedAll {
			s.filter[ekMissing] = ekMissing
		}
		// A start that needs its inputs mustn't be retried without end
		// at once.
		if s.mode == emNeedAll && s.filter[ekMissing] != ekNil {
			s.filter[ekMissing] = ekMissing
		}
	}
	return s
}

func (x *et) liveStarts() []*eStart {
	x.mu.Lock()
	defer x.mu.Unlock()
	var out []*eStart
	for _, s := range x.starts {
		if !s.returned && !s.released && (s.spec.mode == emControlled || s.spec.mode == emCtx) {
			out = append(out, s)
		}
	}
	return out
}

func (x *et) liveWorkers() []*eW {
	x.mu.Lock()
	defer x.mu.Unlock()
	var out []*eW
	for _, w := range x.ws {
		if !w.died {
			out = append(out, w)
		}
	}
	return out
}

func (x *et) die(w *eW, err error) []eev {
	x.mu.Lock()
	if w.died {
		x.mu.Unlock()
		return nil
	}
	x.seq++
	w.err, w.died, w.diedAt, w.seq = err, true, x.c.now(), x.seq
	x.mu.Unlock()
	x.c.logf("w%d (%s) ends: %v", w.n, w.start.spec.name, err)
	close(w.done)
	return []eev{{kind: "die", w: w, lo: w.seq, hi: math.MaxInt, at: w.diedAt}}
}

func (x *et) doRelease(s *eStart, err error) {
	x.c.logf("release s%d with %v", s.n, err)
	s.released = true
	s.release <- err
}

// installedNow says whether a name is taken, as far as is known.
func (x *et) installedNow(name string) bool {
	return x.states[0].ms[x.idx(name)].installed
}

func (x *et) command(jitter bool) ([]eev, string) {
	c := x.c
	for {
		switch r := c.n(100); {
		case r < 24:
			name := x.names[c.n(len(x.names))]
			if x.installedNow(name) && !c.chance(15) {
				continue
			}
			s := x.newSpec(name)
			c.logf("%v", s)
			x.call(x.look(&eCall{what: "Install " + name, spec: s}), jitter)
			c.feature("install")
			return nil, "C11"
		case r < 62:
			if ss := x.liveStarts(); len(ss) > 0 {
				s := ss[c.n(len(ss))]
				var err error
				if c.chance(40) {
					err = x.mkErr(x.randKind())
				}
				x.doRelease(s, err)
				c.feature("start-returns-" + ekNames[max(0, kindOf(err))])
				return nil, "C12 C14"
			}
		case r < 87:
			if ws := x.liveWorkers(); len(ws) > 0 {
				err := x.mkErr(x.randKind())
				c.feature("worker-ends-" + ekNames[max(0, kindOf(err))])
				return x.die(ws[c.n(len(ws))], err), "C12 C14"
			}
		case r < 92:
			x.call(x.look(&eCall{what: "Report"}), jitter)
			c.feature("report")
			return nil, "C18"
		case r < 93:
			if !x.waiting {
				x.wait(jitter)
				return nil, "C16"
			}
		case r < 95:
			if !x.killed && c.chance(30) {
				x.kill(jitter)
				return nil, "C16"
			}
		}
	}
}

func (x *et) kill(jitter bool) {
	x.killed = true
	x.call(x.look(&eCall{what: "Kill"}), jitter)
	x.c.feature("kill")
}

// windows returns when pending starts are due.
func (x *et) windows() [][2]time.Duration {
	var out [][2]time.Duration
	for _, s := range x.states[0].ms {
		if s.installed && s.st == mfPending && s.hi < 50*365*24*time.Hour {
			out = append(out, [2]time.Duration{s.lo, s.hi})
		}
	}
	return out
}

// minHi is the first time by which a pending start must have happened.
func (x *et) minHi() (time.Duration, bool) {
	best, ok := time.Duration(0), false
	for _, w := range x.windows() {
		if !ok || w[1] < best {
			best, ok = w[1], true
		}
	}
	return best, ok
}

// sleepTo sleeps until t, but not past the next start that is due.
func (x *et) sleepTo(t time.Duration) {
	if h, ok := x.minHi(); ok && t > h+slack {
		t = h + slack
	}
	if d := t - x.c.now(); d > 0 {
		time.Sleep(d)
	}
}

func engineModel(c *Case) {
	x := &et{c: c}
	x.newEngine()
	x.observe(nil, "")
	steps := 10 + c.n(40)
	for i := 0; i < steps; i++ {
		var evs []eev
		hint := ""
		batch := 1
		if c.chance(35) {
			batch = 2 + c.n(2)
		}
		ws := x.windows()
		switch {
		case len(ws) > 0 && c.chance(55):
			w := ws[c.n(len(ws))]
			switch c.n(5) {
			case 0:
				// Just before it is due.
				x.sleepTo(w[0] - slack)
				c.feature("before-due")
			case 1:
				// Racing with it.
				x.sleepTo(w[0] + time.Duration(c.n(1000))*(w[1]-w[0])/1000)
				for k := 0; k < batch; k++ {
					e, h := x.command(true)
					evs = append(evs, e...)
					hint += " " + h
				}
				c.feature("race-with-start")
			default:
				x.sleepTo(w[1] + slack)
				c.feature("due")
			}
		case c.chance(15):
			d := []time.Duration{time.Millisecond, 9 * time.Second, 10 * time.Second, 61 * time.Second, 2 * time.Hour, 5000 * time.Hour}[c.n(6)]
			c.logf("advance %v", d)
			x.sleepTo(c.now() + d)
			c.feature("advance")
		default:
			for k := 0; k < batch; k++ {
				e, h := x.command(batch > 1)
				evs = append(evs, e...)
				hint += " " + h
			}
		}
		x.observe(evs, hint)
		if x.waitCall.done.Load() {
			break
		}
	}
	x.shutdown()
}

func (x *et) shutdown() {
	c := x.c
	c.logf("-- shutdown")
	if !x.waitCall.done.Load() && c.chance(50) {
		if ws := x.liveWorkers(); len(ws) > 0 {
			w := ws[c.n(len(ws))]
			x.nerr++
			x.observe(x.die(w, &eErr{n: x.nerr, kind: ekFatal, rank: c.n(5)*100 + x.nerr}), "C16")
			c.feature("fatal")
		}
	}
	if !x.killed && !x.waitCall.done.Load() {
		x.kill(false)
		x.observe(nil, "C16")
	}
	for round := 0; ; round++ {
		if round > 200 {
			bad("shutdown doesn't end")
		}
		var evs []eev
		did := false
		for k := 1 + c.n(2); k > 0; k-- {
			ss, ws := x.liveStarts(), x.liveWorkers()
			if len(ss)+len(ws) == 0 {
				break
			}
			did = true
			var err error
			if c.chance(50) {
				err = x.mkErr(x.randKind())
			}
			if j := c.n(len(ss) + len(ws)); j < len(ss) {
				x.doRelease(ss[j], err)
			} else {
				evs = append(evs, x.die(ws[j-len(ss)], err)...)
			}
		}
		if !did {
			break
		}
		x.observe(evs, "C16")
		if c.chance(5) {
			c.longWait()
			x.observe(nil, "C16")
		}
	}
	time.Sleep(3 * time.Hour)
	x.wait(false)
	s := x.newSpec(x.names[c.n(len(x.names))])
	x.call(&eCall{what: "Install " + s.name, spec: s}, false)
	x.call(&eCall{what: "Kill"}, false)
	x.call(&eCall{what: "Wait"}, false)
	x.observe(nil, "C16")
	if last := x.calls[len(x.calls)-1]; !last.done.Load() || !same(last.err, x.waitCall.err) {
		c.fail([]string{"C16", "C17"}, "wait", "another Wait gives %v %v, the first gave %v", last.done.Load(), last.err, x.waitCall.err)
	}
	c.settle()
	c.checkLeaks("C21")
}

// look has the client that makes a call look at its effect.
func (x *et) look(rc *eCall) *eCall {
	if x.c.chance(40) {
		rc.then = &eCall{what: "Report"}
		x.c.feature("report-after")
	}
	return rc
}
