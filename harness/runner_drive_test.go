package harness

import (
	"context"
	"fmt"
	"math"
	"time"

	"github.com/juju/worker/v4"
)

func init() {
	register("runner-model", runnerModel)
}

func (x *rt) newRunner() {
	c := x.c
	x.name = c.names("runner", 1)[0]
	if x.name == "" {
		x.name = "verif"
	}
	p := worker.RunnerParams{Name: x.name}
	x.delay = []time.Duration{20 * time.Millisecond, time.Second, 0, time.Hour}[c.n(4)]
	p.RestartDelay = x.delay
	if x.delay == 0 {
		x.delay = 3 * time.Second
	}
	x.isFatalNil = c.chance(12)
	x.restartNil = c.chance(30)
	x.moreNil = c.chance(30)
	if !x.isFatalNil {
		p.IsFatal = x.isFatal
	}
	if !x.restartNil {
		p.ShouldRestart = x.restart
	}
	if !x.moreNil {
		p.MoreImportant = x.more
	}
	if c.chance(50) {
		p.Clock = rClock{c}
		if c.oddClock() {
			x.delay *= c.clockSlow()
		}
	}
	if c.chance(50) {
		p.Logger = rLogger{c}
	}
	c.logf("new runner: delay=%v isFatalNil=%v restartNil=%v moreNil=%v policy=%d", x.delay, x.isFatalNil, x.restartNil, x.moreNil, c.policy)
	r, err := worker.NewRunner(p)
	if err != nil {
		c.fail([]string{"C34"}, "config", "NewRunner: %v", err)
	}
	x.r = r
	n := 1 + c.n(3)
	x.ids = c.names("id", n)
	m := &rm{ids: make([]rmID, n), gone: map[int]bool{}}
	for i := range m.ids {
		m.ids[i].req = -1
	}
	x.states = []*rm{m}
	x.waitCall = &rCall{kind: rcWait}
	if !c.chance(20) {
		x.wait(false)
	}
}

// wait has somebody wait for the runner, if nobody does yet.
func (x *rt) wait(jitter bool) {
	if !x.waiting {
		x.waiting = true
		x.call(x.waitCall, jitter)
	}
}

func (x *rt) liveStarts() []*rStart {
	var out []*rStart
	x.mu.Lock()
	defer x.mu.Unlock()
	for _, s := range x.starts {
		if !s.returned && (s.req.mode == smControlled || s.req.mode == smCtx) && !s.released {
			out = append(out, s)
		}
	}
	return out
}

func (x *rt) liveWorkers() []*rW {
	var out []*rW
	x.mu.Lock()
	defer x.mu.Unlock()
	for _, w := range x.ws {
		if !w.died {
			out = append(out, w)
		}
	}
	return out
}

func (x *rt) openCalls() []*rCall {
	var out []*rCall
	for _, rc := range x.calls {
		if !rc.done.Load() && (rc.kind == rcWorker || rc.kind == rcRemove) && !rc.aborted && rc.abort != nil {
			out = append(out, rc)
		}
	}
	return out
}

// newAbort returns an abort channel. Some of them get a value, instead of
// being closed.
func newAbort(c *Case) chan struct{} { return make(chan struct{}, c.n(2)) }

func abort(ch chan struct{}) {
	if cap(ch) > 0 {
		ch <- struct{}{}
	} else {
		close(ch)
	}
}

func (x *rt) pickID() string { return x.ids[x.c.n(len(x.ids))] }

func (x *rt) die(w *rW, err error) rev {
	w.err = err
	w.died = true
	w.diedAt, w.diedRound = x.c.now(), x.round.Load()
	x.c.logf("w%d (%s) ends: %v", w.n, w.start.req.id, err)
	seq := x.next()
	close(w.done)
	return rev{kind: "die", w: w, lo: seq, hi: math.MaxInt}
}

func (x *rt) doStart(jitter bool) {
	req := x.newReq(x.pickID())
	x.call(&rCall{kind: rcStart, id: req.id, req: req}, jitter)
}

func (x *rt) newReq(id string) *rReq {
	c := x.c
	req := &rReq{n: len(x.reqs), id: id}
	x.reqs = append(x.reqs, req)
	switch r := c.n(20); {
	case r < 8:
		req.mode = smControlled
	case r < 13:
		req.mode = smOK
	case r < 16:
		req.mode = smCtx
		req.err = x.newErr()
	case r < 19:
		req.mode = smFail
		req.err = x.newErr()
	default:
		req.mode = smGoexit
	}
	ctx := context.WithValue(context.Background(), ctxKey{}, req.n)
	if c.chance(20) {
		ctx = otherLabels(ctx, "start")
	}
	req.ctx, req.cancel = x.c.withCancel(ctx)
	if c.chance(4) {
		req.ctxDone, req.preDone = true, true
		req.cancel()
	}
	c.feature(fmt.Sprint("start-mode-", req.mode))
	return req
}

// command issues one request of the workload and returns the events that it
// contributes by itself.
func (x *rt) command(jitter bool) ([]rev, string) {
	c := x.c
	for {
		if !x.waiting && c.chance(5) {
			x.wait(jitter)
			return nil, "C04"
		}
		switch r := c.n(100); {
		case r < 8:
			if rcs := x.newChain(); len(rcs) > 0 {
				x.chain(rcs, c.chance(25))
				c.feature("chain")
				return nil, "C01 C03 C07"
			}
		case r < 9:
			x.call(&rCall{kind: rcNames + c.n(2)}, jitter)
			return nil, "C08"
		case r < 26:
			x.doStart(jitter)
			return nil, "C01"
		case r < 36:
			x.call(&rCall{kind: rcStop, id: x.pickID()}, jitter)
			c.feature("stop")
			return nil, "C03"
		case r < 48:
			rc := &rCall{kind: rcWorker, id: x.pickID()}
			if c.chance(80) {
				rc.abort = newAbort(c)
			}
			x.call(rc, jitter)
			c.feature("lookup")
			return nil, "C06"
		case r < 57:
			rc := &rCall{kind: rcRemove, id: x.pickID()}
			if c.chance(80) {
				rc.abort = newAbort(c)
			}
			x.call(rc, jitter)
			c.feature("remove")
			return nil, "C07"
		case r < 62:
			if oc := x.openCalls(); len(oc) > 0 {
				rc := oc[c.n(len(oc))]
				rc.aborted = true
				c.logf("abort %v", rc)
				abort(rc.abort)
				c.feature("abort")
				return nil, "C06"
			}
		case r < 80:
			if ws := x.liveWorkers(); len(ws) > 0 {
				var err error
				if c.chance(70) {
					err = x.newErr()
				}
				c.feature("worker-ends")
				return []rev{x.die(ws[c.n(len(ws))], err)}, "C02"
			}
		case r < 95:
			if ss := x.liveStarts(); len(ss) > 0 {
				s := ss[c.n(len(ss))]
				var out rOutcome
				if c.chance(30) {
					out.err = x.newErr()
				}
				s.released = true
				c.logf("release s%d", s.n)
				s.release <- out
				c.feature("start-returns")
				return nil, "C02"
			}
		case r < 97:
			if len(x.reqs) > 0 {
				req := x.reqs[c.n(len(x.reqs))]
				if !req.ctxDone {
					req.ctxDone = true
					c.logf("cancel context of request %d", req.n)
					req.cancel()
					c.feature("caller-cancels")
					return nil, "C01"
				}
			}
		case r < 99:
			if !x.killed {
				x.kill(jitter)
				return nil, "C04"
			}
		}
	}
}

func (x *rt) kill(jitter bool) {
	x.killed = true
	x.call(&rCall{kind: rcKill}, jitter)
	x.c.feature("kill")
}

// newChain makes calls for one client, mostly about one worker.
func (x *rt) newChain() []*rCall {
	c := x.c
	id := x.pickID()
	var rcs []*rCall
	for n := 2 + c.n(3); n > 0; n-- {
		if c.chance(20) {
			id = x.pickID()
		}
		rc := &rCall{id: id}
		switch r := c.n(20); {
		case len(rcs) > 0 && c.chance(25):
			// Look at what the one before has done.
			rc.kind = rcNames + c.n(2)
		case r < 6:
			rc.kind = rcStart
			rc.req = x.newReq(id)
		case r < 10:
			rc.kind = rcStop
		case r < 14:
			rc.kind = rcWorker
		case r < 19:
			rc.kind = rcRemove
		case x.killed || c.chance(50):
			continue
		default:
			x.killed = true
			rc.kind = rcKill
		}
		if (rc.kind == rcWorker || rc.kind == rcRemove) && c.chance(90) {
			rc.abort = newAbort(c)
		}
		rcs = append(rcs, rc)
	}
	return rcs
}

// waiting returns the times at which restarts are due.
func (x *rt) dues() []time.Duration {
	var out []time.Duration
	for _, m := range x.states {
		for _, id := range m.ids {
			if id.st == msWaiting && !id.stopping {
				out = append(out, id.since+x.delay)
			}
		}
		break
	}
	return out
}

// still says whether nothing is going to happen by itself.
func (x *rt) still() bool {
	for _, m := range x.states {
		for _, id := range m.ids {
			if id.st == msWaiting {
				return false
			}
		}
	}
	return true
}

func runnerModel(c *Case) {
	x := &rt{c: c}
	x.newRunner()
	x.step(nil, "")
	steps := 6 + c.n(30)
	for i := 0; i < steps; i++ {
		var evs []rev
		hint := ""
		batch := 1
		if c.chance(40) {
			batch = 2 + c.n(2)
		}
		dues := x.dues()
		switch {
		case len(dues) > 0 && c.chance(35):
			// Let a restart come due, perhaps while other things happen.
			d := dues[c.n(len(dues))]
			racy := c.chance(60)
			if racy {
				c.feature("race-with-restart")
				d -= time.Duration(c.n(3)) * time.Duration(c.maxNap)
				if wait := d - c.now(); wait > 0 {
					time.Sleep(wait)
				}
				for k := 0; k < batch; k++ {
					e, h := x.command(true)
					evs = append(evs, e...)
					hint += " " + h
				}
				c.settle()
				time.Sleep(slack + slack/2)
			} else {
				if wait := d + slack + slack/2 - c.now(); wait > 0 {
					time.Sleep(wait)
				}
			}
			c.feature("restart-due")
		case c.chance(15):
			d := []time.Duration{time.Millisecond, x.delay / 2, x.delay - slack, 2 * x.delay}[c.n(4)]
			c.logf("advance %v", d)
			// In pieces, so that no step sees too many restarts.
			time.Sleep(d % (x.delay + 1))
			if x.still() && c.chance(30) {
				c.longWait()
			}
		default:
			for k := 0; k < batch; k++ {
				e, h := x.command(batch > 1)
				evs = append(evs, e...)
				hint += " " + h
			}
		}
		x.step(evs, hint)
		if x.waitCall.done.Load() && c.chance(50) {
			break
		}
	}
	x.shutdown()
}

// shutdown ends the case: it stops everything and checks that nothing is left.
func (x *rt) shutdown() {
	c := x.c
	c.logf("-- shutdown")
	if c.chance(60) && len(x.liveWorkers())+len(x.liveStarts()) > 0 && !x.waitCall.done.Load() {
		// By a fatal error.
		x.nerr++
		err := &hErr{x.nerr, "fatal", c.n(3), x.underErr()}
		if ws := x.liveWorkers(); len(ws) > 0 {
			x.step([]rev{x.die(ws[c.n(len(ws))], err)}, "C04")
		} else {
			s := x.liveStarts()[0]
			s.released = true
			c.logf("release s%d", s.n)
			s.release <- rOutcome{err}
			x.step(nil, "C04")
		}
		c.feature("fatal")
	}
	if !x.killBegan() && !x.dyingNow() {
		x.kill(false)
		x.step(nil, "C04")
	}
	for round := 0; ; round++ {
		if round > 200 {
			bad("shutdown doesn't end")
		}
		var evs []rev
		k := 1 + c.n(2)
		did := false
		for ; k > 0; k-- {
			ss, ws := x.liveStarts(), x.liveWorkers()
			if len(ss)+len(ws) == 0 {
				break
			}
			did = true
			if j := c.n(len(ss) + len(ws)); j < len(ss) {
				var out rOutcome
				if c.chance(40) {
					out.err = x.newErr()
				}
				ss[j].released = true
				c.logf("release s%d", ss[j].n)
				ss[j].release <- out
			} else {
				var err error
				if c.chance(50) {
					err = x.newErr()
				}
				evs = append(evs, x.die(ws[j-len(ss)], err))
			}
		}
		if !did {
			break
		}
		x.step(evs, "C04")
		if c.chance(5) {
			c.longWait()
			x.step(nil, "C04")
		}
	}
	// Give stray timers a chance to do harm.
	time.Sleep(3 * x.delay)
	x.step(nil, "C04")
	for _, id := range x.ids {
		req := &rReq{n: len(x.reqs), id: id, mode: smOK}
		x.reqs = append(x.reqs, req)
		req.ctx = context.WithValue(context.Background(), ctxKey{}, req.n)
		x.call(&rCall{kind: rcStart, id: id, req: req}, false)
		x.call(&rCall{kind: rcStop, id: id}, false)
		x.call(&rCall{kind: rcWorker, id: id}, false)
		x.call(&rCall{kind: rcRemove, id: id}, false)
	}
	x.call(&rCall{kind: rcKill}, false)
	x.wait(false)
	again := &rCall{kind: rcWait}
	x.call(again, false)
	x.step(nil, "C09")
	for _, rc := range x.calls {
		if !rc.done.Load() {
			c.fail([]string{"C09"}, "hang", "%v hangs on a runner that has finished", rc)
		}
	}
	if !sameErr(again.err, x.states[0].final) {
		c.fail([]string{"C05"}, "wait", "another Wait gives %v, the first gave %v", again.err, x.waitCall.err)
	}
	for _, req := range x.reqs {
		if req.cancel != nil {
			req.cancel()
		}
	}
	c.settle()
	c.checkLeaks()
}

// killBegan says whether Kill has been called. (A client may not have got round
// to it yet.)
func (x *rt) killBegan() bool {
	for _, rc := range x.calls {
		if rc.kind == rcKill && rc.began.Load() {
			return true
		}
	}
	return false
}

func (x *rt) dyingNow() bool {
	for _, m := range x.states {
		if m.dying {
			return true
		}
	}
	return false
}
