package harness

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	jujuerrors "github.com/juju/errors"

	"github.com/juju/worker/v4"
)

// hErr is an error with which a worker or start function of the workload ends.
type hErr struct {
	n    int
	kind string // "fatal", "restart", "norestart"
	rank int
	// under is what the error wraps. It's none of the runner's business.
	under error
}

func (e *hErr) Error() string { return fmt.Sprintf("e%d-%s-%d", e.n, e.kind, e.rank) }

// Unwrap and Cause lead to an error that the policies would treat differently.
func (e *hErr) Unwrap() error { return e.under }
func (e *hErr) Cause() error {
	if e.under == nil {
		return e
	}
	return e.under
}

var errGoexit = errors.New("(goexit)")

// Modes of a start function.
const (
	smControlled = iota // returns when the workload says so
	smOK                // makes a worker at once
	smFail              // fails at once
	smCtx               // like smControlled, but fails when its context ends
	smGoexit            // calls runtime.Goexit
)

type rReq struct {
	n      int
	id     string
	mode   int
	err    error // smFail, smCtx
	ctx    context.Context
	cancel context.CancelFunc
	// ctxDone is set once the caller's context is cancelled.
	ctxDone bool
	// preDone is set if that was before the call.
	preDone bool
	starts  int
}

type rOutcome struct {
	err error // nil: a worker
}

type rStart struct {
	n       int
	req     *rReq
	first   bool
	at      time.Duration
	ctx     context.Context
	release chan rOutcome
	// The following are written before the start function returns.
	returned bool
	retSeen  bool
	released bool
	retAt    time.Duration
	retSeq   int
	seq      int
	retErr   error
	w        *rW
	valueOK  bool
	liveOK   bool
}

type rW struct {
	n         int
	start     *rStart
	kills     atomic.Int32
	done      chan struct{}
	err       error
	died      bool
	diedAt    time.Duration
	diedRound int32
	waits     atomic.Int32
	c         *Case
	reports   bool
}

func (w *rW) Kill() {
	w.kills.Add(1)
	w.c.logf("  kill w%d (%s)", w.n, w.start.req.id)
	if w.c.hr()%4 == 0 {
		runtime.Gosched()
	}
}

func (w *rW) Wait() error {
	w.waits.Add(1)
	<-w.done
	return w.err
}

// rRW is a worker with a report.
type rRW struct {
	*rW
	// It can't be compared.
	_ []int
}

func (w rRW) Report() map[string]any { return map[string]any{"worker": w.n} }

// returnedAs reports whether err is the error with which w ended.
func (w *rW) returnedAs(err error) bool {
	return w.err != nil && wraps(err, w.err) || err == nil && w.err == nil
}

func (w *rW) asWorker() worker.Worker {
	if w.reports {
		return rRW{rW: w}
	}
	return w
}

func unwrapW(w worker.Worker) *rW {
	switch w := w.(type) {
	case *rW:
		return w
	case rRW:
		return w.rW
	}
	return nil
}

// Calls of runner methods.
const (
	rcStart = iota
	rcStop
	rcWorker
	rcRemove
	rcKill
	rcWait
	rcNames
	rcReport
)

var rcNames_ = []string{"StartWorker", "StopWorker", "Worker", "StopAndRemoveWorker", "Kill", "Wait", "WorkerNames", "Report"}

type rCall struct {
	n       int
	kind    int
	id      string
	req     *rReq
	abort   chan struct{}
	aborted bool
	// Set when the call has returned.
	done atomic.Bool
	err  error
	w    worker.Worker
	seen bool // its result has been accounted for
	// What WorkerNames or Report returned.
	names  []string
	report map[string]any
	at     time.Duration
	// began is set when the call is made.
	began  atomic.Bool
	round  int32
	lo, hi int
	// entered is set once the models know the call.
	entered bool
}

func (rc *rCall) String() string {
	return fmt.Sprintf("#%d %s(%s)", rc.n, rcNames_[rc.kind], rc.id)
}

func classify(err error) string {
	switch {
	case err == nil:
		return "nil"
	case errors.Is(err, worker.ErrDead):
		return "dead"
	case errors.Is(err, worker.ErrAborted):
		return "aborted"
	case jujuerrors.Is(err, jujuerrors.NotFound):
		return "notfound"
	case jujuerrors.Is(err, jujuerrors.AlreadyExists):
		return "exists"
	}
	return "err:" + err.Error()
}

type ctxKey struct{}

// rt is the run-time side of a runner case.
type rt struct {
	name   string
	c      *Case
	r      *worker.Runner
	delay  time.Duration
	ids    []string
	mu     sync.Mutex
	reqs   []*rReq
	starts []*rStart
	ws     []*rW
	calls  []*rCall
	nerr   int
	seq    atomic.Int64
	// round counts the times that the runner has come to rest.
	round atomic.Int32

	isFatalNil, restartNil, moreNil bool

	states []*rm
	// newStarts counts how many of starts have been accounted for.
	seenStarts int
	waitCall   *rCall
	waiting    bool
	killed     bool
}

func (x *rt) isFatal(err error) bool {
	if x.isFatalNil {
		return true
	}
	var h *hErr
	return errors.As(err, &h) && h.kind == "fatal"
}

func (x *rt) restart(err error) bool {
	if x.restartNil {
		return true
	}
	var h *hErr
	if errors.As(err, &h) {
		return h.kind != "norestart"
	}
	return true
}

func (x *rt) more(a, b error) bool {
	if x.moreNil {
		return false
	}
	ra, rb := 0, 0
	var h *hErr
	if errors.As(a, &h) {
		ra = h.rank
	}
	if errors.As(b, &h) {
		rb = h.rank
	}
	return ra > rb
}

func (x *rt) newErr() error {
	x.nerr++
	kinds := []string{"restart", "restart", "restart", "norestart", "fatal"}
	return x.c.dressed(&hErr{x.nerr, kinds[x.c.n(len(kinds))], x.c.n(3), x.underErr()})
}

func (x *rt) newSafeErr() error {
	x.nerr++
	return x.c.dressed(&hErr{x.nerr, x.c.oneOf("restart", "restart", "norestart"), x.c.n(3), x.underErr()})
}

func (x *rt) underErr() error {
	switch x.c.n(5) {
	case 0:
		return &hErr{x.nerr + 1000, x.c.oneOf("restart", "norestart", "fatal"), x.c.n(3), nil}
	case 1:
		return famous[x.c.n(len(famous))]
	}
	return nil
}

// An rClock is a clock that need not agree with the system's: it may be ahead of
// it, and take several seconds for each of its own.
type rClock struct{ c *Case }

func (k rClock) Now() time.Time { return k.at(k.c.now()) }

func (k rClock) After(d time.Duration) <-chan time.Time {
	if s := k.c.clockSlow(); d < math.MaxInt64/s {
		d *= s
	} else {
		d = forever
	}
	return time.After(d)
}

// farAway is where the clock is; times are reported as UTC anyway.
var farAway = time.FixedZone("far away", 5*3600+1800)

// at gives the clock's time when the case has run for d.
func (k rClock) at(d time.Duration) time.Time {
	return k.c.t0.Add(k.c.clockAhead + d/k.c.clockSlow()).In(farAway)
}

type rLogger struct{ c *Case }

func (l rLogger) out(string, ...any) {
	if l.c.hr()%8 == 0 {
		runtime.Gosched()
	}
}
func (l rLogger) Tracef(f string, a ...any) { l.out(f, a...) }
func (l rLogger) Debugf(f string, a ...any) { l.out(f, a...) }
func (l rLogger) Infof(f string, a ...any)  { l.out(f, a...) }
func (l rLogger) Errorf(f string, a ...any) { l.out(f, a...) }

func (x *rt) startFunc(req *rReq) worker.StartFunc {
	c := x.c
	return func(ctx context.Context) (worker.Worker, error) {
		x.mu.Lock()
		s := &rStart{n: len(x.starts), req: req, first: req.starts == 0, ctx: ctx, release: make(chan rOutcome, 1), at: c.now(), seq: x.next()}
		req.starts++
		x.starts = append(x.starts, s)
		if len(x.starts) > 3000 {
			c.fail([]string{"*"}, "livelock", "start function called %d times", len(x.starts))
		}
		x.mu.Unlock()
		s.valueOK = !s.first || ctx.Value(ctxKey{}) == req.n
		s.liveOK = ctx.Err() == nil
		c.wantLabels(fmt.Sprintf("start s%d", s.n), ctx, "type", "worker", "name", x.name, "id", req.id)
		c.logf("  start s%d of %s (request %d)", s.n, req.id, req.n)
		var out rOutcome
		switch req.mode {
		case smControlled:
			out = <-s.release
		case smCtx:
			select {
			case out = <-s.release:
			case <-ctx.Done():
				out = rOutcome{req.err}
			}
		case smOK:
		case smFail:
			out = rOutcome{req.err}
		case smGoexit:
			x.mu.Lock()
			s.returned, s.retErr, s.retAt, s.retSeq = true, errGoexit, c.now(), x.next()
			x.mu.Unlock()
			c.logf("  s%d calls Goexit", s.n)
			runtime.Goexit()
		}
		x.mu.Lock()
		s.returned, s.retErr, s.retAt, s.retSeq = true, out.err, c.now(), x.next()
		if out.err == nil {
			s.w = &rW{n: len(x.ws), start: s, done: make(chan struct{}), c: c, reports: (s.n % 2) == 0}
			x.ws = append(x.ws, s.w)
		}
		x.mu.Unlock()
		if out.err != nil {
			c.logf("  s%d fails: %v", s.n, out.err)
			return nil, out.err
		}
		c.logf("  s%d makes w%d", s.n, s.w.n)
		return s.w.asWorker(), nil
	}
}

func (x *rt) next() int { return int(x.seq.Add(1)) }

// call runs a method of the runner on a goroutine of its own.
func (x *rt) call(rc *rCall, jitter bool) { x.chain([]*rCall{rc}, jitter) }

// chain runs methods of the runner one after the other on a goroutine.
func (x *rt) chain(rcs []*rCall, jitter bool) {
	c := x.c
	for _, rc := range rcs {
		rc.n = len(x.calls)
		x.calls = append(x.calls, rc)
	}
	if len(rcs) > 1 {
		c.logf("chain %v", rcs)
	} else {
		c.logf("call %v", rcs[0])
	}
	own := c.n(3) == 0
	go func() {
		kept := c.keepLabels(fmt.Sprint(rcs), own)
		for _, rc := range rcs {
			if jitter {
				c.jitter()
			}
			x.do(rc)
		}
		kept()
	}()
}

func (x *rt) do(rc *rCall) {
	c := x.c
	rc.at = c.now()
	rc.round = x.round.Load()
	rc.lo = x.next()
	rc.began.Store(true)
	switch rc.kind {
	case rcStart:
		rc.err = x.r.StartWorker(rc.req.ctx, rc.id, x.startFunc(rc.req))
	case rcStop:
		rc.err = x.r.StopWorker(rc.id)
	case rcWorker:
		rc.w, rc.err = x.r.Worker(rc.id, rc.abort)
	case rcRemove:
		rc.err = x.r.StopAndRemoveWorker(rc.id, rc.abort)
	case rcKill:
		x.r.Kill()
	case rcWait:
		rc.err = x.r.Wait()
	case rcNames:
		rc.names = x.r.WorkerNames()
	case rcReport:
		rc.report = x.r.Report()
	}
	rc.hi = x.next()
	if rc.kind == rcWorker && rc.err == nil {
		if w := unwrapW(rc.w); w != nil {
			c.logf("  ret %v = w%d", rc, w.n)
		} else {
			c.logf("  ret %v = %v", rc, rc.w)
		}
	} else if rc.kind == rcNames {
		c.logf("  ret %v = %v", rc, rc.names)
	} else if rc.kind == rcReport {
		c.logf("  ret %v = %v", rc, rc.report)
	} else {
		c.logf("  ret %v = %s", rc, classify(rc.err))
	}
	rc.done.Store(true)
}

// ---- reference model ----

const (
	msAbsent = iota
	msPending
	msWaiting
	msStart
	msUp
)

type rmID struct {
	st       int
	stopping bool
	req      int
	start    int
	since    time.Duration
	upAt     time.Duration
	up       bool // upAt is that of a worker, rather than the request
	why      string
}

const (
	phLookup = iota
	phGrabbed
	phDone
	// phOrphan is that of a call which has been aborted, but may yet stop
	// the worker that it had found.
	phOrphan
)

type rmRemove struct {
	call  int
	phase int
	req   int
	start int
}

type rm struct {
	ids []rmID
	// killed is set by Kill or a fatal error; dying once the runner acts on it.
	killed  bool
	dying   bool
	dyingBy string
	// felled is set after a fatal error until everything is being stopped.
	felled bool
	// settled is set once the runner has come to rest since it began to die.
	settled bool
	final   error
	removes []rmRemove
	// gone holds the requests that have been removed.
	gone map[int]bool
}

func (m *rm) clone() *rm {
	n := *m
	n.ids = append([]rmID(nil), m.ids...)
	n.removes = append([]rmRemove(nil), m.removes...)
	n.gone = make(map[int]bool, len(m.gone))
	for k, v := range m.gone {
		n.gone[k] = v
	}
	return &n
}

func (m *rm) key() string {
	b := make([]byte, 0, 128)
	u := func(n int64) { b = binary.AppendVarint(b, n) }
	flag := func(f ...bool) {
		k := byte(0)
		for i, f := range f {
			if f {
				k |= 1 << i
			}
		}
		b = append(b, k)
	}
	for _, i := range m.ids {
		flag(i.stopping, i.up)
		u(int64(i.st))
		u(int64(i.req))
		u(int64(i.start))
		u(int64(i.since))
		u(int64(i.upAt))
		b = append(b, i.why...)
	}
	flag(m.killed, m.dying, m.settled, m.felled)
	b = append(b, errKey(m.final)...)
	for _, r := range m.removes {
		u(int64(r.call))
		u(int64(r.phase))
		u(int64(r.req))
		u(int64(r.start))
	}
	g := make([]byte, 0, 16)
	for k := range m.gone {
		for len(g) <= k/8 {
			g = append(g, 0)
		}
		g[k/8] |= 1 << (k % 8)
	}
	return string(append(b, g...))
}

func (m *rm) dead() bool {
	if !m.dying {
		return false
	}
	for _, i := range m.ids {
		if i.st != msAbsent {
			return false
		}
	}
	return true
}

func (m *rm) remove(i int, why string) {
	m.gone[m.ids[i].req] = true
	m.ids[i] = rmID{why: why, req: -1}
}

func (m *rm) stop(i int, why string) {
	id := &m.ids[i]
	if id.st == msAbsent || id.stopping {
		return
	}
	id.stopping = true
	id.why = why
}

func (m *rm) stopAll(why string) {
	m.killed = true
	m.dying = true
	m.felled = false
	m.dyingBy = why
	for i := range m.ids {
		m.stop(i, why)
	}
}

func (x *rt) done(m *rm, i int, err error, at time.Duration) {
	id := &m.ids[i]
	if err == nil {
		if id.stopping {
			m.remove(i, id.why)
		} else {
			m.remove(i, "C02 clean end")
		}
		return
	}
	if x.isFatal(err) {
		if m.final == nil || x.more(err, m.final) {
			m.final = err
		}
		m.remove(i, "C04 fatal")
		if !m.dying {
			m.dying, m.felled = true, true
			m.dyingBy = "C04 fatal error"
		}
		return
	}
	if !x.restart(err) {
		m.remove(i, "C02 not to be restarted")
		return
	}
	if id.stopping {
		m.remove(i, id.why)
		return
	}
	id.st = msWaiting
	id.since = at
	id.start = -1
}

// An rev is something that happened during a step: a request of the workload,
// or something observed that the model has to explain.
type rev struct {
	kind  string // start stop worker remove kill die ret fire
	call  *rCall
	start *rStart
	w     *rW
	// When it began and by when it had had its effect, in real time.
	lo, hi int
}

// precedes says whether e must have had its effect before f could.
func (e rev) precedes(f rev) bool {
	if e.kind == "stop" && (f.kind != "start" || classify(f.call.err) == "dead") {
		// A lookup needn't see yet what StopWorker does, nor a StartWorker
		// call that didn't get to the runner.
		return false
	}
	return e.hi < f.lo
}

func (e rev) String() string {
	switch {
	case e.call != nil:
		if e.call.kind == rcWorker && e.call.err == nil {
			return fmt.Sprintf("%v=%v", e.call, e.w)
		}
		return fmt.Sprintf("%v=%s", e.call, classify(e.call.err))
	case e.start != nil:
		return fmt.Sprintf("%s s%d (%s)", e.kind, e.start.n, e.start.req.id)
	case e.w != nil:
		return fmt.Sprintf("%s w%d (%s)", e.kind, e.w.n, e.w.start.req.id)
	}
	return e.kind
}

func (x *rt) idx(id string) int {
	for i, s := range x.ids {
		if s == id {
			return i
		}
	}
	return -1
}

const slack = 2 * time.Millisecond

// apply performs event e on m, or says why it can't have happened there.
func (x *rt) apply(m *rm, e rev) ([]*rm, *mism) {
	one := func(n *rm) ([]*rm, *mism) { return []*rm{n}, nil }
	no := func(props, f string, a ...any) ([]*rm, *mism) {
		return nil, &mism{props, fmt.Sprintf("%v: ", e) + fmt.Sprintf(f, a...)}
	}
	switch e.kind {
	case "kill":
		n := m.clone()
		n.killed = true
		return one(n)
	case "start":
		i := x.idx(e.call.id)
		got := classify(e.call.err)
		if m.dead() {
			if got != "dead" {
				return no("C09 C04", "runner has finished")
			}
			return one(m)
		}
		if e.call.req.ctxDone && got == "dead" {
			return one(m)
		}
		if m.dying {
			if got == "nil" || got == "dead" || got == "exists" && m.ids[i].st != msAbsent {
				return one(m)
			}
			return no("C09 C04", "runner is shutting down")
		}
		if m.ids[i].st != msAbsent {
			if got != "exists" {
				return no("C01", "the id is known (%v)", m.ids[i])
			}
			return one(m)
		}
		if got != "nil" {
			why := "C01"
			if m.ids[i].why != "" {
				why += " C08 " + m.ids[i].why
			}
			return no(why, "the id isn't known")
		}
		n := m.clone()
		n.ids[i] = rmID{st: msPending, req: e.call.req.n, start: -1, upAt: e.call.at}
		return one(n)
	case "stop":
		i := x.idx(e.call.id)
		got := classify(e.call.err)
		if m.dead() {
			if got != "dead" {
				return no("C09", "runner has finished")
			}
			return one(m)
		}
		if got != "nil" && !(m.dying && got == "dead") {
			return no("C03 C09", "runner is running")
		}
		n := m.clone()
		n.stop(i, "C03 StopWorker")
		return one(n)
	case "fire":
		i := x.idx(e.start.req.id)
		id := m.ids[i]
		f := e.start.at
		switch id.st {
		case msAbsent:
			why := id.why
			if why == "" {
				why = "C01 C02"
			}
			if m.dying {
				why += " C04"
			}
			return no("C01 "+why, "the id isn't known, there's nothing to start (%s)", id.why)
		case msStart, msUp:
			return no("C01", "another worker is being started or running")
		case msPending:
			if id.req != e.start.req.n {
				return no("C01", "started by request %d, should be by %d", e.start.req.n, id.req)
			}
			if !e.start.valueOK {
				return no("C01", "the context lacks the caller's value")
			}
		case msWaiting:
			if id.req != e.start.req.n {
				return no("C02 C01", "started by request %d, should be by %d", e.start.req.n, id.req)
			}
			if f < id.since+x.delay {
				return no("C02 C34", "restarted at %v, but it ended at %v and the delay is %v", f, id.since, x.delay)
			}
			if f > id.since+x.delay+slack {
				return no("C02 C34", "restarted late at %v, it ended at %v and the delay is %v", f, id.since, x.delay)
			}
			if id.stopping {
				return no(id.why+" C03", "it was stopped while it waited to be restarted")
			}
		}
		n := m.clone()
		n.ids[i].st = msStart
		n.ids[i].start = e.start.n
		return one(n)
	case "ret":
		i := x.idx(e.start.req.id)
		id := m.ids[i]
		if id.st != msStart || id.start != e.start.n {
			return no("C01", "not being started")
		}
		n := m.clone()
		if e.start.retErr != nil {
			x.done(n, i, e.start.retErr, e.start.retAt)
		} else {
			n.ids[i].st = msUp
			n.ids[i].upAt = e.start.retAt
			n.ids[i].up = true
		}
		return one(n)
	case "die":
		i := x.idx(e.w.start.req.id)
		id := m.ids[i]
		if id.st != msUp || id.start != e.w.start.n {
			return no("C01", "not running")
		}
		n := m.clone()
		x.done(n, i, e.w.err, e.w.diedAt)
		return one(n)
	case "worker":
		i := x.idx(e.call.id)
		got := classify(e.call.err)
		if e.call.aborted && got == "aborted" {
			return one(m)
		}
		if m.killed {
			if got != "dead" && !(got == "notfound" && m.ids[i].st == msAbsent && !m.settled) {
				return no("C06 C09", "runner is shutting down")
			}
			return one(m)
		}
		id := m.ids[i]
		if id.st == msAbsent {
			if got != "notfound" {
				return no("C06", "the id isn't known")
			}
			return one(m)
		}
		if id.st == msUp && !id.stopping {
			w := unwrapW(e.call.w)
			if got != "nil" || w == nil || w.start.n != id.start {
				return no("C06", "should have returned the running worker of s%d", id.start)
			}
			return one(m)
		}
		// A worker that has been asked to stop, but hasn't ended, may
		// still be handed out.
		if id.st == msUp {
			w := unwrapW(e.call.w)
			if got == "nil" && w != nil && w.start.n == id.start {
				return one(m)
			}
		}
		return no("C06", "should be waiting (%v)", id)
	case "remove":
		i := x.idx(e.call.id)
		got := classify(e.call.err)
		k := -1
		for j := range m.removes {
			if m.removes[j].call == e.call.n {
				k = j
			}
		}
		fin := func() ([]*rm, *mism) {
			n := m.clone()
			n.removes = append(n.removes[:k], n.removes[k+1:]...)
			return one(n)
		}
		if e.call.aborted && got == "aborted" {
			out, _ := fin()
			if id := m.ids[i]; m.removes[k].phase == phLookup && id.st == msUp && !id.stopping && !m.dying {
				n := m.clone()
				n.removes[k] = rmRemove{e.call.n, phOrphan, id.req, id.start}
				out = append(out, n)
			}
			return out, nil
		}
		r := m.removes[k]
		id := m.ids[i]
		if r.phase == phGrabbed {
			if !m.gone[r.req] {
				return no("C07", "returned before the worker is removed")
			}
			w := x.starts[r.start].w
			if !w.returnedAs(e.call.err) {
				return no("C07", "should return the worker's error, %v", w.err)
			}
			return fin()
		}
		// One of several calls: the worker may have been stopped on behalf
		// of any of them, or of something else.
		for _, s := range x.starts {
			if s.w != nil && s.w.died && s.req.id == e.call.id && m.gone[s.req.n] && s.w.diedRound >= e.call.round && s.w.returnedAs(e.call.err) {
				return fin()
			}
		}
		switch {
		case m.killed:
			if got == "dead" || got == "notfound" && id.st == msAbsent && !m.settled {
				return fin()
			}
			return no("C07 C09", "runner is shutting down")
		case id.st == msAbsent:
			if got == "notfound" {
				return fin()
			}
			return no("C07", "the id isn't known")
		}
		return no("C07", "should be waiting (%v)", id)
	case "names", "report":
		var ms []mism
		add := func(props, f string, a ...any) { ms = append(ms, mism{props, fmt.Sprintf(f, a...)}) }
		if e.kind == "names" {
			x.checkNames(m, e.call.names, add)
		} else {
			x.checkReport(m, rReport(x.c, e.call.report), add)
		}
		if len(ms) > 0 {
			return no(ms[0].props, "%s", ms[0].msg)
		}
		return one(m)
	}
	panic("unknown event " + e.kind)
}

// internal lists the steps that the runner may take on its own in state m.
func (x *rt) internal(m *rm) []*rm {
	var out []*rm
	if m.felled {
		n := m.clone()
		n.stopAll("C04 fatal error")
		out = append(out, n)
	}
	if m.killed && !m.dying {
		n := m.clone()
		n.stopAll("C04 kill")
		out = append(out, n)
	}
	for i, id := range m.ids {
		if id.st == msWaiting && (id.stopping || m.killed) {
			n := m.clone()
			n.remove(i, id.why)
			out = append(out, n)
		}
		if id.st == msPending && id.stopping {
			// It's fine not to start what has been stopped already.
			n := m.clone()
			n.remove(i, id.why)
			out = append(out, n)
		}
	}
	for j, r := range m.removes {
		if r.phase == phOrphan {
			n := m.clone()
			n.removes = append(n.removes[:j], n.removes[j+1:]...)
			i := x.idx(x.calls[r.call].id)
			if id := m.ids[i]; id.st == msUp && id.req == r.req && id.start == r.start {
				n.stop(i, "C07 StopAndRemoveWorker")
			}
			out = append(out, n)
		}
	}
	for i, id := range m.ids {
		if id.st != msUp || id.stopping || m.dying {
			continue
		}
		var open []int
		for j, r := range m.removes {
			if r.phase == phLookup && x.calls[r.call].id == x.ids[i] {
				open = append(open, j)
			}
		}
		if len(open) == 0 {
			continue
		}
		n := m.clone()
		if len(open) == 1 {
			n.removes[open[0]].phase = phGrabbed
			n.removes[open[0]].req = id.req
			n.removes[open[0]].start = id.start
		}
		n.stop(i, "C07 StopAndRemoveWorker")
		out = append(out, n)
	}
	return out
}

// obs is what can be observed of the runner when it has come to rest.
type rObs struct {
	names    []string
	report   map[string]map[string]any
	now      time.Duration
	waitDone bool
	waitErr  error
	hint     string
	fired    []*rStart
}

func (x *rt) final(m *rm, o *rObs) []mism {
	if m.felled {
		// It doesn't come to rest like this.
		return make([]mism, 1000)
	}
	for _, r := range m.removes {
		if r.phase == phOrphan {
			return make([]mism, 1000)
		}
	}
	var ms []mism
	add := func(props, f string, a ...any) { ms = append(ms, mism{props, fmt.Sprintf(f, a...)}) }
	for i, id := range m.ids {
		name := x.ids[i]
		switch id.st {
		case msPending:
			if id.stopping {
				// It needn't be started, but must go away then.
				add(id.why+" C01", "%s was stopped before its start, but lingers", name)
			} else {
				add("C01", "start function of %s hasn't been called", name)
			}
		case msWaiting:
			if id.stopping {
				add(id.why, "%s was stopped, but still waits to be restarted", name)
			} else if o.now > id.since+x.delay+slack {
				add("C02 C34", "%s should have been restarted at %v", name, id.since+x.delay)
			}
		case msStart:
			s := x.starts[id.start]
			x.checkCtx(m, s, add)
		case msUp:
			s := x.starts[id.start]
			x.checkCtx(m, s, add)
			k := s.w.kills.Load() > 0
			want := id.stopping || m.dying
			if k && !want {
				add("C01 C02 C03 C04 C07 "+o.hint, "w%d (%s) was killed for no reason", s.w.n, name)
			}
			if !k && want {
				add(id.why+" "+m.dyingBy, "w%d (%s) should have been killed: %s", s.w.n, name, id.why)
			}
			if s.w.waits.Load() == 0 {
				add("C04 C01 C02", "nobody waits for w%d (%s)", s.w.n, name)
			}
		}
	}
	for _, s := range o.fired {
		if !s.liveOK && !m.dying && !(s.first && s.req.ctxDone) {
			add("C01 C02", "the context of s%d was cancelled from the beginning", s.n)
		}
	}
	if o.report != nil {
		x.checkNames(m, o.names, add)
		x.checkReport(m, o.report, add)
	}
	// Calls.
	for _, rc := range x.calls {
		if rc.done.Load() || !rc.began.Load() {
			continue
		}
		switch rc.kind {
		case rcStart, rcStop, rcKill:
			p := "C09"
			if rc.kind == rcKill {
				p = "C09 C04"
			}
			add(p, "%v hangs", rc)
		case rcNames, rcReport:
			add("C08 C09", "%v hangs", rc)
		case rcWorker:
			id := m.ids[x.idx(rc.id)]
			switch {
			case rc.aborted:
				add("C06 C09", "%v hangs after abort", rc)
			case m.dying:
				add("C06 C09 C04", "%v hangs during shutdown", rc)
			case id.st == msAbsent:
				add("C06 C09", "%v hangs, the id isn't known", rc)
			case id.st == msUp && !id.stopping:
				add("C06 C09", "%v hangs, though the worker is up", rc)
			}
		case rcRemove:
			for _, r := range m.removes {
				if r.call != rc.n || r.phase == phDone {
					continue
				}
				id := m.ids[x.idx(rc.id)]
				switch {
				case rc.aborted:
					add("C07 C09", "%v hangs after abort", rc)
				case r.phase == phGrabbed:
					if m.gone[r.req] {
						add("C07 C09", "%v hangs, the worker has been removed", rc)
					}
				case m.dying && id.st != msUp:
					add("C07 C09 C04", "%v hangs during shutdown", rc)
				case id.st == msAbsent:
					add("C07 C09", "%v hangs, the id isn't known", rc)
				case id.st == msUp && !id.stopping && !m.dying:
					add("C07 C09", "%v should have killed the worker", rc)
				}
			}
		}
	}
	if m.killed && !m.dying {
		add("C04", "Kill has no effect")
	}
	if !x.waitCall.began.Load() {
	} else if m.dead() != o.waitDone {
		if o.waitDone {
			add("C04", "Wait returned, but not everything has stopped (dying=%v %v)", m.dying, m.ids)
		} else {
			add("C04 C09", "Wait hasn't returned, though everything has stopped")
		}
	} else if o.waitDone {
		if !sameErr(o.waitErr, m.final) {
			add("C05", "Wait returned %v, should be %v", o.waitErr, m.final)
		}
	}
	return ms
}

func (x *rt) checkNames(m *rm, names []string, add func(props, f string, a ...any)) {
	known := map[string]bool{}
	for i, id := range m.ids {
		if id.st != msAbsent {
			known[x.ids[i]] = true
		}
	}
	got := map[string]bool{}
	for _, n := range names {
		if got[n] {
			add("C08", "WorkerNames lists %q twice", n)
		}
		got[n] = true
		if !known[n] {
			why := ""
			if i := x.idx(n); i >= 0 {
				why = m.ids[i].why
			}
			add("C08 "+why, "WorkerNames lists %q, which should be gone (%s)", n, why)
		}
	}
	for n := range known {
		if !got[n] {
			add("C08 C01 C02", "WorkerNames doesn't list %q", n)
		}
	}
}

func (x *rt) checkReport(m *rm, report map[string]map[string]any, add func(props, f string, a ...any)) {
	known := map[string]bool{}
	for i, id := range m.ids {
		if id.st != msAbsent {
			known[x.ids[i]] = true
		}
	}
	for n, r := range report {
		if !known[n] {
			why := ""
			if i := x.idx(n); i >= 0 {
				why = m.ids[i].why
			}
			add("C08 "+why, "Report lists %q, which should be gone (%s)", n, why)
			continue
		}
		id := m.ids[x.idx(n)]
		st := fmt.Sprint(r["state"])
		up := id.st == msUp && !id.stopping && (!m.dying || m.felled)
		if up != (st == "started") {
			add("C08", "Report says %q is %s, should be up=%v (%v)", n, st, up, id)
		}
		if st != "started" && st != "stopped" && st != "stopping" && st != "starting" {
			add("C08", "Report says %q is %q", n, st)
		}
		rep, has := r["report"]
		if up && x.starts[id.start].w.reports {
			if fmt.Sprint(rep) != fmt.Sprint(map[string]any{"worker": x.starts[id.start].w.n}) {
				add("C08", "Report of %q has report %v, should be that of w%d", n, rep, x.starts[id.start].w.n)
			}
		} else if up && has {
			add("C08", "Report of %q has a report %v, but its worker hasn't", n, rep)
		}
		if up || !id.up {
			lo := rClock{x.c}.at(id.upAt - slack).UTC().Format("2006-01-02 15:04:05")
			hi := rClock{x.c}.at(id.upAt + slack).UTC().Format("2006-01-02 15:04:05")
			if s := fmt.Sprint(r["started"]); s != lo && s != hi {
				add("C08", "Report says %q was started at %v, should be %v", n, s, lo)
			}
		}
	}
	for n := range known {
		if _, ok := report[n]; !ok {
			add("C08", "Report doesn't list %q", n)
		}
	}
}

// rReport unpacks what Report returned.
func rReport(c *Case, rep map[string]any) map[string]map[string]any {
	out := map[string]map[string]any{}
	ws, ok := rep["workers"].(map[string]any)
	if !ok {
		c.fail([]string{"C08"}, "report", "Report lacks workers: %v", rep)
	}
	for k, v := range ws {
		m, ok := v.(map[string]any)
		if !ok {
			c.fail([]string{"C08"}, "report", "Report: entry of %q is a %T", k, v)
		}
		out[k] = m
	}
	return out
}

func sameErr(got, want error) bool {
	if want == errGoexit {
		return got != nil && strings.Contains(got.Error(), "Goexit")
	}
	return same(got, want)
}

func (x *rt) checkCtx(m *rm, s *rStart, add func(props, f string, a ...any)) {
	cancelled := s.ctx.Err() != nil
	want := m.dying || s.first && s.req.ctxDone
	if cancelled && !want {
		add("C01", "context of s%d is cancelled for no reason", s.n)
	}
	if !cancelled && want {
		p := "C04"
		if !m.dying {
			p = "C01"
		}
		add(p, "context of s%d isn't cancelled", s.n)
	}
}

// step runs one batch of requests, lets the runner come to rest, and checks
// that some order of what happened explains all that can be observed.
func (x *rt) step(evs []rev, hint string) {
	c := x.c
	c.settle()
	x.observe(evs, hint)
}

func (x *rt) observe(evs []rev, hint string) {
	c := x.c
	// Take the observations that need calls of their own.
	o := &rObs{hint: hint}
	var rep map[string]any
	// It mustn't depend on being looked at.
	for look := c.chance(70); look; {
		gen := c.gen()
		nc := make(chan struct{})
		go func() {
			o.names = x.r.WorkerNames()
			rep = x.r.Report()
			close(nc)
		}()
		c.settle()
		select {
		case <-nc:
		default:
			c.fail([]string{"C08", "C09", "C04"}, "hang", "WorkerNames or Report hangs")
		}
		if c.gen() == gen {
			break
		}
		// A restart came due in between: look again.
	}
	if rep != nil {
		o.report = rReport(c, rep)
	}
	o.now = c.now()
	o.waitDone = x.waitCall.done.Load()
	o.waitErr = x.waitCall.err

	// Gather what happened.
	x.mu.Lock()
	starts := append([]*rStart(nil), x.starts...)
	x.mu.Unlock()
	for _, s := range starts[x.seenStarts:] {
		// A restart is under way before the start function is called.
		lo := s.seq
		if !s.first {
			lo = -1
		}
		evs = append(evs, rev{kind: "fire", start: s, lo: lo, hi: s.seq})
	}
	o.fired = starts[x.seenStarts:]
	x.seenStarts = len(starts)
	for _, s := range starts {
		if s.returned && !s.retSeen {
			s.retSeen = true
			evs = append(evs, rev{kind: "ret", start: s, lo: s.retSeq, hi: math.MaxInt})
		}
	}
	for _, rc := range x.calls {
		if rc.seen || !rc.done.Load() {
			continue
		}
		rc.seen = true
		e := rev{call: rc, lo: rc.lo, hi: rc.hi}
		switch rc.kind {
		case rcKill:
			e.kind = "kill"
		case rcStart:
			e.kind = "start"
		case rcStop:
			e.kind = "stop"
		case rcWorker:
			e.kind = "worker"
			e.w = unwrapW(rc.w)
			if rc.err == nil && (e.w == nil || e.w.start.req.id != rc.id) {
				c.fail([]string{"C06"}, "lookup", "%v returned %v", rc, rc.w)
			}
		case rcRemove:
			e.kind = "remove"
		case rcNames:
			e.kind = "names"
		case rcReport:
			e.kind = "report"
		default:
			continue
		}
		evs = append(evs, e)
	}
	// New removal calls enter the model.
	defer func() {
		for _, rc := range x.calls {
			rc.entered = rc.began.Load()
		}
		x.round.Add(1)
	}()
	for _, m := range x.states {
		have := map[int]bool{}
		for _, r := range m.removes {
			have[r.call] = true
		}
		for _, rc := range x.calls {
			if rc.kind == rcRemove && !have[rc.n] && !rc.entered && rc.began.Load() {
				m.removes = append(m.removes, rmRemove{call: rc.n})
			}
		}
	}
	x.states = search(c, x.states, evs, x.apply, x.internal, func(m *rm) []mism { return x.final(m, o) })
	scribble(rep, "workers")
	for i := range o.names {
		o.names[i] = "scribble"
	}
	for _, m := range x.states {
		m.settled = m.dying
	}
}
