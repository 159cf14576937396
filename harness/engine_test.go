package harness

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	jujuerrors "github.com/juju/errors"

	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/dependency"
)

// Kinds of errors with which workers and start functions end.
const (
	ekNil = iota
	ekPlain
	ekTryAgain
	ekMissing
	ekBounce
	ekUninstall
	ekFatal
	ekKinds
)

var ekNames = []string{"nil", "plain", "tryagain", "missing", "bounce", "uninstall", "fatal"}

// eErr is an error of the workload.
type eErr struct {
	n     int
	kind  int
	rank  int
	via   string
	under error
}

func (e *eErr) Error() string {
	s := fmt.Sprintf("e%d-%s-r%d%s", e.n, ekNames[e.kind], e.rank, e.via)
	if e.kind == ekTryAgain {
		s += " try again"
	}
	return s
}

func (e *eErr) Unwrap() error { return e.under }

// Cause leads to an error that should be treated differently.
func (e *eErr) Cause() error {
	if e.n%3 != 0 {
		return e
	}
	k := (e.kind + 1 + e.n/3%(ekKinds-1)) % ekKinds
	if k == ekNil {
		k = ekPlain
	}
	return &eErr{n: e.n + 1000, kind: k, rank: (e.rank + 250) % 500, under: under(k)}
}

func under(kind int) error {
	switch kind {
	case ekMissing:
		return dependency.ErrMissing
	case ekBounce:
		return dependency.ErrBounce
	case ekUninstall:
		return dependency.ErrUninstall
	}
	return nil
}

// kindOf classifies an error; -1 is one that the workload didn't make.
func kindOf(err error) int {
	if err == nil {
		return ekNil
	}
	var e *eErr
	if errors.As(err, &e) {
		return e.kind
	}
	switch err {
	case dependency.ErrMissing:
		return ekMissing
	case dependency.ErrBounce:
		return ekBounce
	case dependency.ErrUninstall:
		return ekUninstall
	}
	return -1
}

// Modes of a manifold's start function.
const (
	emControlled = iota // returns when the workload says so
	emOK                // makes a worker at once
	emNeedAll           // fails with ErrMissing unless all inputs are there
	emCtx               // like emControlled, but fails when its context ends
	emSelf              // the engine itself
)

type eSpec struct {
	n       int
	name    string
	inputs  []string
	mode    int
	out     int // 0 none, 1 the worker's number, 2 fails
	outErr  error
	filter  []int // by kind; nil: none
	reports bool
	// interrupt is the error of an interrupted emCtx start.
	interrupt error
	engine    bool // the start function returns the engine
}

func (s *eSpec) String() string {
	return fmt.Sprintf("spec%d %s inputs=%v mode=%d out=%d filter=%v", s.n, s.name, s.inputs, s.mode, s.out, s.filter)
}

type eProbe struct {
	has   int // Get(name, nil): 0 nil, 1 ErrMissing, 2 other
	out   int // Get(name, &n): 0 nil, 1 ErrMissing, 2 the output's error, 3 other
	value int
	str   int // the same for other targets, which outputs treat differently
	tgt   int
}

// An eTarget is a target that knows what became of it.
type eTarget struct {
	calls, n int
	err      error
}

type eStart struct {
	n        int
	spec     *eSpec
	at       time.Duration
	seq      int
	ctx      context.Context
	getter   dependency.Getter
	release  chan error
	released bool
	probes   map[string]eProbe
	asks     map[string]uint64 // which of its questions it asks
	liveOK   bool
	stable   bool

	returned bool
	retSeen  bool
	retErr   error
	retAt    time.Duration
	retSeq   int
	w        *eW
	ended    bool
}

type eW struct {
	n      int
	start  *eStart
	kills  atomic.Int32
	waits  atomic.Int32
	done   chan struct{}
	err    error
	died   bool
	diedAt time.Duration
	c      *Case
	reps   atomic.Int32
	// obedient workers end as soon as they are killed.
	obedient bool
	obeyErr  error
	x        *et
	seq      int
}

func (w *eW) Kill() {
	k := w.kills.Add(1)
	w.c.logf("  kill w%d (%s)", w.n, w.start.spec.name)
	if w.obedient && k == 1 {
		go func() {
			w.c.jitter()
			w.x.mu.Lock()
			if w.died {
				w.x.mu.Unlock()
				return
			}
			w.died = true
			w.err = w.obeyErr
			w.diedAt = w.c.now()
			w.x.seq++
			w.seq = w.x.seq
			w.x.obeyed = append(w.x.obeyed, w)
			w.x.mu.Unlock()
			w.c.logf("w%d (%s) obeys: %v", w.n, w.start.spec.name, w.err)
			close(w.done)
		}()
	}
}

func (w *eW) Wait() error {
	w.waits.Add(1)
	<-w.done
	return w.err
}

type eRW struct {
	*eW
	// It can't be compared.
	_ []int
}

func (w eRW) Report() map[string]any {
	w.reps.Add(1)
	return map[string]any{"worker": w.n}
}

func unwrapEW(w worker.Worker) *eW {
	switch w := w.(type) {
	case *eW:
		return w
	case eRW:
		return w.eW
	}
	return nil
}

type eCall struct {
	n     int
	spec  *eSpec
	lo    int
	hi    int
	err   error
	began atomic.Bool
	done  atomic.Bool
	seen  bool
	at    time.Duration
	what  string
	retAt time.Duration
	// then is called afterwards by the same client.
	then   *eCall
	report map[string]any
}

func (c *eCall) String() string { return fmt.Sprintf("#%d %s", c.n, c.what) }

// et is the run-time side of an engine case.
type et struct {
	c    *Case
	e    *dependency.Engine
	conf dependency.EngineConfig

	mu     sync.Mutex
	seq    int
	names  []string
	specs  []*eSpec
	starts []*eStart
	ws     []*eW
	obeyed []*eW
	calls  []*eCall
	nerr   int
	memo   map[string]error
	met    map[string]int

	engineFilter int
	seenStarts   int
	states       []*em
	waitCall     *eCall
	waiting      bool
	killCall     *eCall
	killed       bool
}

func (x *et) next() int {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.seq++
	return x.seq
}

func (x *et) idx(name string) int {
	for i, n := range x.names {
		if n == name {
			return i
		}
	}
	return -1
}

func (x *et) mkErr(kind int) error {
	if kind == ekNil {
		return nil
	}
	x.mu.Lock()
	x.nerr++
	n := x.nerr
	x.mu.Unlock()
	if u := under(kind); u != nil && x.c.n(3) == 0 {
		return u
	}
	u := under(kind)
	if u == nil && x.c.n(5) == 0 {
		u = famous[x.c.n(len(famous))]
	}
	err := error(&eErr{n: n, kind: kind, rank: x.c.n(5)*100 + n, under: u})
	if x.c.n(4) == 0 {
		return jujuerrors.Annotate(err, "wrapped")
	}
	return x.c.dressed(err)
}

func (x *et) randKind() int {
	if x.c.chance(97) {
		return []int{ekNil, ekNil, ekPlain, ekPlain, ekPlain, ekTryAgain, ekMissing, ekMissing, ekBounce, ekBounce, ekUninstall}[x.c.n(11)]
	}
	return []int{ekNil, ekNil, ekPlain, ekPlain, ekPlain, ekTryAgain, ekMissing, ekMissing, ekBounce, ekBounce, ekUninstall, ekFatal}[x.c.n(12)]
}

// filtered is what spec's filter makes of err. It is the same error whenever
// it's called for the same one.
func (x *et) filtered(s *eSpec, err error) error {
	if s.filter == nil {
		return err
	}
	k := kindOf(err)
	if k < 0 {
		return err
	}
	t := s.filter[k]
	if t == k {
		return err
	}
	if t == ekNil {
		return nil
	}
	text := "nil"
	n, rank := 0, 1
	if err != nil {
		text = err.Error()
		var e *eErr
		if errors.As(err, &e) {
			n, rank = e.n, e.rank
		}
	}
	key := fmt.Sprintf("%d/%d/%s/%d", s.n, n, text, t)
	x.mu.Lock()
	defer x.mu.Unlock()
	if r, ok := x.memo[key]; ok {
		return r
	}
	r := &eErr{n: n, kind: t, rank: rank, under: under(t), via: "-via" + fmt.Sprint(s.n) + ekNames[max(k, 0)]}
	x.memo[key] = r
	return r
}

func rankOf(err error) int {
	var e *eErr
	if errors.As(err, &e) {
		return e.rank
	}
	if err != nil {
		return 0
	}
	return -1
}

// isFatal says that errors of unknown origin are fatal, so that they make a
// difference.
func (x *et) isFatal(err error) bool {
	k := kindOf(err)
	return k == ekFatal || k < 0
}

func (x *et) worst(a, b error) error {
	if rankOf(a) > rankOf(b) {
		return a
	}
	return b
}

type eFiltered struct{ error }

func (x *et) engFilter(err error) error {
	switch x.engineFilter {
	case 1:
		if err == nil {
			return nil
		}
		return eFiltered{err}
	case 2:
		if err == nil {
			return errNilFiltered
		}
		return nil
	}
	return err
}

var errNilFiltered = errors.New("filtered nil")

// RecordStart implements dependency.Metrics.
func (x *et) RecordStart(name string) {
	x.mu.Lock()
	x.met[name]++
	x.mu.Unlock()
}

func (x *et) probe(s *eStart) map[string]eProbe {
	out := map[string]eProbe{}
	for _, n := range append([]string{"nope"}, x.names...) {
		p := eProbe{value: -1}
		class := func(err error) int {
			var oe *outError
			switch {
			case err == nil:
				return 0
			case errors.Is(err, dependency.ErrMissing):
				return 1
			case errors.As(err, &oe):
				if p.value != -1 && p.value != oe.worker {
					return 4
				}
				p.value = oe.worker
				return 2
			}
			return 3
		}
		// In any order.
		first := int(x.c.hr() % 4)
		for k := range 4 {
			q := (first + k) % 4
			if s.asks[n]&(1<<q) == 0 {
				continue
			}
			switch q {
			case 0:
				p.has = class(s.getter.Get(n, nil))
			case 1:
				v := -1
				if p.out = class(s.getter.Get(n, &v)); p.out == 0 {
					p.value = v
				}
			case 2:
				text := "-"
				odd := []any{&text, &text, (*string)(nil), (*error)(nil), (func())(nil), map[string]int(nil), []int{}, "", 0, struct{}{}}
				if p.str = class(s.getter.Get(n, odd[x.c.hr()%uint64(len(odd))])); text != "-" {
					p.str = 5
				}
			case 3:
				t := eTarget{n: -1}
				err := s.getter.Get(n, &t)
				switch p.tgt = class(err); {
				case t.calls > 1, (p.tgt == 0 || p.tgt == 2) != (t.calls == 1), t.err != nil && err != t.err:
					p.tgt = 6
				case p.tgt == 0:
					p.value = t.n
				}
			}
		}
		out[n] = p
	}
	return out
}

// questions chooses what s asks its getter. Not all start functions use all of
// their inputs, or any.
func (x *et) questions(s *eStart) {
	s.asks = map[string]uint64{}
	how := x.c.hr() % 10
	for _, n := range append([]string{"nope"}, x.names...) {
		switch {
		case how < 6:
			s.asks[n] = 15
		case how < 8:
			s.asks[n] = 0
		default:
			s.asks[n] = x.c.hr() % 32
		}
	}
}

// unasked puts in what wasn't asked for.
func (p eProbe) unasked(asks uint64, want eProbe) eProbe {
	for i, f := range []struct{ have, want *int }{{&p.has, &want.has}, {&p.out, &want.out}, {&p.str, &want.str}, {&p.tgt, &want.tgt}} {
		if asks&(1<<i) == 0 {
			*f.have = *f.want
		}
	}
	if p.value == -1 && asks&14 != 14 {
		p.value = want.value
	}
	return p
}

type outError struct{ spec, worker int }

func (e *outError) Error() string { return fmt.Sprintf("no output of spec%d w%d", e.spec, e.worker) }

func (x *et) manifold(s *eSpec) dependency.Manifold {
	c := x.c
	m := dependency.Manifold{}
	if s.inputs != nil {
		m.Inputs = append([]string{}, s.inputs...)
	}
	if s.filter != nil {
		m.Filter = func(err error) error { return x.filtered(s, err) }
	}
	switch s.out {
	case 1:
		m.Output = func(in worker.Worker, out any) error {
			w := unwrapEW(in)
			if w == nil {
				return fmt.Errorf("bad output call %T %T", in, out)
			}
			if w.start.spec != s {
				return fmt.Errorf("output of spec%d called with a worker of spec%d", s.n, w.start.spec.n)
			}
			switch p := out.(type) {
			case *int:
				*p = w.n
				return nil
			case *eTarget:
				p.calls++
				p.n = w.n
				return nil
			case nil:
			default:
				return &outError{s.n, w.n}
			}
			return fmt.Errorf("bad output call %T %T", in, out)
		}
	case 2:
		m.Output = func(in worker.Worker, out any) error {
			w := unwrapEW(in)
			if w == nil {
				return fmt.Errorf("bad output call %T %T", in, out)
			}
			err := error(&outError{s.n, w.n})
			switch p := out.(type) {
			case nil:
				return fmt.Errorf("bad output call %T %T", in, out)
			case *int:
			case *eTarget:
				p.calls++
				p.err = err
			default:
				err = fmt.Errorf("nothing for you: %w", dependency.ErrMissing)
			}
			return err
		}
	}
	if s.mode == emSelf {
		m.Output = dependency.SelfManifold(x.e).Output
	}
	m.Start = func(ctx context.Context, getter dependency.Getter) (worker.Worker, error) {
		live := ctx.Err() == nil
		x.mu.Lock()
		x.seq++
		st := &eStart{n: len(x.starts), spec: s, at: c.now(), seq: x.seq, ctx: ctx, getter: getter, release: make(chan error, 1), liveOK: live}
		x.starts = append(x.starts, st)
		n := len(x.starts)
		x.mu.Unlock()
		if n > 3000 {
			c.fail([]string{"*"}, "livelock", "start functions called %d times", n)
		}
		x.questions(st)
		st.probes = x.probe(st)
		c.logf("  start s%d of %s (spec%d) sees %s", st.n, s.name, s.n, x.probeString(st))
		var err error
		switch s.mode {
		case emControlled:
			err = <-st.release
		case emCtx:
			select {
			case err = <-st.release:
			case <-ctx.Done():
				err = s.interrupt
			}
		case emNeedAll:
			for _, in := range s.inputs {
				if err == nil {
					err = getter.Get(in, nil)
				}
			}
			if err != nil {
				err = dependency.ErrMissing
			}
		}
		// What it sees doesn't change during the start.
		st.stable = fmt.Sprint(st.probes) == fmt.Sprint(x.probe(st))
		x.mu.Lock()
		x.seq++
		st.returned, st.retErr, st.retAt, st.retSeq = true, err, c.now(), x.seq
		if err == nil && s.mode != emSelf {
			st.w = &eW{n: len(x.ws), start: st, done: make(chan struct{}), c: c, x: x}
			x.ws = append(x.ws, st.w)
			if (st.n*7+s.n)%3 == 0 {
				st.w.obedient = true
				if k := c.hr() % 10; k < 5 {
					x.nerr++
					kind := []int{ekPlain, ekMissing, ekBounce, ekUninstall, ekTryAgain}[k]
					st.w.obeyErr = &eErr{n: x.nerr, kind: kind, rank: x.nerr, under: under(kind)}
				}
			}
		}
		x.mu.Unlock()
		if err != nil {
			c.logf("  s%d fails: %v", st.n, err)
			return nil, err
		}
		if s.mode == emSelf {
			c.logf("  s%d returns the engine", st.n)
			return x.e, nil
		}
		c.logf("  s%d makes w%d obedient=%v", st.n, st.w.n, st.w.obedient)
		if s.reports {
			return eRW{eW: st.w}, nil
		}
		return st.w, nil
	}
	return m
}

func (x *et) probeString(s *eStart) string {
	var out []string
	for _, n := range x.names {
		if s.asks[n] == 0 {
			out = append(out, n+":?")
		} else if p := s.probes[n]; p.has == 0 {
			out = append(out, fmt.Sprintf("%s:%d/%d", n, p.out, p.value))
		}
	}
	return "[" + strings.Join(out, " ") + "]"
}

// ---- reference model ----

const (
	mfStopped = iota
	mfPending
	mfStarting
	mfUp
	mfLate // came up, but isn't wanted any more
)

var mfNames = []string{"stopped", "pending", "starting", "up", "late"}

type emM struct {
	installed bool
	spec      int
	st        int
	stopping  bool
	// unsettled is set if stopping was set since the engine last came to rest.
	unsettled bool
	stopAt    time.Duration
	start     int
	snap      []int // by input: the start whose worker is seen, or -1
	lo, hi    time.Duration
	why       string
	rec       int
	count     int
	upAt      time.Duration
	hasUp     bool
	err       error
	aborted   bool // err is of no concern
	stopWhy   string
	// again is set if the name has been used before.
	again bool
}

type em struct {
	ms      []emM
	dying   bool
	fresh   bool // dying, and hasn't come to rest since
	allStop bool
	worst   error
	ups     []int // by name: how often a worker has come up
}

// afresh names the property that a manifold whose name has been used before
// doesn't carry on where that left off.
func (s *emM) afresh() string {
	if s.again {
		return " C20"
	}
	return ""
}

func (m *em) clone() *em {
	n := *m
	n.ms = append([]emM(nil), m.ms...)
	n.ups = append([]int(nil), m.ups...)
	return &n
}

func (m *em) key() string {
	b := make([]byte, 0, 256)
	u := func(n int64) { b = binary.AppendVarint(b, n) }
	flag := func(f ...bool) {
		k := byte(0)
		for i, f := range f {
			if f {
				k |= 1 << i
			}
		}
		b = append(b, k)
	}
	for i := range m.ms {
		s := &m.ms[i]
		flag(s.installed, s.stopping, s.unsettled, s.hasUp, s.aborted, s.again)
		u(int64(s.spec))
		u(int64(s.st))
		u(int64(s.start))
		u(int64(s.lo))
		u(int64(s.hi))
		u(int64(s.rec))
		u(int64(s.count))
		u(int64(s.upAt))
		u(int64(s.stopAt))
		for _, n := range s.snap {
			u(int64(n))
		}
		b = append(b, errKey(s.err)...)
		b = append(b, s.why...)
		b = append(b, s.stopWhy...)
	}
	flag(m.dying, m.fresh, m.allStop)
	b = append(b, errKey(m.worst)...)
	for _, n := range m.ups {
		u(int64(n))
	}
	return string(b)
}

func (x *et) spec(m *em, i int) *eSpec { return x.specs[m.ms[i].spec] }

func (x *et) dead(m *em) bool {
	if !m.dying {
		return false
	}
	for i, s := range m.ms {
		if !s.installed || s.st == mfStopped {
			continue
		}
		if s.st == mfUp && x.spec(m, i).mode == emSelf {
			continue
		}
		return false
	}
	return true
}

// delayFor is the delay of a restart, without the fuzz; -1 is forever.
func (x *et) delayFor(base time.Duration, rec int) time.Duration {
	if base <= 0 {
		return 0
	}
	f := float64(base)
	if x.conf.BackoffFactor > 0 {
		f *= math.Pow(x.conf.BackoffFactor, float64(max(rec-1, 0)))
		if x.conf.MaxDelay > 0 && f > float64(x.conf.MaxDelay) {
			f = float64(x.conf.MaxDelay)
		}
	}
	if f > float64(100*365*24*time.Hour) {
		return -1
	}
	return time.Duration(f)
}

// forever is what a user may give as a delay that never ends.
const forever = time.Duration(math.MaxInt64)

func (x *et) requestStart(m *em, i int, base time.Duration, at time.Duration, why string) {
	if m.dying {
		return
	}
	s := &m.ms[i]
	s.st = mfPending
	s.stopping = false
	s.unsettled = false
	s.start = -1
	s.err = nil
	s.aborted = false
	s.hasUp = false
	s.why = why
	s.stopWhy = ""
	d := x.delayFor(base, s.rec)
	switch {
	case d < 0:
		s.lo, s.hi = at+90*365*24*time.Hour, math.MaxInt64
	case d == 0:
		s.lo, s.hi = at, at+slack
	default:
		s.lo = at + time.Duration(float64(d)*0.9) - time.Millisecond
		if s.lo < at {
			s.lo = at
		}
		s.hi = at + time.Duration(float64(d)*1.1) + time.Millisecond + slack
	}
	s.snap = nil
	for _, in := range x.specs[s.spec].inputs {
		v := -1
		if j := x.idx(in); j >= 0 && m.ms[j].installed && m.ms[j].st == mfUp {
			v = m.ms[j].start
		}
		s.snap = append(s.snap, v)
	}
}

func (x *et) requestStop(m *em, i int, at time.Duration, why string) {
	s := &m.ms[i]
	if !s.installed || s.stopping || s.st == mfStopped {
		return
	}
	s.stopping = true
	s.unsettled = true
	s.stopAt = at
	s.stopWhy = why
}

func (x *et) bounce(m *em, i int, at time.Duration) {
	name := x.names[i]
	for j := range m.ms {
		if !m.ms[j].installed {
			continue
		}
		for _, in := range x.specs[m.ms[j].spec].inputs {
			if in == name {
				if m.ms[j].st == mfStopped {
					x.requestStart(m, j, x.conf.BounceDelay, at, "C12 C20")
				} else {
					x.requestStop(m, j, at, "C12")
				}
				break
			}
		}
	}
}

// gotStopped is the end of a start attempt or worker. It returns the possible
// successors, of which m is one.
func (x *et) gotStopped(m *em, i int, err error, at time.Duration, aborted bool) []*em {
	s := &m.ms[i]
	var both bool
	switch {
	case aborted:
		s.rec = 1
	case err == nil:
		s.rec = 0
	case errors.Is(err, dependency.ErrMissing):
		s.rec = 1
	case !s.hasUp:
		s.rec++
	default:
		ran := at - s.upAt
		switch reset := x.conf.BackoffResetTime; {
		case ran < reset-slack:
			s.rec++
		case ran < reset+slack && reset > 0:
			both = true
			s.rec++
		default:
			s.rec = 1
		}
	}
	out := []*em{m}
	if both && s.rec != 1 {
		n := m.clone()
		n.ms[i].rec = 1
		out = append(out, n)
	}
	for _, m := range out {
		x.afterStop(m, i, err, at, aborted)
	}
	return out
}

func (x *et) afterStop(m *em, i int, err error, at time.Duration, aborted bool) {
	s := &m.ms[i]
	spec := x.specs[s.spec]
	if !aborted {
		err = x.filtered(spec, err)
		if x.isFatal(err) {
			m.worst = x.worst(err, m.worst)
			if !m.dying {
				m.dying, m.fresh = true, true
			}
		}
	}
	wasUp, stopping := s.st == mfUp, s.stopping
	s.st = mfStopped
	s.stopping, s.unsettled = false, false
	s.err, s.aborted = err, aborted
	s.hasUp = false
	s.start = -1
	if m.dying {
		return
	}
	switch {
	case stopping:
		x.requestStart(m, i, x.conf.BounceDelay, at, "C12 C14")
	case err == nil || aborted || errors.Is(err, dependency.ErrMissing):
		s.why = "C14 outcome " + ekNames[max(kindOf(err), 0)]
	case errors.Is(err, dependency.ErrBounce):
		x.requestStart(m, i, x.conf.BounceDelay, at, "C14")
	case errors.Is(err, dependency.ErrUninstall):
		m.ms[i] = emM{start: -1, why: "C20 C14 uninstalled"}
	default:
		x.requestStart(m, i, x.conf.ErrorDelay, at, "C14")
	}
	if wasUp {
		x.bounce(m, i, at)
	}
}

type eev struct {
	kind  string // install kill fire ret die
	lo    int
	hi    int
	at    time.Duration
	call  *eCall
	start *eStart
	w     *eW
}

func (e eev) String() string {
	switch {
	case e.call != nil:
		return fmt.Sprintf("%v=%v", e.call, e.call.err)
	case e.start != nil:
		return fmt.Sprintf("%s s%d (%s)", e.kind, e.start.n, e.start.spec.name)
	case e.w != nil:
		return fmt.Sprintf("%s w%d (%s)", e.kind, e.w.n, e.w.start.spec.name)
	}
	return e.kind
}

func (e eev) precedes(f eev) bool { return e.hi < f.lo }

func (x *et) cyclic(m *em, spec *eSpec) bool {
	inputs := map[string][]string{spec.name: spec.inputs}
	for i := range m.ms {
		if m.ms[i].installed {
			inputs[x.names[i]] = x.spec(m, i).inputs
		}
	}
	return hasCycle(inputs)
}

// hasCycle removes nodes without remaining inputs until none is left.
func hasCycle(inputs map[string][]string) bool {
	left := map[string]bool{}
	for n := range inputs {
		left[n] = true
	}
	for {
		removed := false
		for n := range left {
			ok := true
			for _, in := range inputs[n] {
				if left[in] {
					ok = false
				}
			}
			if ok {
				delete(left, n)
				removed = true
			}
		}
		if !removed {
			return len(left) > 0
		}
	}
}

// expected is what a start function that sees the workers of snap gets.
func (x *et) expected(spec *eSpec, snap []int, name string) eProbe {
	p := eProbe{1, 1, -1, 1, 1}
	for k, in := range spec.inputs {
		if in != name || snap[k] < 0 {
			continue
		}
		st := x.starts[snap[k]]
		p.has = 0
		switch {
		case st.spec.mode == emSelf:
			p.out, p.str, p.tgt = 3, 3, 3
		case st.spec.out == 0:
			p.out, p.str, p.tgt = 1, 1, 1
		case st.spec.out == 1:
			p.out, p.value, p.str, p.tgt = 0, st.w.n, 2, 0
		case st.spec.out == 2:
			p.out, p.value, p.str, p.tgt = 2, st.w.n, 1, 2
		}
	}
	return p
}

func (x *et) apply(m *em, e eev) ([]*em, *mism) {
	one := func(n *em) ([]*em, *mism) { return []*em{n}, nil }
	no := func(props, f string, a ...any) ([]*em, *mism) {
		return nil, &mism{props, fmt.Sprintf("%v: ", e) + fmt.Sprintf(f, a...)}
	}
	switch e.kind {
	case "kill":
		n := m.clone()
		if !n.dying {
			n.dying, n.fresh = true, true
		}
		return one(n)
	case "install":
		i := x.idx(e.call.spec.name)
		if x.dead(m) && !m.fresh && e.call.err == nil {
			return no("C11 C16", "accepted by a dead engine")
		}
		if m.dying && e.call.err != nil {
			return one(m)
		}
		refuse := ""
		if m.ms[i].installed {
			refuse = "the name is installed"
		} else if x.cyclic(m, e.call.spec) {
			refuse = "it makes a cycle"
		}
		if refuse != "" {
			if e.call.err == nil {
				return no("C11", "accepted, but %s", refuse)
			}
			return one(m)
		}
		if e.call.err != nil {
			return no("C11 C20", "refused for no reason")
		}
		n := m.clone()
		n.ms[i] = emM{installed: true, spec: e.call.spec.n, start: -1, why: "C11", again: m.ms[i].why != ""}
		x.requestStart(n, i, 0, e.at, "C11")
		return one(n)
	case "fire":
		i := x.idx(e.start.spec.name)
		s := m.ms[i]
		if !s.installed {
			return no("C20 C11 C14", "it isn't installed (%s)", s.why)
		}
		if s.spec != e.start.spec.n {
			return no("C20 C11", "start function of another manifold, should be that of spec%d", s.spec)
		}
		switch s.st {
		case mfStopped:
			p := "C14 C12"
			if m.dying {
				p = "C16"
			}
			return no(p+" "+s.why, "nothing should start it (%s)", s.why)
		case mfStarting, mfUp, mfLate:
			return no("C10", "it is %s already", mfNames[s.st])
		}
		if s.stopping && !s.unsettled {
			return no("C12 C16 "+s.stopWhy, "it was interrupted")
		}
		if m.dying && !m.fresh {
			return no("C16", "engine is shutting down")
		}
		if e.at < s.lo {
			return no("C15 C14"+s.afresh(), "at %v, not before %v (restart %d)", e.at, s.lo, s.rec)
		}
		if e.at > s.hi {
			return no("C15 "+s.why+s.afresh(), "at %v, later than %v (restart %d)", e.at, s.hi, s.rec)
		}
		for name, got := range e.start.probes {
			if want := x.expected(e.start.spec, s.snap, name); got.unasked(e.start.asks[name], want) != want {
				return no("C13 C12", "Get(%q) gives %v, should be %v", name, got, want)
			}
		}
		n := m.clone()
		n.ms[i].st = mfStarting
		n.ms[i].start = e.start.n
		return one(n)
	case "ret":
		i := x.idx(e.start.spec.name)
		s := m.ms[i]
		if s.st != mfStarting || s.start != e.start.n {
			return no("C10", "not being started")
		}
		n := m.clone()
		if e.start.retErr != nil {
			return x.gotStopped(n, i, e.start.retErr, e.at, false), nil
		}
		if s.stopping || m.dying {
			n.ms[i].st = mfLate
			if e.start.spec.mode == emSelf {
				// It goes away by itself.
				x.gotStopped(n, i, nil, e.at, true)
			}
			return one(n)
		}
		n.ms[i].st = mfUp
		n.ms[i].upAt = e.at
		n.ms[i].hasUp = true
		n.ms[i].count++
		n.ups[i]++
		x.bounce(n, i, e.at)
		return one(n)
	case "die":
		i := x.idx(e.w.start.spec.name)
		s := m.ms[i]
		if (s.st != mfUp && s.st != mfLate) || s.start != e.w.start.n {
			return no("C10", "not running")
		}
		n := m.clone()
		return x.gotStopped(n, i, e.w.err, e.at, false), nil
	}
	if e.kind == "report" {
		var ms []mism
		add := func(props, f string, a ...any) { ms = append(ms, mism{props, fmt.Sprintf(f, a...)}) }
		x.checkReport(m, e.call.report, false, add)
		if len(ms) > 0 {
			return no(ms[0].props, "%s", ms[0].msg)
		}
		return one(m)
	}
	panic("unknown event " + e.kind)
}

func (x *et) internal(m *em) []*em {
	var out []*em
	if m.dying && !m.allStop {
		n := m.clone()
		n.allStop = true
		for i := range n.ms {
			x.requestStop(n, i, x.c.now(), "C16")
		}
		out = append(out, n)
	}
	for i := range m.ms {
		s := &m.ms[i]
		if s.st == mfPending && (s.stopping || m.dying) {
			n := m.clone()
			out = append(out, x.gotStopped(n, i, nil, s.stopAt, true)...)
		}
		if s.st == mfUp && m.dying && x.spec(m, i).mode == emSelf {
			n := m.clone()
			x.gotStopped(n, i, nil, 0, true)
			out = append(out, n)
		}
	}
	return out
}

type eObs struct {
	now      time.Duration
	report   map[string]any
	waitDone bool
	waitErr  error
	met      map[string]int
	hint     string
	fired    []*eStart
}

func (x *et) final(m *em, o *eObs) []mism {
	var ms []mism
	add := func(props, f string, a ...any) { ms = append(ms, mism{props, fmt.Sprintf(f, a...)}) }
	if m.dying && !m.allStop {
		// Whatever isn't asked to stop is unaccounted for below.
		add("C16", "engine is dying, but hasn't stopped its workers")
		return append(ms, make([]mism, 50)...) // a bad explanation
	}
	dead := x.dead(m)
	if o.report != nil {
		x.checkReport(m, o.report, true, add)
	}
	for i := range m.ms {
		s := &m.ms[i]
		name := x.names[i]
		if !s.installed {
			continue
		}
		spec := x.spec(m, i)
		self := spec.mode == emSelf
		switch s.st {
		case mfPending:
			if s.stopping || m.dying {
				add(s.stopWhy+" C12 C16", "the pending start of %s should have been interrupted", name)
			} else if o.now > s.hi {
				add("C15 "+s.why+s.afresh(), "%s should have been started by %v (restart %d)", name, s.hi, s.rec)
			}
		case mfStarting:
			x.checkCtx(m, s, x.starts[s.start], add)
		case mfUp, mfLate:
			st := x.starts[s.start]
			x.checkCtx(m, s, st, add)
			if self {
				break
			}
			k := st.w.kills.Load()
			want := s.stopping || m.dying || s.st == mfLate
			if k > 0 && !want {
				add("C12 C14 C16 C19 "+o.hint, "w%d (%s) was killed for no reason", st.w.n, name)
			}
			if k == 0 && want {
				p := s.stopWhy
				if m.dying {
					p += " C16"
				}
				if s.st == mfLate {
					p += " C10 C12"
				}
				add(p, "w%d (%s) should have been killed", st.w.n, name)
			}
			if st.w.waits.Load() == 0 {
				add("C10 C16", "nobody waits for w%d (%s)", st.w.n, name)
			}
		}
	}
	for _, st := range o.fired {
		i := x.idx(st.spec.name)
		if s := m.ms[i]; s.start == st.n && !s.stopping && !m.dying && !st.liveOK {
			add("C19", "context of s%d was cancelled from the beginning", st.n)
		}
	}
	for _, st := range x.starts {
		if st.ended && st.ctx.Err() == nil {
			add("C19 C33", "context of s%d (%s) isn't released, though its worker has ended", st.n, st.spec.name)
		}
	}
	for i, n := range m.ups {
		if o.met[x.names[i]] != n {
			add("C18", "metrics has %d starts of %s, should be %d", o.met[x.names[i]], x.names[i], n)
		}
	}
	if len(o.met) > 0 {
		for n := range o.met {
			if x.idx(n) < 0 {
				add("C18", "metrics has starts of %q", n)
			}
		}
	}
	// Calls.
	for _, rc := range x.calls {
		if !rc.done.Load() && rc.began.Load() && rc.what != "Wait" {
			add("C36 C16 C11 C18", "%v hangs", rc)
		}
	}
	if !x.waitCall.began.Load() {
	} else if dead != o.waitDone {
		if o.waitDone {
			add("C16 C17", "Wait returned %v, but not everything has stopped (dying=%v)", o.waitErr, m.dying)
		} else {
			add("C16", "Wait hasn't returned, though everything has stopped")
		}
	} else if dead {
		if want := x.engFilter(m.worst); !same(o.waitErr, want) {
			add("C17", "Wait returned %v, should be %v", o.waitErr, want)
		}
	}
	return ms
}

// checkReport compares a report with what it should be when the engine is at
// rest, or when something may be under way.
func (x *et) checkReport(m *em, report map[string]any, rest bool, add func(props, f string, a ...any)) {
	dead := x.dead(m)
	mans, _ := report["manifolds"].(map[string]any)
	for n := range mans {
		if i := x.idx(n); i < 0 || !m.ms[i].installed {
			why := ""
			if i >= 0 {
				why = m.ms[i].why
			}
			add("C18 C11 "+why, "Report lists %q, which isn't installed", n)
		}
	}
	for i := range m.ms {
		name := x.names[i]
		if !m.ms[i].installed {
			continue
		}
		// Report.
		r, ok := mans[name].(map[string]any)
		if !ok {
			add("C18 C11", "Report lacks %s", name)
			continue
		}
		x.checkManifoldReport(m, i, r, add)
	}
	// The engine itself.
	state, _ := report["state"].(string)
	errText, hasErr := report["error"]
	switch {
	case dead && (rest || state == "stopped"):
		if state != "stopped" {
			add("C18", "Report says that the engine is %q, should be stopped", state)
		}
		want := x.engFilter(m.worst)
		if (want != nil) != hasErr || want != nil && errText != want.Error() {
			add("C18 C17", "Report has error %v, should be %v", errText, want)
		}
	case m.dying:
		if state != "stopping" {
			add("C18", "Report says that the engine is %q, should be stopping", state)
		}
		if hasErr {
			f := x.engFilter(m.worst)
			if !(m.worst != nil && errText == m.worst.Error()) && !(f != nil && errText == f.Error()) {
				add("C18 C17", "Report has error %v, should be %v", errText, m.worst)
			}
		} else if m.worst != nil && x.engineFilter != 2 {
			add("C18", "Report lacks the error %v", m.worst)
		}
	default:
		if state != "started" {
			add("C18 C16 C17", "Report says that the engine is %q, should be started", state)
		}
		if hasErr {
			add("C18 C17", "Report has error %v, should have none", errText)
		}
	}
}

func (x *et) checkManifoldReport(m *em, i int, r map[string]any, add func(props, f string, a ...any)) {
	s := &m.ms[i]
	spec := x.spec(m, i)
	self := spec.mode == emSelf
	name := x.names[i]
	state := fmt.Sprint(r["state"])
	want := "stopped"
	switch {
	case s.st == mfPending || s.st == mfStarting || s.st == mfLate:
		want = "starting"
	case s.st == mfUp && (s.stopping || m.allStop):
		want = "stopping"
	case s.st == mfUp:
		want = "started"
	}
	if state != want && !(self && m.dying) {
		add("C18", "Report says %s is %s, should be %s", name, state, want)
	}
	if in, ok := r["inputs"].([]string); !ok || fmt.Sprint(in) != fmt.Sprint(spec.inputs) && len(in)+len(spec.inputs) > 0 {
		add("C18", "Report has inputs %v for %s, should be %v", r["inputs"], name, spec.inputs)
	}
	count, has := r["start-count"]
	if s.count > 0 && count != s.count || s.count == 0 && has && count != 0 {
		add("C18"+s.afresh(), "Report has start-count %v for %s, should be %d", count, name, s.count)
	}
	if self && m.dying {
		return
	}
	errText, hasErr := r["error"]
	switch {
	case s.st != mfStopped:
		if hasErr {
			add("C18"+s.afresh(), "Report has error %v for %s, which isn't stopped", errText, name)
		}
	case s.aborted:
	case s.err == nil:
		if hasErr {
			add("C18"+s.afresh(), "Report has error %v for %s, should have none", errText, name)
		}
	case errText != s.err.Error():
		add("C18", "Report has error %v for %s, should be %v", errText, name, s.err)
	}
	started, hasStarted := r["started"]
	if s.st == mfUp {
		lo := rClock{x.c}.at(s.upAt - slack).UTC().Format("2006-01-02 15:04:05")
		hi := rClock{x.c}.at(s.upAt + slack).UTC().Format("2006-01-02 15:04:05")
		if started != lo && started != hi {
			add("C18", "Report says that %s was started at %v, should be %v", name, started, lo)
		}
	} else if hasStarted {
		add("C18", "Report says that %s was started at %v, but it isn't up", name, started)
	}
	rep, hasRep := r["report"]
	if s.st == mfUp && !self && spec.reports {
		if fmt.Sprint(rep) != fmt.Sprint(map[string]any{"worker": x.starts[s.start].w.n}) {
			add("C18", "Report of %s has report %v, should be that of w%d", name, rep, x.starts[s.start].w.n)
		}
	} else if hasRep {
		add("C18 C21", "Report of %s has a report %v", name, rep)
	}
}

func (x *et) checkCtx(m *em, s *emM, st *eStart, add func(props, f string, a ...any)) {
	cancelled := st.ctx.Err() != nil
	want := s.stopping || m.dying
	if cancelled && !want {
		add("C19", "context of s%d (%s) is cancelled for no reason", st.n, st.spec.name)
	}
	if !cancelled && want {
		p := "C19"
		if m.dying {
			p += " C16"
		}
		add(p, "context of s%d (%s) isn't cancelled", st.n, st.spec.name)
	}
}

func (x *et) observe(evs []eev, hint string) {
	c := x.c
	c.settle()
	o := &eObs{hint: hint}
	// Asking for a report wakes the engine up: it mustn't depend on that.
	for look := c.chance(65); look; {
		gen := c.gen()
		done := make(chan struct{})
		go func() {
			o.report = x.e.Report()
			close(done)
		}()
		c.settle()
		select {
		case <-done:
		default:
			c.fail([]string{"C36", "C18", "C16"}, "hang", "Report hangs")
		}
		if c.gen() == gen {
			break
		}
	}
	c.quiet.Store(true)
	defer c.quiet.Store(false)
	if _, ok := o.report["manifolds"].(map[string]any); !ok && o.report != nil {
		c.fail([]string{"C18"}, "report", "Report lacks manifolds: %v", o.report)
	}
	o.now = c.now()
	o.waitDone = x.waitCall.done.Load()
	o.waitErr = x.waitCall.err
	x.mu.Lock()
	o.met = map[string]int{}
	for k, v := range x.met {
		o.met[k] = v
	}
	starts := append([]*eStart(nil), x.starts...)
	obeyed := x.obeyed
	x.obeyed = nil
	x.mu.Unlock()
	for _, w := range obeyed {
		evs = append(evs, eev{kind: "die", w: w, lo: w.seq, hi: math.MaxInt, at: w.diedAt})
	}
	for _, s := range starts[x.seenStarts:] {
		evs = append(evs, eev{kind: "fire", start: s, lo: s.seq, hi: s.seq, at: s.at})
	}
	o.fired = starts[x.seenStarts:]
	x.seenStarts = len(starts)
	for _, s := range starts {
		if s.returned && !s.retSeen {
			s.retSeen = true
			evs = append(evs, eev{kind: "ret", start: s, lo: s.retSeq, hi: math.MaxInt, at: s.retAt})
			if !s.stable {
				c.fail([]string{"C13"}, "getter", "what s%d sees changed during the start: %v", s.n, s.probes)
			}
			for _, n := range x.names {
				v := 0
				if err := s.getter.Get(n, nil); err == nil {
					c.fail([]string{"C13"}, "getter", "the getter of s%d still works after the start", s.n)
				}
				if err := s.getter.Get(n, &v); err == nil {
					c.fail([]string{"C13"}, "getter", "the getter of s%d still works after the start", s.n)
				}
			}
			c.checks++
		}
		s.ended = s.returned && (s.retErr != nil || s.w != nil && s.w.died)
	}
	for _, rc := range x.calls {
		if rc.seen || !rc.done.Load() {
			continue
		}
		rc.seen = true
		switch rc.what {
		case "Kill":
			evs = append(evs, eev{kind: "kill", lo: rc.lo, hi: rc.hi, at: rc.at})
		case "Wait":
		case "Report":
			evs = append(evs, eev{kind: "report", call: rc, lo: rc.lo, hi: rc.hi, at: rc.at})
		default:
			evs = append(evs, eev{kind: "install", call: rc, lo: rc.lo, hi: rc.hi, at: rc.at})
		}
	}
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].lo < evs[j].lo })
	x.states = search(c, x.states, evs, x.apply, x.internal, func(m *em) []mism { return x.final(m, o) })
	scribble(o.report, "manifolds")
	for _, e := range evs {
		if e.kind == "report" {
			scribble(e.call.report, "manifolds")
		}
	}
	for _, m := range x.states {
		m.fresh = false
		for i := range m.ms {
			m.ms[i].unsettled = false
		}
	}
}

// call makes a call, and those that follow it, on a goroutine of its own.
func (x *et) call(rc *eCall, jitter bool) {
	c := x.c
	for r := rc; r != nil; r = r.then {
		r.n = len(x.calls)
		x.calls = append(x.calls, r)
		c.logf("call %v", r)
	}
	go func() {
		for r := rc; r != nil; r = r.then {
			if jitter {
				c.jitter()
			}
			x.do(r)
		}
	}()
}

func (x *et) do(rc *eCall) {
	c := x.c
	rc.at = c.now()
	rc.lo = x.next()
	rc.began.Store(true)
	switch rc.what {
	case "Kill":
		x.e.Kill()
	case "Wait":
		rc.err = x.e.Wait()
	case "Report":
		rc.report = x.e.Report()
	default:
		rc.err = x.e.Install(rc.spec.name, x.manifold(rc.spec))
	}
	rc.hi = x.next()
	rc.retAt = c.now()
	if rc.what == "Report" {
		c.logf("  ret %v = %v", rc, rc.report)
	} else {
		c.logf("  ret %v = %v", rc, rc.err)
	}
	rc.done.Store(true)
}

type eLogger struct{ c *Case }

func (l eLogger) out(f string, a ...any) {
	if l.c.hr()%8 == 0 {
		runtime.Gosched()
	}
}
func (l eLogger) Tracef(f string, a ...any) { l.out(f, a...) }
func (l eLogger) Debugf(f string, a ...any) { l.out(f, a...) }
func (l eLogger) Infof(f string, a ...any)  { l.out(f, a...) }
func (l eLogger) Errorf(f string, a ...any) { l.out(f, a...) }
