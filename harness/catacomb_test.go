package harness

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	jujuerrors "github.com/juju/errors"
	"gopkg.in/tomb.v2"

	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/catacomb"
)

func init() {
	register("catacomb-model", catacombModel)
}

// cErr is an error with which a catacomb is killed, and what should become
// of it.
type cErr struct {
	err  error
	kind string // nil plain own misuse panic
	text string // of a panic
}

func (e cErr) String() string {
	if e.kind == "panic" {
		return "panic(" + e.text + ")"
	}
	return fmt.Sprintf("%s:%v", e.kind, e.err)
}

func (e cErr) same(f cErr) bool {
	return e.kind == f.kind && e.text == f.text && same(e.err, f.err)
}

// is says whether got is what the catacomb should report.
func (e cErr) is(got error) bool {
	switch e.kind {
	case "nil", "own":
		return got == nil
	case "plain":
		return same(got, e.err)
	case "misuse":
		return got != nil && got != tomb.ErrStillAlive && got != tomb.ErrDying && !errors.Is(got, e.err)
	case "panic":
		if got == nil || !strings.Contains(got.Error(), e.text) {
			return false
		}
		var p interface{ Panicked() bool }
		if !errors.As(got, &p) || !p.Panicked() {
			return false
		}
		var s interface{ StackTrace() []string }
		return errors.As(got, &s) && strings.Contains(strings.Join(s.StackTrace(), "\n"), "panickyWork")
	}
	return false
}

// A cUW is a worker that can't be compared.
type cUW struct {
	*cW
	_ []int
}

func (w *cW) asWorker() worker.Worker {
	if w.n%4 == 1 {
		return cUW{cW: w}
	}
	return w
}

type cW struct {
	n     int
	x     *ct
	kills atomic.Int32
	waits atomic.Int32
	done  chan struct{}
	err   cErr
	died  bool
	seq   int
	seen  bool
	// obedient workers end as soon as they are killed.
	obedient bool
	obeyErr  cErr
}

func (w *cW) Kill() {
	k := w.kills.Add(1)
	w.x.c.logf("  kill w%d", w.n)
	if w.obedient && k == 1 {
		go func() {
			w.x.c.jitter()
			w.end(w.obeyErr)
		}()
	}
}

func (w *cW) Wait() error {
	w.waits.Add(1)
	<-w.done
	return w.err.err
}

func (w *cW) end(err cErr) {
	w.x.mu.Lock()
	if w.died {
		w.x.mu.Unlock()
		return
	}
	w.died = true
	w.err = err
	w.x.seq++
	w.seq = w.x.seq
	w.x.mu.Unlock()
	w.x.c.logf("w%d ends: %v", w.n, err)
	close(w.done)
}

type cWork struct {
	runs    atomic.Int32
	release chan cErr
	sent    bool
	mode    int // 0 controlled, 1 returns when dying
	dyErr   cErr
	ret     cErr
	retSeq  int
	retDone bool
	seen    bool
}

type cCall struct {
	n    int
	what string // Invoke Add Kill Wait
	w    *cW
	init []*cW
	work *cWork
	err  error
	kill cErr
	// invalid plans must be refused
	invalid bool
	lo, hi  int
	done    atomic.Bool
	seen    bool
}

func (rc *cCall) String() string {
	s := fmt.Sprintf("#%d %s", rc.n, rc.what)
	if rc.w != nil {
		s += fmt.Sprintf(" w%d", rc.w.n)
	}
	for _, w := range rc.init {
		s += fmt.Sprintf(" w%d", w.n)
	}
	if rc.what == "Kill" {
		s += " " + rc.kill.String()
	}
	return s
}

type cCtx struct {
	ctx    context.Context
	cancel context.CancelFunc
	done   bool
	n      int
	// nilParent says that the context has been made without a parent.
	nilParent bool
}

type ct struct {
	c     *Case
	site  catacomb.Catacomb
	other catacomb.Catacomb
	mu    sync.Mutex
	seq   int
	ws    []*cW
	calls []*cCall
	wait  *cCall
	// waiting says that wait is under way, and look that the signals are to
	// be looked at this time.
	waiting, look bool
	ctxs          []*cCtx
	nerr          int
	states        []*cm
	// winner is the successful Invoke.
	winner *cCall
}

func (x *ct) next() int {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.seq++
	return x.seq
}

func (x *ct) newW() *cW {
	w := &cW{n: len(x.ws), x: x, done: make(chan struct{})}
	x.ws = append(x.ws, w)
	if x.c.chance(40) {
		w.obedient = true
		w.obeyErr = cErr{nil, "nil", ""}
		if x.c.chance(25) {
			w.obeyErr = x.plain()
		}
	}
	return w
}

func (x *ct) plain() cErr {
	x.nerr++
	err := fmt.Errorf("e%d", x.nerr)
	if x.c.chance(15) {
		// Catacombs treat a bare tomb.ErrDying specially, but not one that
		// is wrapped.
		err = fmt.Errorf("e%d: %w", x.nerr, famous[x.c.n(len(famous))])
	}
	switch x.c.n(40) {
	case 0, 1:
		// Nor the other ones when they are bare.
		if f := famous[x.c.n(len(famous))]; f != tomb.ErrDying {
			err = f
		}
	case 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15:
		err = x.c.dressed(err)
	case 2:
		err = &causeErr{err.Error(), nil}
	case 3:
		err = &causeErr{err.Error(), famous[x.c.n(len(famous))]}
	}
	if x.c.chance(20) {
		err = jujuerrors.Annotatef(err, "wrapped %d", x.nerr)
	}
	return cErr{err, "plain", ""}
}

// anyErr makes an error for Kill, a worker or a work function.
func (x *ct) anyErr() cErr {
	c := x.c
	switch r := c.n(20); {
	case r < 6:
		return cErr{nil, "nil", ""}
	case r < 12:
		return x.plain()
	case r < 16:
		// The catacomb's own dying error, or what it says in its place.
		e := x.site.ErrDying()
		select {
		case <-x.site.Dying():
		default:
			x.nerr++
			return cErr{fmt.Errorf("e%d: %w", x.nerr, e), "plain", ""}
		}
		if e != x.site.ErrDying() {
			return cErr{nil, "nil", ""}
		}
		switch c.n(3) {
		case 0:
			return cErr{jujuerrors.Trace(e), "own", ""}
		case 1:
			return cErr{fmt.Errorf("wrapped: %w", e), "own", ""}
		}
		return cErr{e, "own", ""}
	case r < 17:
		return cErr{tomb.ErrDying, "misuse", ""}
	case r < 18:
		return cErr{tomb.ErrStillAlive, "misuse", ""}
	case r < 19:
		return cErr{x.other.ErrDying(), "misuse", ""}
	default:
		return cErr{fmt.Errorf("wrapped: %w", x.other.ErrDying()), "misuse", ""}
	}
}

type panicValue struct{ n int }

func (x *ct) panicErr() cErr {
	x.nerr++
	text := fmt.Sprintf("boom%d", x.nerr)
	switch x.c.n(6) {
	case 0:
		text += x.c.oneOf("100%", "%d%s%!", "\nand\n\nmore", "\x00\xff", " {", strings.Repeat(" and on", 10000)+" end")
	}
	switch x.c.n(9) {
	case 0:
		return cErr{nil, "panic", text}
	case 5:
		return cErr{nil, "panic", "nil argument"}
	case 6:
		// A panic with a dying error is a panic all the same.
		e := x.site.ErrDying()
		return cErr{e, "panic", e.Error()}
	case 7:
		e := []error{tomb.ErrDying, tomb.ErrStillAlive, x.other.ErrDying(), context.Canceled}[x.c.n(4)]
		return cErr{e, "panic", e.Error()}
	case 1:
		return cErr{errors.New(text), "panic", text}
	case 2:
		return cErr{nil, "panic", "index out of range"}
	case 3:
		return cErr{nil, "panic", "nil map"}
	case 4:
		return cErr{nil, "panic", "nil pointer"}
	}
	return cErr{nil, "panic", fmt.Sprint(panicValue{x.nerr})}
}

func panickyWork(e cErr) error {
	switch e.text {
	case "index out of range":
		var s []int
		return fmt.Errorf("%d", s[len(e.kind)])
	case "nil map":
		var m map[string]int
		m[e.kind] = 1
	case "nil pointer":
		var w *cWork
		w.sent = true
	case "nil argument":
		panic(nil)
	}
	if e.err != nil {
		panic(e.err)
	}
	if strings.HasPrefix(e.text, "{") {
		var n int
		fmt.Sscanf(e.text, "{%d}", &n)
		panic(panicValue{n})
	}
	panic(e.text)
}

func (x *ct) workFunc(wk *cWork, name string) func() error {
	return func() error {
		wk.runs.Add(1)
		x.c.wantLabels("the work function", nil, "type", "catacomb", "name", name)
		x.c.logf("  work runs")
		var e cErr
		if wk.mode == 0 {
			e = <-wk.release
		} else {
			select {
			case e = <-wk.release:
			case <-x.site.Dying():
				e = wk.dyErr
				if e.kind == "own" {
					e.err = x.site.ErrDying()
				}
			}
		}
		x.mu.Lock()
		x.seq++
		wk.ret, wk.retSeq, wk.retDone = e, x.seq, true
		x.mu.Unlock()
		x.c.logf("  work ends: %v", e)
		if e.kind == "panic" {
			return panickyWork(e)
		}
		return e.err
	}
}

// ---- reference model ----

type cm struct {
	invoked  bool
	dying    bool
	fresh    bool
	err      cErr
	workDone bool
	taken    uint64
	ended    uint64
	// sealed is set when it has been seen to be dead: no error counts any
	// more.
	sealed bool
}

func (m *cm) clone() *cm { n := *m; return &n }

func (m *cm) key() string {
	b := make([]byte, 0, 64)
	k := byte(0)
	for i, f := range []bool{m.invoked, m.dying, m.fresh, m.workDone, m.sealed} {
		if f {
			k |= 1 << i
		}
	}
	b = append(b, k)
	b = binary.AppendUvarint(b, m.taken)
	b = binary.AppendUvarint(b, m.ended)
	return string(b) + m.err.kind + m.err.text + errKey(m.err.err)
}

func (m *cm) kill(e cErr) {
	if e.kind == "own" || e.kind == "" {
		e = cErr{nil, "nil", ""}
	}
	if !m.dying {
		m.dying, m.fresh = true, true
		m.err = e
	} else if m.err.kind == "nil" {
		m.err = e
	}
}

func (m *cm) dead() bool { return m.invoked && m.dying && m.workDone && m.taken&^m.ended == 0 }

type cev struct {
	kind   string // invoke kill add die work
	call   *cCall
	w      *cW
	wk     *cWork
	lo, hi int
}

func (e cev) String() string {
	switch {
	case e.call != nil:
		return fmt.Sprintf("%v=%v", e.call, e.call.err)
	case e.w != nil:
		return fmt.Sprintf("%s w%d %v", e.kind, e.w.n, e.w.err)
	case e.wk != nil:
		return fmt.Sprintf("work ends %v", e.wk.ret)
	}
	return e.kind
}

func (e cev) precedes(f cev) bool { return e.hi < f.lo }

func (x *ct) takeOn(m *cm, w *cW) {
	m.taken |= 1 << w.n
	if m.ended&(1<<w.n) != 0 && w.err.err != nil {
		m.kill(w.err)
	}
}

func (x *ct) apply(m *cm, e cev) ([]*cm, *mism) {
	one := func(n *cm) ([]*cm, *mism) { return []*cm{n}, nil }
	no := func(props, f string, a ...any) ([]*cm, *mism) {
		return nil, &mism{props, fmt.Sprintf("%v: ", e) + fmt.Sprintf(f, a...)}
	}
	switch e.kind {
	case "invoke":
		rc := e.call
		if rc.err == nil {
			if rc.invalid {
				return no("C26", "an invalid plan was accepted")
			}
			if m.invoked {
				return no("C26", "a used catacomb was invoked again")
			}
			n := m.clone()
			n.invoked = true
			for _, w := range rc.init {
				if w != nil {
					x.takeOn(n, w)
				}
			}
			return one(n)
		}
		if !rc.invalid && !m.invoked {
			return no("C26", "a valid plan was refused")
		}
		for _, w := range rc.init {
			if w != nil && m.ended&(1<<w.n) == 0 {
				return no("C22", "returned before w%d has ended", w.n)
			}
		}
		return one(m)
	case "kill":
		if m.sealed {
			return one(m)
		}
		n := m.clone()
		n.kill(e.call.kill)
		if m.dead() && !n.err.same(m.err) {
			// It may be on the point of becoming dead, or dead.
			return []*cm{m, n}, nil
		}
		return one(n)
	case "add":
		rc := e.call
		if rc.err == nil {
			if !m.invoked {
				return no("C22", "accepted before Invoke")
			}
			if m.dying && !m.fresh {
				return no("C22", "accepted by a dying catacomb")
			}
			n := m.clone()
			x.takeOn(n, rc.w)
			return one(n)
		}
		if !m.dying {
			return no("C22 C25", "refused by a living catacomb")
		}
		if m.ended&(1<<rc.w.n) == 0 {
			return no("C22", "returned before the worker has ended")
		}
		want := rc.w.err.err
		if want == nil {
			want = x.site.ErrDying()
		}
		if !wraps(rc.err, want) {
			return no("C22", "should return %v", want)
		}
		return one(m)
	case "die":
		n := m.clone()
		n.ended |= 1 << e.w.n
		if m.taken&(1<<e.w.n) != 0 && e.w.err.err != nil {
			n.kill(e.w.err)
		}
		return one(n)
	case "work":
		if !m.invoked {
			return no("C26", "work function of a catacomb that wasn't invoked")
		}
		n := m.clone()
		n.workDone = true
		n.kill(e.wk.ret)
		return one(n)
	}
	panic(e.kind)
}

func (x *ct) final(m *cm) []mism {
	var ms []mism
	add := func(props, f string, a ...any) { ms = append(ms, mism{props, fmt.Sprintf(f, a...)}) }
	closed := func(ch <-chan struct{}) bool {
		select {
		case <-ch:
			return true
		default:
			return false
		}
	}
	for _, w := range x.ws {
		bit := uint64(1) << w.n
		if m.taken&bit == 0 || m.ended&bit != 0 {
			continue
		}
		k := w.kills.Load() > 0
		if k && !m.dying {
			add("C25", "w%d was killed, but the catacomb isn't dying", w.n)
		}
		if !k && m.dying {
			add("C22 C25", "w%d wasn't killed, but the catacomb is dying", w.n)
		}
		if w.waits.Load() == 0 {
			add("C23 C25", "nobody waits for w%d", w.n)
		}
	}
	for _, rc := range x.calls {
		if rc.done.Load() {
			continue
		}
		switch rc.what {
		case "Kill":
			add("C24 C28", "%v hangs", rc)
		case "Add":
			bit := uint64(1) << rc.w.n
			switch {
			case !m.dying:
				if m.invoked {
					add("C22 C25", "%v hangs", rc)
				}
				if rc.w.kills.Load() > 0 {
					add("C25 C22", "%v has killed its worker", rc)
				}
			case m.ended&bit != 0:
				add("C22", "%v hangs, though the worker has ended", rc)
			case rc.w.kills.Load() == 0:
				add("C22", "%v hasn't killed its worker", rc)
			}
		case "Invoke":
			killed, live := false, false
			for _, w := range rc.init {
				if w != nil && m.ended&(1<<w.n) == 0 {
					live = true
					killed = killed || w.kills.Load() > 0
				}
			}
			if !live {
				add("C22 C26", "%v hangs, though its workers have ended", rc)
			} else if !killed {
				add("C22", "%v waits for workers that it hasn't killed", rc)
			}
		}
	}
	// Work functions.
	for _, rc := range x.calls {
		if rc.what != "Invoke" || rc.work == nil {
			continue
		}
		want := int32(0)
		if rc.done.Load() && rc.err == nil {
			want = 1
		}
		if got := rc.work.runs.Load(); got != want {
			add("C26", "work function of %v was called %d times, should be %d", rc, got, want)
		}
	}
	dead := m.dead()
	if got := x.wait.done.Load(); !x.waiting {
	} else if got != dead {
		add("C23", "Wait returned=%v, should be %v", got, dead)
	} else if dead && !m.err.is(x.wait.err) {
		add("C24 C27", "Wait returned %v, should be %v", x.wait.err, m.err)
	}
	if !x.look {
		return ms
	}
	// Signals.
	if got := closed(x.site.Dying()); got != m.dying {
		add("C28 C24 C25 C23", "dying=%v, should be %v", got, m.dying)
	}
	if got := closed(x.site.Dead()); got != dead {
		add("C23 C28", "dead=%v, should be %v (dying %v, work done %v, live %b)", got, dead, m.dying, m.workDone, m.taken&^m.ended)
	}
	got := x.site.Err()
	switch {
	case !m.dying:
		if got != tomb.ErrStillAlive {
			add("C28 C24", "Err gives %v, but the catacomb is alive", got)
		}
	case !m.err.is(got):
		p := "C24 C27"
		if got == tomb.ErrStillAlive {
			p += " C28"
		}
		add(p, "Err gives %v, should be %v", got, m.err)
	}
	e1 := x.site.ErrDying()
	if e1 == nil {
		add("C28", "ErrDying returns nil")
	} else if m.dying != (e1 == x.site.ErrDying()) {
		add("C28", "ErrDying gives %v, dying is %v", e1, m.dying)
	}
	for _, cc := range x.ctxs {
		got := cc.ctx.Err() != nil
		if want := m.dying || cc.done; got != want {
			add("C28", "context %d is cancelled=%v, should be %v", cc.n, got, want)
		}
		if got != closed(cc.ctx.Done()) {
			add("C28", "context %d: Err and Done disagree", cc.n)
		}
		if !cc.nilParent && cc.ctx.Value(ctxKey{}) != cc.n {
			add("C28", "context %d lacks its parent's value", cc.n)
		}
	}
	return ms
}

func (x *ct) observe() {
	c := x.c
	c.settle()
	c.quiet.Store(true)
	defer c.quiet.Store(false)
	x.look = c.chance(75)
	var evs []cev
	for _, w := range x.ws {
		x.mu.Lock()
		if w.died && !w.seen {
			w.seen = true
			evs = append(evs, cev{kind: "die", w: w, lo: w.seq, hi: math.MaxInt})
		}
		x.mu.Unlock()
	}
	for _, rc := range x.calls {
		if wk := rc.work; wk != nil {
			x.mu.Lock()
			if wk.retDone && !wk.seen {
				wk.seen = true
				evs = append(evs, cev{kind: "work", wk: wk, lo: wk.retSeq, hi: math.MaxInt})
			}
			x.mu.Unlock()
		}
		if rc.seen || !rc.done.Load() {
			continue
		}
		rc.seen = true
		switch rc.what {
		case "Invoke":
			if rc.err == nil {
				x.winner = rc
			}
			evs = append(evs, cev{kind: "invoke", call: rc, lo: rc.lo, hi: rc.hi})
		case "Add":
			evs = append(evs, cev{kind: "add", call: rc, lo: rc.lo, hi: rc.hi})
		case "Kill":
			evs = append(evs, cev{kind: "kill", call: rc, lo: rc.lo, hi: rc.hi})
		}
	}
	// The start of a work function precedes the return of Invoke now and
	// then, which is no concern here.
	for i := range evs {
		if evs[i].kind == "invoke" && evs[i].call.err == nil {
			evs[i].hi = math.MaxInt
		}
	}
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].lo < evs[j].lo })
	x.states = search(c, x.states, evs, x.apply, func(*cm) []*cm { return nil }, x.final)
	for _, m := range x.states {
		m.fresh = false
		m.sealed = m.dead()
	}
}

func (x *ct) call(rc *cCall, jitter bool, f func() error) {
	c := x.c
	rc.n = len(x.calls)
	x.calls = append(x.calls, rc)
	c.logf("call %v", rc)
	own := c.n(3) == 0
	go func() {
		kept := c.keepLabels(rc.what, own)
		defer kept()
		if jitter {
			c.jitter()
		}
		rc.lo = x.next()
		rc.err = f()
		rc.hi = x.next()
		c.logf("  ret %v = %v", rc, rc.err)
		rc.done.Store(true)
	}()
}

func (x *ct) invoke(jitter, invalid bool) {
	c := x.c
	rc := &cCall{what: "Invoke", invalid: invalid, work: &cWork{release: make(chan cErr, 1), mode: c.n(2)}}
	rc.work.dyErr = cErr{nil, "nil", ""}
	switch c.n(4) {
	case 0:
		rc.work.dyErr = cErr{nil, "own", ""}
	case 1:
		rc.work.dyErr = x.plain()
	case 2:
		if c.chance(30) {
			rc.work.dyErr = x.panicErr()
		}
	}
	name := c.names("cat", 1)[0]
	if name == "" {
		name = "verif"
	}
	plan := catacomb.Plan{Name: name, Site: &x.site, Work: x.workFunc(rc.work, name)}
	for k := c.n(4); k > 0; k-- {
		w := x.newW()
		if c.chance(10) {
			e := cErr{nil, "nil", ""}
			if c.chance(50) {
				e = x.plain()
			}
			w.end(e)
		}
		rc.init = append(rc.init, w)
	}
	if invalid {
		switch c.n(4) {
		case 0:
			plan.Name = ""
		case 1:
			plan.Site = nil
		case 2:
			plan.Work = nil
			rc.work = nil
		case 3:
			i := c.n(len(rc.init) + 1)
			rc.init = append(rc.init[:i:i], append([]*cW{nil}, rc.init[i:]...)...)
		}
		c.feature("invalid-invoke")
	}
	for _, w := range rc.init {
		if w == nil {
			plan.Init = append(plan.Init, nil)
		} else {
			plan.Init = append(plan.Init, w.asWorker())
		}
	}
	x.mu.Lock()
	rc.init = func() (ws []*cW) {
		for _, w := range rc.init {
			if w != nil {
				ws = append(ws, w)
			}
		}
		return
	}()
	x.mu.Unlock()
	c.feature("invoke")
	x.call(rc, jitter, func() error {
		err := catacomb.Invoke(plan)
		// The slice remains the caller's.
		if c.hr()%2 == 0 {
			for i := range plan.Init {
				plan.Init[i] = nil
			}
		}
		return err
	})
}

// startWait has somebody wait for the catacomb, if nobody does yet.
func (x *ct) startWait(jitter bool) {
	if !x.waiting {
		x.waiting = true
		x.call(x.wait, jitter, func() error { return x.site.Wait() })
	}
}

func (x *ct) liveWs() []*cW {
	x.mu.Lock()
	defer x.mu.Unlock()
	var out []*cW
	for _, w := range x.ws {
		if !w.died {
			out = append(out, w)
		}
	}
	return out
}

func (x *ct) work() *cWork {
	if x.winner == nil || x.winner.work.sent {
		return nil
	}
	return x.winner.work
}

func (x *ct) command(jitter bool) {
	c := x.c
	for try := 0; try < 50; try++ {
		if !x.waiting && c.chance(5) {
			x.startWait(jitter)
			return
		}
		switch r := c.n(100); {
		case r < 30:
			// It has to be invoked first.
			if len(x.ws) > 40 || x.winner == nil {
				continue
			}
			w := x.newW()
			if c.chance(12) {
				e := cErr{nil, "nil", ""}
				if c.chance(40) {
					e = x.plain()
				}
				w.end(e)
			}
			c.feature("add")
			x.call(&cCall{what: "Add", w: w}, jitter, func() error { return x.site.Add(w.asWorker()) })
			return
		case r < 37:
			if len(x.ws) > 40 {
				continue
			}
			x.invoke(jitter, c.chance(40))
			return
		case r < 43:
			e := x.anyErr()
			c.feature("kill-" + e.kind)
			x.call(&cCall{what: "Kill", kill: e}, jitter, func() error { x.site.Kill(e.err); return nil })
			return
		case r < 78:
			ws := x.liveWs()
			if len(ws) == 0 {
				continue
			}
			e := cErr{nil, "nil", ""}
			if c.chance(15) {
				e = x.anyErr()
			}
			c.feature("worker-ends-" + e.kind)
			ws[c.n(len(ws))].end(e)
			return
		case r < 82:
			wk := x.work()
			if wk == nil {
				continue
			}
			wk.sent = true
			e := x.anyErr()
			if c.chance(40) {
				e = x.panicErr()
			}
			c.feature("work-ends-" + e.kind)
			wk.release <- e
			return
		case r < 92:
			if len(x.ctxs) > 6 {
				continue
			}
			cc := &cCtx{n: len(x.ctxs)}
			parent := context.WithValue(context.Background(), ctxKey{}, cc.n)
			switch {
			case c.chance(70):
				parent, cc.cancel = x.c.withCancel(parent)
				if c.chance(10) {
					cc.done = true
					cc.cancel()
				}
			case c.chance(30):
				// As good as context.Background().
				parent, cc.nilParent = nil, true
			}
			cc.ctx = x.site.Context(parent)
			x.ctxs = append(x.ctxs, cc)
			c.logf("context %d", cc.n)
			c.feature("context")
			return
		default:
			for _, cc := range x.ctxs {
				if cc.cancel != nil && !cc.done {
					cc.done = true
					c.logf("cancel parent of context %d", cc.n)
					cc.cancel()
					return
				}
			}
		}
	}
}

func catacombModel(c *Case) {
	x := &ct{c: c}
	x.other.Kill(nil)
	x.states = []*cm{{err: cErr{nil, "nil", ""}}}
	x.wait = &cCall{what: "Wait"}
	if !c.chance(20) {
		x.startWait(false)
	}
	// Before Invoke.
	if c.chance(15) {
		for k := c.n(3); k > 0; k-- {
			x.command(true)
		}
		x.observe()
	}
	if x.winner == nil {
		// Several Invokes may race for it.
		for k := 1 + c.n(3)*c.n(2); k > 0; k-- {
			x.invoke(true, c.chance(8))
		}
		x.observe()
	}
	steps := 4 + c.n(30)
	for i := 0; i < steps; i++ {
		batch := 1
		if c.chance(45) {
			batch = 2 + c.n(4)
		}
		for k := 0; k < batch; k++ {
			x.command(batch > 1)
		}
		x.observe()
		if c.chance(5) {
			time.Sleep(time.Second)
		}
		if c.chance(3) {
			c.longWait()
		}
		if x.wait.done.Load() && c.chance(40) {
			break
		}
	}
	x.shutdown()
}

func (x *ct) shutdown() {
	c := x.c
	c.logf("-- shutdown")
	if x.winner == nil {
		x.invoke(false, false)
		x.observe()
	}
	x.call(&cCall{what: "Kill", kill: cErr{nil, "nil", ""}}, false, func() error { x.site.Kill(nil); return nil })
	x.observe()
	for round := 0; ; round++ {
		if round > 200 {
			bad("shutdown doesn't end")
		}
		ws := x.liveWs()
		wk := x.work()
		if wk != nil && wk.retDone {
			wk = nil
		}
		if len(ws) == 0 && wk == nil {
			break
		}
		if wk != nil && (len(ws) == 0 || c.chance(20)) {
			wk.sent = true
			e := x.anyErr()
			if c.chance(30) {
				e = x.panicErr()
			}
			wk.release <- e
		} else {
			for k := 1 + c.n(3); k > 0 && len(ws) > 0; k-- {
				i := c.n(len(ws))
				e := cErr{nil, "nil", ""}
				if c.chance(30) {
					e = x.anyErr()
				}
				ws[i].end(e)
				ws = append(ws[:i:i], ws[i+1:]...)
			}
		}
		x.observe()
		if c.chance(5) {
			c.longWait()
			x.observe()
		}
	}
	for _, rc := range x.calls {
		if !rc.done.Load() {
			c.fail([]string{"C22", "C23"}, "hang", "%v hangs when everything has ended", rc)
		}
	}
	x.startWait(false)
	again := &cCall{what: "Wait"}
	x.call(again, false, func() error { return x.site.Wait() })
	time.Sleep(time.Minute)
	x.observe()
	if !again.done.Load() || !x.states[0].err.is(again.err) {
		c.fail([]string{"C23", "C24"}, "wait", "another Wait gives %v %v, the first gave %v", again.done.Load(), again.err, x.wait.err)
	}
	for _, cc := range x.ctxs {
		if cc.cancel != nil {
			cc.cancel()
		}
	}
	c.settle()
	c.checkLeaks()
	runtime.KeepAlive(x)
	var _ worker.Worker = (*cW)(nil)
}
