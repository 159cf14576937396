// Package harness runs the real juju/worker code under generated workloads in
// testing/synctest bubbles (virtual time, exact quiescence) and checks what it
// observes against reference models and trace invariants.
package harness

import (
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	jujuerrors "github.com/juju/errors"
	"gopkg.in/tomb.v2"

	"github.com/juju/worker/v4/verifsched"
)

var (
	fProp    = flag.String("prop", "", "property to check")
	fKnown   = flag.String("known", "", "keys of the known findings, with commas")
	fSeed    = flag.Int64("seed", 1, "seed")
	fCases   = flag.Int("cases", 1000, "number of cases over all shards")
	fShard   = flag.Int("shard", 0, "this shard")
	fNShards = flag.Int("nshards", 1, "number of shards")
	fFrom    = flag.Int("from", 0, "first case to run")
	fOnly    = flag.Int("only", -1, "run just this case")
	fRepeat  = flag.Int("repeat", 1, "repeat each case")
	fOut     = flag.String("out", "", "result file")
	fDriver  = flag.String("driver", "", "drivers and their weights")
	fPrint   = flag.Bool("printcase", false, "print each history")
)

// famous are errors that code might be tempted to treat specially, but
// mustn't.
var famous = []error{
	context.Canceled, context.DeadlineExceeded, io.EOF, io.ErrUnexpectedEOF, tomb.ErrDying,
	jujuerrors.NotValid, jujuerrors.Timeout, jujuerrors.NotImplemented, jujuerrors.QuotaLimitExceeded,
	os.ErrClosed, net.ErrClosed,
}

// A causeErr has a Cause or an Unwrap that gives something else, or nothing,
// but is itself as much an error as any.
type causeErr struct {
	text  string
	cause error
}

func (e *causeErr) Error() string { return e.text }
func (e *causeErr) Cause() error  { return e.cause }
func (e *causeErr) Unwrap() error { return e.cause }

// A listErr can't be compared with another one: == panics.
type listErr struct {
	error
	parts []string
}

func (e listErr) Unwrap() error { return e.error }

// A mutedErr has nothing to say, or too much.
type mutedErr struct {
	error
	text string
}

func (e *mutedErr) Error() string { return e.text }
func (e *mutedErr) Unwrap() error { return e.error }

// dressed hides err in another error, or returns it.
func (c *Case) dressed(err error) error {
	if c.muted && c.n(2) == 0 {
		// They all look the same.
		return &mutedErr{err, "failed"}
	}
	switch c.n(40) {
	case 0, 1, 2, 3:
		return listErr{error: err}
	case 4:
		return errors.Join(io.EOF, err)
	case 5:
		return errors.Join(err, errors.New("another"))
	case 6:
		return &mutedErr{err, ""}
	case 7:
		return &mutedErr{err, "a\nb\n" + strings.Repeat("long ", 2000) + "%s%d"}
	case 8:
		return fmt.Errorf("%w and %w", errors.New("another"), err)
	}
	return err
}

// oddNames are names that code might be tempted to treat alike or specially.
var oddNames = []string{"", " ", "id", "id0", "ID0", "id0 ", "id0\x00", "%s%d%!", "é", "e\u0301", "id/0", "id\n0", "id-0", "engine", "*", strings.Repeat("id0", 100)}

// names makes n different names that start with prefix, or odd ones.
func (c *Case) names(prefix string, n int) []string {
	ns := make([]string, n)
	if c.chance(15) {
		for i, j := range c.rng.Perm(len(oddNames))[:n] {
			ns[i] = oddNames[j]
		}
		return ns
	}
	for i := range ns {
		ns[i] = fmt.Sprint(prefix, i)
	}
	return ns
}

// myCtx is a context of a type of its own.
type myCtx struct{ context.Context }

// withCancel returns a context of some kind that ends when it's cancelled.
func (c *Case) withCancel(parent context.Context) (context.Context, context.CancelFunc) {
	switch c.n(6) {
	case 0:
		return context.WithTimeout(parent, 1e6*time.Hour)
	case 1:
		ctx, cancel := context.WithCancelCause(parent)
		return ctx, func() { cancel(io.EOF) }
	case 2:
		ctx, cancel := context.WithCancel(parent)
		return myCtx{ctx}, cancel
	}
	return context.WithCancel(parent)
}

// longWait waits for longer than any timeout.
func (c *Case) longWait() {
	d := time.Duration(1+c.n(5000)) * time.Hour
	c.logf("advance %v", d)
	c.feature("long-wait")
	time.Sleep(d)
}

func printable(s string) string {
	return strings.Map(func(r rune) rune {
		if r < ' ' {
			return '·'
		}
		return r
	}, s)
}

// same says whether a and b are the same error.
func same(a, b error) bool {
	la, oka := a.(listErr)
	lb, okb := b.(listErr)
	if oka || okb {
		return oka && okb && same(la.error, lb.error)
	}
	fa, oka := a.(eFiltered)
	fb, okb := b.(eFiltered)
	if oka || okb {
		return oka && okb && same(fa.error, fb.error)
	}
	return a == b
}

// errKey tells errors apart that aren't the same.
func errKey(err error) string {
	switch e := err.(type) {
	case nil:
		return "-"
	case listErr:
		return "l" + errKey(e.error)
	case eFiltered:
		return "f" + errKey(e.error)
	}
	if v := reflect.ValueOf(err); v.Kind() == reflect.Ptr {
		return strconv.FormatUint(uint64(v.Pointer()), 36)
	}
	return fmt.Sprintf("%T%v", err, err)
}

// someErr makes an error, of a kind that doesn't matter.
func (c *Case) someErr(n int) error {
	switch c.n(8) {
	case 0, 1:
		return famous[c.n(len(famous))]
	case 2:
		return fmt.Errorf("e%d: %w", n, famous[c.n(len(famous))])
	case 3:
		return &causeErr{fmt.Sprintf("e%d", n), nil}
	case 4:
		return &causeErr{fmt.Sprintf("e%d", n), famous[c.n(len(famous))]}
	}
	return c.dressed(fmt.Errorf("e%d", n))
}

// Exit codes of a shard process.
const (
	exitViolation = 10 // the checked property is violated
	exitForeign   = 11 // another property is violated; resume with the next case
	exitWatchdog  = 12 // no progress in real time: inconclusive
	exitHarness   = 13 // defect of the harness
	exitAbandon   = 14 // the oracle gave up on a case; resume with the next
)

// A driver runs one case inside a bubble.
type driver struct {
	name string
	run  func(c *Case)
	// plain drivers don't want a bubble.
	plain bool
}

var drivers = map[string]driver{}

func register(name string, run func(c *Case)) { drivers[name] = driver{name: name, run: run} }

func registerPlain(name string, run func(c *Case)) {
	drivers[name] = driver{name: name, run: run, plain: true}
}

// Case is one generated execution.
type Case struct {
	driver string
	index  int
	seed   int64
	rng    *rand.Rand
	t      *testing.T

	mu   sync.Mutex
	log  []string
	t0   time.Time
	base int

	// slow and clockAhead say how the clock of the case differs from the
	// system's.
	slow, clockAhead time.Duration

	// muted makes many errors have the same text.
	muted bool

	// Injected scheduling.
	policy  int
	prob    uint32 // of 1<<16
	maxNap  int64  // nanoseconds
	targets [3]int32
	hrng    atomic.Uint64
	// quiet turns delays off, while the workload looks at the result.
	quiet atomic.Bool

	events   int
	checks   int
	sig      uint64
	features map[string]int
	tainted  bool
}

var (
	cur      atomic.Pointer[Case]
	sleepers atomic.Int64
	steps    atomic.Int64
	hits     []atomic.Bool
	caseStep atomic.Int64
)

const maxSteps = 30_000_000

func hook(site int) {
	c := cur.Load()
	if c == nil {
		return
	}
	if site < len(hits) && !hits[site].Load() {
		hits[site].Store(true)
	}
	if n := caseStep.Add(1); n > maxSteps {
		c.fail([]string{"*"}, "livelock", "no end to the activity: %d statements without the workload asking for any", n)
	}
	if c.quiet.Load() {
		return
	}
	switch c.policy {
	case 1:
		if c.hr()%65536 < uint64(c.prob) {
			runtime.Gosched()
		}
	case 2:
		if c.hr()%65536 < uint64(c.prob) {
			c.nap(int64(c.hr()%uint64(c.maxNap)) + 1)
		}
	case 3:
		for _, t := range c.targets {
			if int32(site) == t {
				c.nap(int64(c.hr()%uint64(c.maxNap)) + 1)
				return
			}
		}
		if c.hr()%65536 < 2000 {
			runtime.Gosched()
		}
	}
}

func (c *Case) hr() uint64 {
	x := c.hrng.Add(0x9e3779b97f4a7c15)
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func (c *Case) nap(ns int64) {
	sleepers.Add(1)
	time.Sleep(time.Duration(ns))
	sleepers.Add(-1)
}

// jitter delays a goroutine of the workload a little.
func (c *Case) jitter() {
	switch c.hr() % 4 {
	case 0:
	case 1:
		runtime.Gosched()
	default:
		if c.policy >= 2 {
			c.nap(int64(c.hr()%uint64(c.maxNap)) + 1)
		}
	}
}

// settle returns when nothing in the bubble can go on without time passing,
// other than by the (tiny) injected delays, which it waits out.
func (c *Case) settle() {
	for {
		synctest.Wait()
		if sleepers.Load() == 0 {
			return
		}
		time.Sleep(time.Duration(c.maxNap))
	}
}

func (c *Case) now() time.Duration { return time.Since(c.t0) }

// oddClock makes rClocks disagree with the system's clock in some cases.
func (c *Case) oddClock() bool {
	if !c.chance(25) {
		return false
	}
	c.slow, c.clockAhead = 2, time.Duration(c.n(1000)-500)*time.Hour
	return true
}

func (c *Case) clockSlow() time.Duration { return max(c.slow, 1) }

// logf records an event of the history.
func (c *Case) logf(f string, a ...any) {
	s := printable(fmt.Sprintf(f, a...))
	at := c.now()
	c.mu.Lock()
	c.log = append(c.log, fmt.Sprintf("%13v  %s", at, s))
	c.events++
	c.mu.Unlock()
}

// gen changes whenever something is added to the history.
func (c *Case) gen() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.events
}

func (c *Case) feature(f string) {
	c.mu.Lock()
	c.features[f]++
	c.mu.Unlock()
}

// mix adds to the case's signature, which counts distinct histories.
func (c *Case) mix(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	c.mu.Lock()
	c.sig = c.sig*1099511628211 ^ h.Sum64()
	c.mu.Unlock()
}

func (c *Case) n(n int) int              { return c.rng.Intn(n) }
func (c *Case) chance(pct int) bool      { return c.rng.Intn(100) < pct }
func (c *Case) oneOf(s ...string) string { return s[c.rng.Intn(len(s))] }

// fail reports a violation and ends the process.
func (c *Case) fail(props []string, kind, f string, a ...any) {
	failMu.Lock() // never unlocked
	own := false
	for _, p := range props {
		if p == "*" || p == *fProp || *fProp == "ALL" {
			own = true
		}
	}
	c.mu.Lock()
	log := append([]string(nil), c.log...)
	c.mu.Unlock()
	rep := map[string]any{
		"property": *fProp,
		"violates": props,
		"own":      own,
		"kind":     kind,
		"message":  fmt.Sprintf(f, a...),
		"driver":   c.driver,
		"case":     c.index,
		"seed":     *fSeed,
		"history":  log,
		"stacks":   stacks(),
	}
	if own {
		writeResult(rep)
		os.Exit(exitViolation)
	}
	res.Foreign++
	res.ForeignSample = fmt.Sprintf("%v %s: %s (driver %s case %d)", props, kind, fmt.Sprintf(f, a...), c.driver, c.index)
	if *fPrint {
		fmt.Println(res.ForeignSample)
		for _, l := range log {
			fmt.Println(l)
		}
	}
	writeResult(nil)
	os.Exit(exitForeign)
}

// foreign notes a violation of another property, of which there is one per
// case at most, and goes on.
func (c *Case) foreign(props []string, kind, f string, a ...any) {
	c.logf("! %v %s", props, kind)
	if !c.tainted {
		c.tainted = true
		res.Foreign++
		if res.ForeignSample == "" {
			res.ForeignSample = fmt.Sprintf("%v %s: %s (driver %s case %d)", props, kind, fmt.Sprintf(f, a...), c.driver, c.index)
		}
	}
}

// known says whether key is that of a defect which KNOWN_FINDINGS.txt lists,
// and notes that it has been seen again.
func (c *Case) known(key string) bool {
	if key == "" || !slices.Contains(strings.Split(*fKnown, ","), key) {
		return false
	}
	c.feature("known-finding " + key)
	return true
}

var failMu sync.Mutex

// bad ends the process because of a defect in the harness.
func bad(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "HARNESS: "+f+"\n", a...)
	if c := cur.Load(); c != nil {
		for _, l := range c.log {
			fmt.Fprintln(os.Stderr, l)
		}
	}
	os.Exit(exitHarness)
}

// abandon gives up on the case, whose check would take too long.
func (c *Case) abandon() {
	failMu.Lock()
	writeResult(nil)
	os.Exit(exitAbandon)
}

func stacks() string {
	buf := make([]byte, 1<<18)
	return string(buf[:runtime.Stack(buf, true)])
}

// repoGoroutines returns the stacks of goroutines that run code of the
// repository or were created by it.
func repoGoroutines() []string {
	var out []string
	for _, g := range strings.Split(stacks(), "\n\n") {
		if strings.Contains(g, "github.com/juju/worker/v4") && !strings.Contains(g, "harness.repoGoroutines") {
			out = append(out, g)
		}
	}
	return out
}

// checkLeaks is called at the end of a case, when everything has finished.
func (c *Case) checkLeaks(props ...string) {
	c.checks++
	if runtime.NumGoroutine() <= c.base {
		return
	}
	if gs := repoGoroutines(); len(gs) > 0 {
		c.fail(append([]string{"C33"}, props...), "leak", "%d goroutine(s) left over:\n%s", len(gs), strings.Join(gs, "\n\n"))
	}
}

type results struct {
	Cases         int            `json:"cases"`
	Events        int            `json:"events"`
	Checks        int            `json:"checks"`
	Steps         int64          `json:"steps"`
	Sigs          []uint64       `json:"sigs"`
	Drivers       map[string]int `json:"drivers"`
	Features      map[string]int `json:"features"`
	Policies      map[string]int `json:"policies"`
	Sites         []int          `json:"sites"`
	NSites        int            `json:"nsites"`
	Foreign       int            `json:"foreign"`
	ForeignSample string         `json:"foreign_sample,omitempty"`
	Samples       []sample       `json:"samples"`
	Next          int            `json:"next"`
	Violation     map[string]any `json:"violation,omitempty"`
	Done          bool           `json:"done"`
	Extra         map[string]any `json:"extra,omitempty"`
}

type sample struct {
	Driver  string   `json:"driver"`
	Case    int      `json:"case"`
	History []string `json:"history"`
}

var res = results{Drivers: map[string]int{}, Features: map[string]int{}, Policies: map[string]int{}, Extra: map[string]any{}}

func writeResult(violation map[string]any) {
	collectSites()
	res.Violation = violation
	res.Steps = steps.Load() + caseStep.Load()
	res.NSites = len(hits)
	res.Sites = nil
	for i := range hits {
		if hits[i].Load() {
			res.Sites = append(res.Sites, i)
		}
	}
	if *fOut == "" {
		if violation != nil {
			fmt.Printf("VIOLATION %v %s: %s\n", violation["violates"], violation["kind"], violation["message"])
			for _, l := range violation["history"].([]string) {
				fmt.Println(l)
			}
		}
		return
	}
	data, err := json.Marshal(res)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(exitHarness)
	}
	tmp := *fOut + ".tmp"
	os.WriteFile(tmp, data, 0o644)
	os.Rename(tmp, *fOut)
}

func seedFor(parts ...any) int64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	return int64(h.Sum64() >> 1)
}

func newCase(t *testing.T, driver string, index int) *Case {
	seed := seedFor(*fSeed, "/", *fProp, "/", driver, "/", index)
	c := &Case{
		driver: driver, index: index, seed: seed, t: t,
		rng:      rand.New(rand.NewSource(seed)),
		features: map[string]int{},
	}
	c.hrng.Store(uint64(seed))
	c.maxNap = []int64{20, 300, 2000}[c.n(3)]
	c.prob = []uint32{600, 3000, 12000}[c.n(3)]
	switch r := c.n(10); {
	case r < 2:
		c.policy = 0
	case r < 4:
		c.policy = 1
	case r < 7:
		c.policy = 2
	default:
		c.policy = 3
	}
	c.muted = c.chance(8)
	sites := targetSites(driver)
	for i := range c.targets {
		c.targets[i] = -1
		if c.policy == 3 && len(sites) > 0 && (i == 0 || c.chance(50)) {
			c.targets[i] = sites[c.n(len(sites))]
		}
	}
	return c
}

var siteCache = map[string][]int32{}

func targetSites(driver string) []int32 {
	prefix := ""
	switch {
	case strings.HasPrefix(driver, "runner"):
		prefix = "runner.go"
	case strings.HasPrefix(driver, "engine"):
		prefix = "dependency/"
	case strings.HasPrefix(driver, "catacomb"):
		prefix = "catacomb/"
	}
	if s, ok := siteCache[prefix]; ok {
		return s
	}
	var out []int32
	for i, s := range verifsched.Sites {
		if strings.HasPrefix(s.File, prefix) && !strings.HasSuffix(s.Func, "alidate") {
			out = append(out, int32(i))
		}
	}
	siteCache[prefix] = out
	return out
}

func TestCheck(t *testing.T) {
	// -driver lists drivers and their weights: a=1,b=3.
	var wheel []string
	for _, d := range strings.Split(*fDriver, ",") {
		name, weight := d, 1
		if n, w, ok := strings.Cut(d, "="); ok {
			name = n
			fmt.Sscan(w, &weight)
		}
		if _, ok := drivers[name]; !ok {
			bad("no driver %q", name)
		}
		for i := 0; i < weight; i++ {
			wheel = append(wheel, name)
		}
	}
	sort.Strings(wheel)
	hits = make([]atomic.Bool, len(verifsched.Sites))
	installHook()
	go watchdog()

	first, last := *fFrom, *fCases-1
	if *fOnly >= 0 {
		first, last = *fOnly, *fOnly
	}
	for i := first; i <= last; i++ {
		if *fOnly < 0 && i%*fNShards != *fShard {
			continue
		}
		// Each shard gets its share of all the drivers.
		d := drivers[wheel[(i / *fNShards + i%*fNShards)%len(wheel)]]
		res.Next = i + 1
		caseNow.Store(int64(i))
		for k := 0; k < *fRepeat; k++ {
			runCase(t, d, i)
		}
	}
	res.Done = true
	writeResult(nil)
}

func runCase(t *testing.T, d driver, i int) {
	c := newCase(t, d.name, i)
	if *fOut != "" {
		os.WriteFile(*fOut+".cur", []byte(fmt.Sprintf("%s %d", d.name, i)), 0o644)
	}
	steps.Add(caseStep.Swap(0))
	if d.plain {
		c.t0 = time.Now()
		d.run(c)
	} else {
		c.base = runtime.NumGoroutine() + 1
		func() {
			defer func() {
				if r := recover(); r != nil {
					msg := fmt.Sprint(r)
					if strings.Contains(msg, "deadlock") {
						c.fail([]string{"C33", "*"}, "deadlock", "%s", msg)
					}
					panic(r)
				}
			}()
			synctest.Test(t, func(t *testing.T) {
				c.t = t
				c.t0 = time.Now()
				c.base = runtime.NumGoroutine()
				cur.Store(c)
				d.run(c)
				cur.Store(nil)
			})
		}()
	}
	if *fPrint {
		fmt.Printf("--- %s case %d policy %d\n", d.name, i, c.policy)
		for _, l := range c.log {
			fmt.Println(l)
		}
	}
	res.Cases++
	res.Drivers[d.name]++
	res.Events += c.events
	res.Checks += c.checks
	res.Policies[fmt.Sprint("policy", c.policy)]++
	for k, v := range c.features {
		res.Features[k] += v
	}
	for _, l := range c.log {
		// The signature is that of the observed history without its times.
		if len(l) > 15 {
			c.mix(l[15:])
		}
	}
	if c.events >= 3 {
		res.Sigs = append(res.Sigs, c.sig)
	}
	if len(res.Samples) < 1 && i/(*fNShards) >= 3 {
		h := c.log
		if len(h) > 60 {
			h = h[:60]
		}
		res.Samples = append(res.Samples, sample{d.name, i, h})
	}
}

// caseNow is the case that runs.
var caseNow atomic.Int64

// watchdog ends the process when no case finishes and no statement of the
// code under test runs for a long (real) time.
func watchdog() {
	last, lastSteps, since := int64(-1), int64(-1), time.Now()
	for {
		time.Sleep(2 * time.Second)
		s := steps.Load() + caseStep.Load()
		if i := caseNow.Load(); i != last || s != lastSteps {
			last, lastSteps, since = i, s, time.Now()
			continue
		}
		if time.Since(since) > 60*time.Second {
			fmt.Fprintf(os.Stderr, "WATCHDOG: no progress\n%s\n", stacks())
			os.Exit(exitWatchdog)
		}
	}
}

func repoRel(p string) string {
	if r, err := filepath.Rel("/repo", p); err == nil {
		return r
	}
	return p
}

// wraps says whether got is want, or wraps it.
func wraps(got, want error) bool {
	for e := got; e != nil; e = errors.Unwrap(e) {
		if same(e, want) {
			return true
		}
	}
	return errors.Is(got, want)
}

// scribble writes into a report, down to the entries of its parts: it belongs
// to the caller, who may do so.
func scribble(report map[string]any, parts string) {
	ms, _ := report[parts].(map[string]any)
	for k, v := range ms {
		if m, ok := v.(map[string]any); ok {
			for f, v := range m {
				if l, ok := v.([]string); ok {
					for i := range l {
						l[i] = "scribble"
					}
				}
				m[f] = "scribble"
			}
		}
		ms["x"+k] = v
		delete(ms, k)
	}
	for f := range report {
		report[f] = "scribble"
	}
}
