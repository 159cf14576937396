package harness

import (
	"context"
	"fmt"
	"maps"
	"runtime/pprof"
	"slices"
	"strings"
	"unsafe"
)

//go:linkname getLabels runtime/pprof.runtime_getProfLabel
func getLabels() unsafe.Pointer

// labels has the current goroutine's profiler labels.
func labels() map[string]string {
	out := map[string]string{}
	p := (*struct{ list []struct{ key, value string } })(getLabels())
	if p == nil {
		return out
	}
	for _, l := range p.list {
		out[l.key] = l.value
	}
	return out
}

func init() {
	// Make sure that what we read is what we think it is.
	pprof.SetGoroutineLabels(pprof.WithLabels(context.Background(), pprof.Labels("a", "1", "b", "2")))
	if l := labels(); len(l) != 2 || l["a"] != "1" || l["b"] != "2" {
		bad("cannot read profiler labels: %v", l)
	}
	pprof.SetGoroutineLabels(context.Background())
	if l := labels(); len(l) != 0 {
		bad("cannot read profiler labels: %v", l)
	}
}

func (c *Case) badLabels(f string, a ...any) {
	if *fProp == "C35" || *fProp == "ALL" {
		c.fail([]string{"C35"}, "labels", f, a...)
	}
	c.logf("! labels "+f, a...)
}

// wantLabels checks the labels of the current goroutine, and those of ctx
// unless it's nil. It takes pairs of keys and values.
func (c *Case) wantLabels(what string, ctx context.Context, kv ...string) {
	have := labels()
	c.feature("labels-checked")
	for i := 0; i < len(kv); i += 2 {
		k, v := kv[i], kv[i+1]
		if got, ok := have[k]; !ok || got != v {
			c.badLabels("%s runs on a goroutine with the profiler label %s=%q (%v), should be %q", what, k, got, ok, v)
		}
		if ctx == nil {
			continue
		}
		if got, ok := pprof.Label(ctx, k); !ok || got != v {
			c.badLabels("%s has a context with the profiler label %s=%q (%v), should be %q", what, k, got, ok, v)
		}
	}
}

// keepLabels gives the goroutine labels of its own, at times, and returns a
// function which checks that it still has the same labels.
func (c *Case) keepLabels(what string, set bool) func() {
	if set {
		pprof.SetGoroutineLabels(otherLabels(context.Background(), what))
	}
	before := getLabels()
	text := labelText(labels())
	return func() {
		if getLabels() != before && labelText(labels()) != text {
			c.badLabels("%s changes its caller's profiler labels from %s to %s", what, text, labelText(labels()))
		}
	}
}

// otherLabels returns a context with labels which the library's must replace.
func otherLabels(ctx context.Context, who string) context.Context {
	return pprof.WithLabels(ctx, pprof.Labels("type", "caller", "name", "of "+who, "id", "caller's", "who", who))
}

func labelText(m map[string]string) string {
	var out []string
	for _, k := range slices.Sorted(maps.Keys(m)) {
		out = append(out, fmt.Sprintf("%s=%q", k, m[k]))
	}
	return "{" + strings.Join(out, " ") + "}"
}
