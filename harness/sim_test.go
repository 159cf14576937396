package harness

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
)

// A mism is a difference between what a model allows and what was observed.
// Its props name the properties that it breaks (other words are ignored).
type mism struct {
	props string
	msg   string
}

type model interface {
	comparable
	key() string
}

// search looks for an order of the events es, interleaved with internal steps
// of the model, that leads from one of the states to one that agrees with all
// observations, and returns all the states that do. If there is none, what was
// observed is a violation.
//
// An event that is possible in a state and doesn't change it is taken right
// away, since there's nothing to be gained from taking it later.
func search[M model, E fmt.Stringer](c *Case, states []M, es []E,
	apply func(M, E) ([]M, *mism), internal func(M) []M, final func(M) []mism) []M {
	c.checks++
	type node struct {
		mask uint64
		m    M
	}
	if len(es) > 60 {
		c.abandon()
	}
	full := uint64(1)<<len(es) - 1
	// before[i] is the set of events that were over when event i began.
	before := make([]uint64, len(es))
	for i := range es {
		for j := range es {
			if p, ok := any(es[j]).(interface{ precedes(E) bool }); ok && j != i && p.precedes(es[i]) {
				before[i] |= 1 << j
			}
		}
	}
	seen := map[string]bool{}
	var finals []M
	finalKeys := map[string]bool{}
	var best []mism
	haveBest := false
	var bestStates []M
	bestPart := -1
	var part []mism
	var stack []node
	for _, m := range states {
		stack = append(stack, node{0, m})
	}
	for len(stack) > 0 {
		n := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		mkey := n.m.key()
		key := string(binary.AppendUvarint(nil, n.mask)) + mkey
		if seen[key] {
			continue
		}
		seen[key] = true
		if len(seen) > 300000 {
			c.abandon()
		}
		if n.mask == full {
			ms := final(n.m)
			if len(ms) == 0 {
				if !finalKeys[mkey] {
					finalKeys[mkey] = true
					finals = append(finals, n.m)
				}
			} else if !haveBest || len(ms) < len(best) {
				best, haveBest = ms, true
				bestStates = []M{n.m}
			} else if len(ms) == len(best) {
				bestStates = append(bestStates, n.m)
			}
		}
		var blocked []mism
		var succ []node
		greedy := false
		for i, e := range es {
			if n.mask&(1<<i) != 0 || before[i]&^n.mask != 0 {
				continue
			}
			next, why := apply(n.m, e)
			if len(next) == 1 && next[0] == n.m {
				stack = append(stack, node{n.mask | 1<<i, n.m})
				greedy = true
				break
			}
			if why != nil {
				blocked = append(blocked, *why)
			}
			for _, nm := range next {
				succ = append(succ, node{n.mask | 1<<i, nm})
			}
		}
		if greedy {
			continue
		}
		stack = append(stack, succ...)
		if cnt := popcount(n.mask); len(blocked) > 0 && cnt > bestPart {
			bestPart, part = cnt, blocked
		} else if cnt == bestPart && len(blocked) > 0 && len(blocked) < len(part) {
			part = blocked
		}
		for _, nm := range internal(n.m) {
			stack = append(stack, node{n.mask, nm})
		}
	}
	if len(finals) > 0 {
		if len(finals) > 3000 {
			c.abandon()
		}
		return finals
	}
	ms, kind := best, "state"
	if !haveBest {
		ms, kind = part, "event"
	}
	var msgs []string
	all := ""
	for _, m := range ms {
		all += m.props + " "
		msgs = append(msgs, m.msg)
	}
	props := propList(all)
	if haveBest && len(bestStates) < 100 && observational(props) {
		// The model and what it describes haven't parted; there may be a
		// violation of the checked property to come.
		c.foreign(props, kind, "%s [events %v]", strings.Join(msgs, "; "), es)
		return bestStates
	}
	c.fail(props, kind, "%s [events %v]", strings.Join(msgs, "; "), es)
	return nil
}

// observational says that props are just about how the state is reported, and
// that they aren't being checked.
func observational(props []string) bool {
	for _, p := range props {
		if p != "C08" && p != "C18" || p == *fProp || *fProp == "ALL" {
			return false
		}
	}
	return len(props) > 0
}

// propList extracts the property ids from s.
func propList(s string) []string {
	props := map[string]bool{}
	for _, p := range strings.Fields(s) {
		if len(p) == 3 && p[0] == 'C' && p[1] >= '0' && p[1] <= '9' {
			props[p] = true
		}
	}
	var ps []string
	for p := range props {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	return ps
}

func popcount(n uint64) int {
	k := 0
	for ; n != 0; n &= n - 1 {
		k++
	}
	return k
}
