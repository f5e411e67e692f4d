package scen

import (
	"fmt"
	"sort"
	"strings"
)

// linOp is one completed operation of a concurrent history: it took effect at one
// moment between call and ret, and step tells what its result allows at that moment.
type linOp[S comparable] struct {
	call, ret int64
	desc      string
	step      func(S) (S, bool)
}

const (
	linOK = iota
	linBad
	linUndecided
)

const linWords = 4

// linearize decides whether some order of the operations, compatible with their
// calls and returns, is a legal sequential execution starting in init (Wing and
// Gong's search with memoised states). deepest reports the longest legal prefix.
func linearize[S comparable](init S, ops []linOp[S], budget int) (verdict int, deepest []int) {
	if len(ops) > 64*linWords {
		return linUndecided, nil
	}
	idx := make([]int, len(ops))
	for i := range idx {
		idx[i] = i
	}
	sort.Slice(idx, func(a, b int) bool { return ops[idx[a]].ret < ops[idx[b]].ret })
	type memo struct {
		done [linWords]uint64
		s    S
	}
	seen := map[memo]bool{}
	var done [linWords]uint64
	has := func(i int) bool { return done[i>>6]&(1<<(i&63)) != 0 }
	flip := func(i int) { done[i>>6] ^= 1 << (i & 63) }
	var path []int
	out := false
	var dfs func(s S, left int) bool
	dfs = func(s S, left int) bool {
		if left == 0 {
			return true
		}
		k := memo{done, s}
		if seen[k] {
			return false
		}
		if len(seen) >= budget {
			out = true
			return false
		}
		seen[k] = true
		limit := int64(0) // the earliest return among the operations not placed yet
		for _, i := range idx {
			if !has(i) {
				limit = ops[i].ret
				break
			}
		}
		for _, i := range idx {
			if has(i) || ops[i].call > limit {
				continue
			}
			n, ok := ops[i].step(s)
			if !ok {
				continue
			}
			flip(i)
			path = append(path, i)
			if len(path) > len(deepest) {
				deepest = append([]int(nil), path...)
			}
			if dfs(n, left-1) {
				return true
			}
			path = path[:len(path)-1]
			flip(i)
			if out {
				return false
			}
		}
		return false
	}
	if dfs(init, len(ops)) {
		return linOK, deepest
	}
	if out {
		return linUndecided, nil
	}
	return linBad, deepest
}

// explain renders a history that has no legal order.
func explain[S comparable](ops []linOp[S], deepest []int) string {
	var b strings.Builder
	in := map[int]bool{}
	b.WriteString("no order of these operations explains their results:\n")
	idx := make([]int, len(ops))
	for i := range idx {
		idx[i] = i
	}
	sort.Slice(idx, func(a, c int) bool { return ops[idx[a]].call < ops[idx[c]].call })
	for _, i := range idx {
		fmt.Fprintf(&b, "  [%d..%d] %s\n", ops[i].call, ops[i].ret, ops[i].desc)
	}
	b.WriteString("longest legal prefix:")
	for _, i := range deepest {
		in[i] = true
		fmt.Fprintf(&b, "\n  %s", ops[i].desc)
	}
	b.WriteString("\nleft over:")
	for _, i := range idx {
		if !in[i] {
			fmt.Fprintf(&b, "\n  %s", ops[i].desc)
		}
	}
	return b.String()
}
