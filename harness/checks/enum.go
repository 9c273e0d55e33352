package checks

import (
	"fmt"

	"verif/mc"
)

// All maps property ids to checks.
var All = map[string]func(r *mc.Run){}

// Seqs enumerates all sequences over the alphabet with length lo..hi.
func Seqs(alpha []Op, lo, hi int, f func(seq []Op)) {
	var rec func(cur []Op)
	rec = func(cur []Op) {
		if len(cur) >= lo {
			f(append([]Op{}, cur...))
		}
		if len(cur) == hi {
			return
		}
		for _, o := range alpha {
			rec(append(cur, o))
		}
	}
	rec(nil)
}

// Perms enumerates all permutations.
func Perms(n int, f func(p []int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(append([]int{}, p...))
			return
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
}

// History runs a history on a template from scratch, saves and verifies.
func History(r *mc.Run, stratum string, t *Tmpl, pre, seq []Op) {
	id := t.Name + ":" + Names(pre) + ";" + Names(seq)
	r.Case(stratum, id, func() error {
		w, err := Open(t)
		if err != nil {
			return err
		}
		for i, o := range append(append([]Op{}, pre...), seq...) {
			if err := o.Do(w); err != nil {
				return fmt.Errorf("step %d %s: %w", i+1, o.Name, err)
			}
			r.Trans(1)
			r.State(w.M.Key())
		}
		out, err := SaveVerify(w)
		if err != nil {
			return err
		}
		r.Outcome(out)
		r.Trace()
		return nil
	})
}

func abbreviate(ops []Op, names ...string) []Op {
	for i := range names {
		ops[i].Name = names[i]
	}
	return ops
}
