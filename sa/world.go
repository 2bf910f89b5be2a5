package main

import "sort"

// Helpers to set up abstract inputs in terms of the exported API.

// under runs f once per leaf of v in a child state that assumes the leaf's condition.
func (k *Check) under(v V, f func(leaf V)) {
	it := k.it
	base := it.st
	it.ctx().leaves(it.ctx().restrict(v), func(c *Ctx, leaf V) {
		it.st = base.child(c)
		f(leaf)
	})
	it.st = base
}

// onSuccess runs f in every context in which err is nil.
func (k *Check) onSuccess(err V, f func()) {
	k.under(isNil(k.it.ctx(), k.it.ctx().restrict(err)), func(l V) {
		if bool(l.(Bool)) {
			f()
		}
	})
}

// assume evaluates f in a child state under a condition; modifications are dropped afterwards.
func (k *Check) assuming(g V, f func()) {
	k.under(g, func(l V) {
		if bool(l.(Bool)) {
			f()
		}
	})
}

func (it *Interp) le0(p *Poly) V { return it.ctx().or(it.ctx().lt0(p), it.ctx().eq0(p)) }
func (it *Interp) lt0(p *Poly) V { return it.ctx().lt0(p) }

func (it *Interp) any(vs ...V) V {
	r := V(Bool(false))
	for _, v := range vs {
		r = it.ctx().or(r, v)
	}
	return r
}

func (it *Interp) not(v V) V { return it.ctx().not(v) }

func sorted(s []string) []string {
	r := append([]string(nil), s...)
	sort.Strings(r)
	return r
}
