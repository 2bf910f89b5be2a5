package main

import (
	"fmt"
	"strings"
)

// nameTriples are identifiers of the two nodes and the element. What an element does must not depend on how they are
// called: on the length of the names, their order, case, spaces, digits, on one being part of the other etc.
var nameTriples = [][3]string{
	{"B", "A", "AB"},
	{"node", "n", "x"},
	{"n", "node", "node"},
	{"", "n", "1"},
	{"right", "", "el"},
	{"n", "", "n"},
	{"1", "2", strings.Repeat("long", 40)},
	{"10", "9", "BA"},
	{"a", "A", " "},
	{"n2", "n10", "e 2"},
	{"Knoten Ä", "節点", "élément"},
	{strings.Repeat("node", 30) + "1", strings.Repeat("node", 30) + "2", "node"},
	{"left", "right", "el"},
	{" left", "left", "Phiy"},
	{"Ux", "Uz", "Phiy"},
	{"A/Ux", "A", "A/Ux"},
	{"0", "00", "0"},
	{"-1", "+1", "-"},
	{"n\n1", "n\t1", "n\x00"},
}

// nameScenarios runs f for elements of all kinds with loads and hinges, for nodes and elements of any name.
func (k *Check) nameScenarios(rule string, hinged bool, f func(e *elemSpec, elem V, s *system)) {
	for _, kind := range elementKinds {
		var sets [][]int
		switch {
		case !hinged:
			sets = [][]int{nil}
		case kind == "frame2d":
			sets = [][]int{{0, 2}, {3, 5}, {1, 5}, {2, 4}}
		default:
			sets = [][]int{{0}, {1}}
		}
		for j := range 2 * len(nameTriples) {
			i := j / 2
			n := nameTriples[i]
			if !hinged && j%2 > 0 {
				continue
			}
			k.scenario(fmt.Sprintf("%s %.20q from %.20q to %.20q", kind, n[2], n[0], n[1]), func(it *Interp) {
				e := &elemSpec{kind: kind, g: it.geom(kind, n[0], n[1]), m: newMatParams(), hinges: sets[j%len(sets)]}
				e.loads = []load{linearLoad("Ux")}
				if e.frame() {
					e.loads = append(e.loads, linearLoad("Uz"), it.newDirac("Phiy", e.g.L))
				}
				elem, err := it.construct(e, n[2])
				if !k.errNil(rule, e.ctor(), "creating a valid element", err) {
					return
				}
				k.holds(rule, it.methodName(elem, "ID"), "identifier of the element",
					Bool(same(it.ctx().restrict(it.callMethod(elem, "ID")), Str{n[2]})))
				k.addLoads(rule, e, elem)
				s := k.systemFor(elem, variant{id0: n[0], id1: n[1], fixed: []string{n[i%2] + "/Uz", "Z/Ux"}})
				f(e, elem, s)
			})
		}
	}
}
