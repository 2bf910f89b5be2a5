package main

func init() {
	register(&propSpec{
		id:     "C18",
		min:    20,
		rule:   "abstract interpretation of the cross section constructors and accessors; every accessor's value graph is compared with the documented formula by polynomial normal form, the error result with the documented validity condition as a decision diagram over the sign of each parameter and the presence of each key",
		assume: []string{"exact arithmetic (rounding is not modelled)"},
		run:    runC18,
	})
}

func runC18(k *Check) {
	k.scenario("rectangle", func(it *Interp) {
		b, h, roll := sym("b"), sym("h"), sym("roll")
		cs, err := it.call2("NewRectangularCrossSection", num(b), num(h), num(roll))
		bad := it.any(it.le0(b), it.le0(h), it.lt0(roll))
		k.eq("cs-validity", "NewRectangularCrossSection", "error result", it.not(isNil(it.ctx(), err)), bad)
		k.onSuccess(err, func() {
			get := func(m string) V { return it.callMethod(cs, m) }
			b3, h3 := b.Pow(3), h.Pow(3)
			k.eq("cs-formula", it.methodName(cs, "Area"), "Area", get("Area"), b.Mul(h))
			k.eq("cs-formula", it.methodName(cs, "Iyy"), "Iyy", get("Iyy"), b.Mul(h3).Mul(ratPoly(1, 12)))
			k.eq("cs-formula", it.methodName(cs, "Izz"), "Izz", get("Izz"), h.Mul(b3).Mul(ratPoly(1, 12)))
			k.eq("cs-formula", it.methodName(cs, "RollAngle"), "RollAngle", get("RollAngle"), roll)
			ixx := func(a, b *Poly) V { // a ≥ b, Roark
				q := b.Div(a)
				return num(a.Mul(b.Pow(3)).Mul(ratPoly(1, 3).Sub(ratPoly(21, 100).Mul(q).Mul(intPoly(1).Sub(q.Pow(4).Mul(ratPoly(1, 12)))))))
			}
			// Both formulas agree for squares, hence either side of the boundary may include equality
			got := get("Ixx")
			k.assuming(it.lt0(b.Sub(h)), func() { k.eq("cs-formula", it.methodName(cs, "Ixx"), "Ixx (b<h)", got, ixx(h, b)) })
			k.assuming(it.lt0(h.Sub(b)), func() { k.eq("cs-formula", it.methodName(cs, "Ixx"), "Ixx (b>h)", got, ixx(b, h)) })
			k.assuming(it.ctx().eq0(h.Sub(b)), func() { k.eq("cs-formula", it.methodName(cs, "Ixx"), "Ixx (b=h)", got, ixx(b, b)) })
		})
	})
	k.scenario("constants", func(it *Interp) {
		keys := []string{"A", "Iyy", "Izz", "Ixx", "roll"}
		acc := []string{"Area", "Iyy", "Izz", "Ixx", "RollAngle"}
		m := &MapVal{}
		vals := map[string]*Poly{}
		bad := V(Bool(false))
		c := it.ctx()
		for i, key := range keys {
			v := sym(key)
			vals[key] = v
			has := atomBool(opaqueAtom("has " + key))
			m.ents = append(m.ents, MapEnt{Str{key}, num(v), has})
			if i < 3 {
				bad = it.any(bad, c.not(has), it.le0(v))
			} else {
				bad = c.or(bad, c.and(has, it.lt0(v)))
			}
		}
		mp := MapRef{it.alloc("param", nil, m)}
		cs, err := it.call2("NewConstantsCrossSections", mp)
		k.eq("cs-validity", "NewConstantsCrossSections", "error result", it.not(isNil(it.ctx(), err)), bad)
		k.onSuccess(err, func() {
			for i, key := range keys {
				has := atomBool(opaqueAtom("has " + key))
				want := it.ctx().ite(it.ctx().restrict(has), num(vals[key]), num(intPoly(0)))
				k.eq("cs-formula", it.methodName(cs, acc[i]), acc[i], it.callMethod(cs, acc[i]), want)
			}
			// the caller's map may change afterwards
			it.setContent(mp.o, &MapVal{})
			for i, key := range keys[:3] {
				k.eq("cs-formula", it.methodName(cs, acc[i])+" (independent of the parameter map)", acc[i], it.callMethod(cs, acc[i]), vals[key])
			}
		})
	})
	k.scenario("nil parameter map", func(it *Interp) {
		_, err := it.call2("NewConstantsCrossSections", MapRef{})
		k.errSet("cs-validity", "NewConstantsCrossSections", "missing parameters", err)
	})
}
