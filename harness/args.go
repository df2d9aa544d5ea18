package main

import (
	"fmt"
	"math/big"
	mrand "math/rand"

	"pol/bp"
	"pol/common"
	"pol/poe"
	"pol/sum"

	math "github.com/IBM/mathlib"
)

func init() {
	kinds["range"] = runRange
	kinds["sum"] = runSum
	kinds["equal"] = runEqual
	kinds["ipa"] = runIPA
	kinds["reduce"] = runReduce
}

// argRec numbers the vectors of a scenario and records verdicts.
type argRec struct {
	*Recorder
	next int
	rng  *mrand.Rand
}

func newArgRec(rec *Recorder, s *Scenario) *argRec {
	rec.Emit(Event{"ev": "begin"})
	return &argRec{Recorder: rec, rng: mrand.New(mrand.NewSource(int64(s.Int("seed", 1))))}
}

func vecLimbs(v common.Vec) [][]int {
	res := make([][]int, len(v))
	for i := range v {
		res[i] = limbs(residue(v[i]))
	}
	return res
}

func (a *argRec) vec(v common.Vec) int { return a.vecIs(v, false) }

// vecIs is vec; trivial says that the commitment is the neutral element.
func (a *argRec) vecIs(v common.Vec, trivial bool) int {
	a.next++
	a.Emit(Event{"ev": "vec", "id": a.next, "v": vecLimbs(v), "trivial": trivial})
	return a.next
}

type verdict struct {
	honest, altered, excused bool
	what                     string
}

func (a *argRec) verdict(ev string, f Event, v verdict, verify func() bool) bool {
	ok := false
	pn := try(func() { ok = verify() })
	f["ev"] = ev
	f["honest"], f["altered"], f["excused"] = v.honest, v.altered, v.excused
	f["what"] = ascii.Replace(v.what)
	f["ok"] = ok && pn == nil
	if pn != nil {
		f["panic"] = ascii.Replace(panicText(pn))
	}
	a.Emit(f)
	return ok && pn == nil
}

func (a *argRec) skip(kind, what string) { a.Emit(Event{"ev": kind, "what": what}) }

// alterAll changes every element of a proof, one at a time.
func (a *argRec) alterAll(s *Scenario, proof interface{}, inert func(string) bool, show func(v verdict)) {
	var hows []string
	s.Get("hows", &hows)
	part, parts := s.Int("part", 0), s.Int("parts", 1)
	ls := leaves(proof)
	k := 0
	for _, l := range ls {
		for _, how := range hows {
			k++
			if k%parts != part {
				continue
			}
			undo, differs := alter(l, how, ls, a.rng)
			if differs {
				show(verdict{altered: true, excused: inert(l.Path), what: l.Path + " " + how})
			}
			undo()
		}
	}
}

// Attack is one of the attacks FiatShamir.tla predicts for challenges with
// inputs left out.
type Attack struct {
	Late    string     `json:"late"`
	Check   string     `json:"check"`
	Sub     string     `json:"sub"` // what stands where inputs are left out
	Dropped [][]string `json:"dropped"`
	Entry   int        `json:"entry"`
	Round   int        `json:"round"`
}

func (t Attack) drop() omitted {
	o := omitted{}
	for _, d := range t.Dropped {
		o[d[0]+"/"+d[1]] = true
	}
	if t.Sub != "" {
		o[t.Sub] = true
	}
	return o
}

func (t Attack) String() string { return fmt.Sprintf("late %s %v %s", t.Late, t.Dropped, t.Sub) }

// ipa returns how inner product arguments inside other arguments lie, if that
// is what the attack is about.
func (t Attack) ipa() (res []*ipaLie) {
	if len(t.Late) != 2 || (t.Late[0] != 'L' && t.Late[0] != 'R') {
		return
	}
	drop := omitted{}
	for d := range t.drop() {
		// whatever is left out is left out in every round
		if d[0] != 'x' || d[:2] == "x0" {
			drop[d] = true
			continue
		}
		for r := 1; r < 20; r++ {
			if d[3] == 'x' {
				drop[fmt.Sprintf("x%d/x0", r)] = true
			} else {
				drop[fmt.Sprintf("x%d/%c%d", r, d[3], r)] = true
			}
		}
	}
	for r := 1; r <= t.Round+1; r++ {
		res = append(res, &ipaLie{drop, t.Late[:1], r})
	}
	return
}

// pairs reads a list of pairs of positions.
func (s *Scenario) pairs(key string) (res [][2]int) {
	s.Get(key, &res)
	return res
}

func (s *Scenario) attacks() (res []Attack) {
	s.Get("attacks", &res)
	return
}

// ---- range ------------------------------------------------------------------

var rangeParams = map[int]*bp.RangeProofPublicParams{}

func rangePP(n int) *bp.RangeProofPublicParams {
	if rangeParams[n] == nil {
		rangeParams[n] = bp.NewRangeProofPublicParams(n)
	}
	return rangeParams[n]
}

func pedersen(F *math.G1, G common.G1v, v common.Vec, r *math.Zr) *math.G1 {
	V := F.Mul(r)
	V.Add(msm(G, v))
	return V
}

func decs(ss []string) []*big.Int {
	res := make([]*big.Int, len(ss))
	for i := range ss {
		res[i], _ = new(big.Int).SetString(ss[i], 10)
		res[i].Mod(res[i], order)
	}
	return res
}

func runRange(rec *Recorder, s *Scenario) {
	a := newArgRec(rec, s)
	n := s.Int("n", 2)
	p := rangePP(n)
	var honest, lies [][]string
	s.Get("honest", &honest)
	s.Get("lies", &lies)
	show := func(made, shown int, v verdict, rp *bp.RangeProof, V *math.G1) bool {
		return a.verdict("range", Event{"made": made, "shown": shown}, v, func() bool {
			q := deepCopy(rp).(*bp.RangeProof)
			return bp.VerifyRange(p, q, V.Copy()) == nil
		})
	}
	calibrated := false
	calibrate := func() bool {
		if calibrated {
			return true
		}
		vs := decs(append(make([]string, 0), repeat("5", n)...))
		r := residue(rnd())
		V := pedersen(p.F, p.Gs, vecOf(vs), zrOf(r))
		rp, err := forgeRange(p, V, vs, r, rangeLie{kind: "honest"}, a.rng)
		if err != nil || bp.VerifyRange(p, rp, V) != nil {
			a.skip("uncalibrated", "range prover")
			return false
		}
		calibrated = true
		return true
	}
	type made struct {
		id int
		rp *bp.RangeProof
		V  *math.G1
		v  common.Vec
		r  *math.Zr
	}
	var all []made
	for _, h := range honest {
		v := vecOf(decs(h))
		r := rnd()
		V := pedersen(p.F, p.Gs, v, r)
		id := a.vec(v)
		var rp *bp.RangeProof
		pn := try(func() { rp = bp.ProveRange(p, V.Copy(), append(common.Vec{}, v...), r.Copy()) })
		if pn != nil || rp == nil {
			a.Emit(Event{"ev": "range", "made": id, "shown": id, "honest": true, "altered": false, "excused": false, "ok": false, "what": "prover", "panic": ascii.Replace(panicText(pn))})
			continue
		}
		if show(id, id, verdict{honest: true, what: "honest"}, rp, V) {
			all = append(all, made{id, rp, V, v, r})
		}
	}
	if s.Int("swaps", 0) > 0 && len(all) > 0 {
		m := all[0]
		for k := 0; k < n; k++ {
			v := append(common.Vec{}, m.v...)
			v[k] = plus(v[k], zrOf(big.NewInt(1)))
			show(m.id, a.vec(v), verdict{what: "entry plus one"}, m.rp, pedersen(p.F, p.Gs, v, m.r))
			v[k] = zrOf(new(big.Int).Add(residue(v[k]), two63))
			show(m.id, a.vec(v), verdict{what: "entry plus 2^63"}, m.rp, pedersen(p.F, p.Gs, v, m.r))
			v[k] = neg(m.v[k])
			if residue(v[k]).Sign() != 0 {
				show(m.id, a.vec(v), verdict{what: "entry negated"}, m.rp, pedersen(p.F, p.Gs, v, m.r))
			}
		}
		show(m.id, a.vec(m.v), verdict{what: "other blinding"}, m.rp, pedersen(p.F, p.Gs, m.v, plus(m.r, zrOf(big.NewInt(1)))))
		for _, o := range all[1:] {
			show(m.id, o.id, verdict{what: "other vector"}, m.rp, o.V)
		}
		show(m.id, a.vec(zeros(n)), verdict{what: "trivial commitment"}, m.rp, identity())
	}
	if s.Int("alter", 0) > 0 && len(all) > 0 {
		m := all[0]
		rp := deepCopy(m.rp).(*bp.RangeProof)
		a.alterAll(s, rp, nestedIPP.MatchString, func(v verdict) { show(m.id, m.id, v, rp, m.V) })
		if s.Int("part", 0) == 0 {
			show(m.id, m.id, verdict{honest: true, what: "undone"}, rp, m.V)
		}
	}
	// provers with entries out of range
	for _, l := range lies {
		if !calibrate() {
			return
		}
		// kind, how, entry, digit, value, filler
		vs := decs(repeat(l[5], n))
		x := decs(l[4:5])[0]
		e := int(decs(l[2:3])[0].Int64()) % n
		vs[e] = x
		r := residue(rnd())
		v := vecOf(vs)
		V := pedersen(p.F, p.Gs, v, zrOf(r))
		var rp *bp.RangeProof
		var err error
		if l[0] == "lib" {
			pn := try(func() { rp = bp.ProveRange(p, V, v, zrOf(r)) })
			if pn != nil || rp == nil {
				a.skip("unbuilt", "library prover")
				continue
			}
		} else {
			rp, err = forgeRange(p, V, append([]*big.Int{}, vs...), r, rangeLie{kind: l[0], how: l[1], entry: e, digit: int(decs(l[3:4])[0].Int64())}, a.rng)
			if err != nil {
				a.skip("unbuilt", "forged")
				continue
			}
		}
		id := a.vec(v)
		show(id, id, verdict{what: fmt.Sprint(l)}, rp, V)
	}
	if s.Int("observe", 0) > 0 {
		observed := func(late string, x *big.Int) {
			vs := decs(repeat("7", n))
			e := a.rng.Intn(n)
			lie := rangeLie{kind: "late", entry: e, digit: a.rng.Intn(63), late: late, oracle: &rangeOracle{p}}
			switch late {
			case "":
				lie.kind = "honest"
			case "eq":
				lie.kind, lie.how, lie.digit = "digit", "eq", 1+a.rng.Intn(62)
			}
			vs[e] = new(big.Int).Set(x)
			r := residue(rnd())
			V := pedersen(p.F, p.Gs, vecOf(vs), zrOf(r))
			var rp *bp.RangeProof
			var err error
			if pn := try(func() { rp, err = forgeRange(p, V, vs, r, lie, a.rng) }); pn != nil || err != nil {
				a.skip("unbuilt", "observed "+late)
				return
			}
			v := vecOf(vs)
			V = pedersen(p.F, p.Gs, v, zrOf(r))
			if late == "" {
				if bp.VerifyRange(p, rp, V) != nil {
					a.skip("uncalibrated", "observed range")
				}
				return
			}
			id := a.vec(v)
			show(id, id, verdict{what: "observed " + late}, rp, V)
		}
		observed("", big.NewInt(9))
		for i, late := range []string{"V", "W", "Q", "Qy", "R", "C1", "C2", "eq"} {
			observed(late, []*big.Int{two63, new(big.Int).Sub(order, big.NewInt(1))}[(i+a.rng.Intn(2))%2])
		}
	}
	for _, t := range s.attacks() {
		for i, x := range []*big.Int{two63, new(big.Int).Sub(order, big.NewInt(1))} {
			if i == a.rng.Intn(2) && s.Int("both", 0) == 0 {
				continue
			}
			vs := decs(repeat("7", n))
			e := t.Entry % n
			vs[e] = new(big.Int).Set(x)
			r := residue(rnd())
			V := pedersen(p.F, p.Gs, vecOf(vs), zrOf(r))
			lie := rangeLie{kind: "late", entry: e, digit: a.rng.Intn(63), drop: t.drop(), late: t.Late}
			if t.Late == "Q" && t.Check == "digits are bits" {
				lie.late = "Qy"
			}
			if t.Late == "A" || t.Late == "B" {
				lie.kind, lie.how, lie.digit = "ir", "late", t.Round
			}
			if l := t.ipa(); l != nil {
				lie = rangeLie{kind: []string{"digit", "mismatch"}[a.rng.Intn(2)], how: "ipa", entry: e, digit: a.rng.Intn(63), ipa: l[a.rng.Intn(len(l))]}
			}
			rp, err := forgeRange(p, V, vs, r, lie, a.rng)
			if err != nil {
				a.skip("unbuilt", "forged")
				continue
			}
			v := vecOf(vs)
			id := a.vec(v)
			show(id, id, verdict{what: t.String()}, rp, pedersen(p.F, p.Gs, v, zrOf(r)))
		}
	}
}

func repeat(x string, n int) []string {
	res := make([]string, n)
	for i := range res {
		res[i] = x
	}
	return res
}

// ---- sum --------------------------------------------------------------------

var sumParams = map[int]*sum.PP{}

func sumPP(n int) *sum.PP {
	if sumParams[n] == nil {
		sumParams[n] = sum.NewPublicParams(n)
	}
	return sumParams[n]
}

// entry draws a field element of some interesting size.
func (a *argRec) entry(style int) *math.Zr {
	switch style % 4 {
	case 0:
		return zrOf(big.NewInt(int64(a.rng.Intn(10))))
	case 1:
		return zrOf(new(big.Int).Rand(a.rng, two63))
	case 2:
		return rnd()
	}
	switch a.rng.Intn(5) {
	case 0:
		return zrOf(big.NewInt(0))
	case 1:
		return zrOf(big.NewInt(1))
	case 2:
		return zrOf(big.NewInt(-1))
	case 3:
		return zrOf(new(big.Int).Sub(two63, big.NewInt(1)))
	}
	return rnd()
}

// balanced draws a vector whose last entry is the sum of the others, plus off.
func (a *argRec) balanced(n, style int, off *math.Zr) common.Vec {
	v := make(common.Vec, n)
	acc := curve.NewZrFromInt(0)
	for i := 0; i < n-1; i++ {
		v[i] = a.entry(style)
		acc = plus(acc, v[i])
	}
	v[n-1] = plus(acc, off)
	return v
}

func runSum(rec *Recorder, s *Scenario) {
	a := newArgRec(rec, s)
	n, m, style := s.Int("n", 4), s.Int("m", 1), s.Int("style", 0)
	p := sumPP(n)
	zero := zrOf(big.NewInt(0))
	type item struct {
		id int
		v  common.Vec
		r  *math.Zr
		V  *math.G1
	}
	add := func(v common.Vec, r *math.Zr) item {
		V := pedersen(p.F, p.Gs, v, r)
		return item{a.vecIs(v, V.Equals(identity())), v, r, V}
	}
	ids := func(l []item) []int {
		res := []int{}
		for _, x := range l {
			res = append(res, x.id)
		}
		return res
	}
	commitments := func(l []item) (res common.G1v) {
		for _, x := range l {
			res = append(res, x.V.Copy())
		}
		return
	}
	vectors := func(l []item) (res []common.Vec, rs common.Vec) {
		for _, x := range l {
			res, rs = append(res, append(common.Vec{}, x.v...)), append(rs, x.r.Copy())
		}
		return
	}
	// single tells that the verifier for one commitment is used
	show := func(made, shown []item, single bool, v verdict, π *sum.Proof) bool {
		return a.verdict("sum", Event{"made": ids(made), "shown": ids(shown)}, v, func() bool {
			q := deepCopy(π).(*sum.Proof)
			if single {
				return q.Verify(p, &sum.Argument{V: shown[0].V.Copy()}) == nil
			}
			return q.VerifyAggregated(p, commitments(shown)) == nil
		})
	}
	var list []item
	for k := 0; k < m; k++ {
		list = append(list, add(a.balanced(n, style, zero), rnd()))
	}
	prove := func(l []item, single bool) (π *sum.Proof) {
		vs, rs := vectors(l)
		pn := try(func() {
			if single {
				_, π = sum.NewArgument(p, l[0].V.Copy(), vs[0], rs[0])
			} else {
				π = sum.NewAggregatedArgument(p, commitments(l), vs, rs)
			}
		})
		if pn != nil {
			return nil
		}
		return π
	}
	modes := []bool{false}
	if m == 1 {
		modes = []bool{true, false}
	}
	for _, single := range modes {
		π := prove(list, single)
		if π == nil {
			a.verdict("sum", Event{"made": ids(list), "shown": ids(list)}, verdict{honest: true, what: "prover"}, func() bool { return false })
			return
		}
		if !show(list, list, single, verdict{honest: true, what: "honest"}, π) {
			return
		}
		if s.Int("swaps", 0) > 0 {
			for k := 0; k < m; k++ {
				// one commitment replaced
				with := func(x item) []item {
					l := append([]item{}, list...)
					l[k] = x
					return l
				}
				show(list, with(add(a.balanced(n, style, zero), rnd())), single, verdict{what: "other vector"}, π)
				show(list, with(add(list[k].v, plus(list[k].r, zrOf(big.NewInt(1))))), single, verdict{what: "other blinding"}, π)
				for _, i := range []int{0, n - 2, n - 1, a.rng.Intn(n)} {
					v := append(common.Vec{}, list[k].v...)
					v[i] = plus(v[i], zrOf(big.NewInt(1)))
					show(list, with(add(v, list[k].r)), single, verdict{what: "entry changed"}, π)
					// the same sum, differently spread
					if i < n-1 {
						w := append(common.Vec{}, v...)
						w[n-1] = plus(w[n-1], zrOf(big.NewInt(1)))
						show(list, with(add(w, list[k].r)), single, verdict{what: "entry and sum changed"}, π)
					}
				}
				if !single {
					show(list, append(append([]item{}, list[:k]...), list[k+1:]...), single, verdict{what: "missing"}, π)
					show(list, append(append(append([]item{}, list[:k]...), list[k]), list[k:]...), single, verdict{what: "repeated"}, π)
				}
			}
			if !single {
				show(list, append(append([]item{}, list...), add(zeros(n), zero)), single, verdict{what: "extra trivial"}, π)
				show(list, append(append([]item{}, list...), add(a.balanced(n, style, zero), rnd())), single, verdict{what: "extra"}, π)
				show(list, append(append([]item{}, list...), add(a.balanced(n, style, rnd()), rnd())), single, verdict{what: "extra false"}, π)
				for k := 0; k+1 < m; k++ {
					l := append([]item{}, list...)
					l[k], l[k+1] = l[k+1], l[k]
					show(list, l, single, verdict{what: "reordered"}, π)
				}
			}
		}
		if s.Int("alter", 0) > 0 {
			q := deepCopy(π).(*sum.Proof)
			a.alterAll(s, q, nestedIPP.MatchString, func(v verdict) { show(list, list, single, v, q) })
		}
	}
	// errors of two vectors, which cancel if their weights are the same
	for _, ab := range s.pairs("coincide") {
		if ab[1] >= m {
			continue
		}
		l := append([]item{}, list...)
		off := []*math.Zr{zrOf(big.NewInt(1)), rnd()}[a.rng.Intn(2)]
		entry := a.rng.Intn(n)
		for i, at := range ab {
			if i == 1 {
				off = minus(zero, off)
			}
			v := append(common.Vec{}, list[at].v...)
			v[entry] = plus(v[entry], off)
			l[at] = add(v, list[at].r)
		}
		if π := prove(l, false); π != nil {
			show(l, l, false, verdict{what: "coincide"}, π)
		} else {
			a.skip("unbuilt", "coincide")
		}
	}
	// errors that the weights always miss
	if s.Int("hidden", 0) > 0 && m > 1 {
		e, err := hiddenErrors(m, func() (common.Vec, error) {
			var l []item
			for range list {
				l = append(l, item{v: a.balanced(n, style, zero), r: rnd()})
				l[len(l)-1].V = pedersen(p.F, p.Gs, l[len(l)-1].v, l[len(l)-1].r)
			}
			vs, _ := vectors(l)
			return observedWeights(p, commitments(l), vs)
		})
		if err != nil {
			a.skip("unbuilt", "hidden errors")
		} else if e == nil {
			a.skip("bound", "hidden errors")
		} else {
			l := append([]item{}, list...)
			for k := range l {
				v := append(common.Vec{}, list[k].v...)
				v[0] = plus(v[0], e[k])
				l[k] = add(v, list[k].r)
			}
			if π := prove(l, false); π != nil {
				show(l, l, false, verdict{what: "hidden errors"}, π)
			}
		}
	}
	// challenges that are read off the prover's answers
	if s.Int("observe", 0) > 0 {
		off := []*math.Zr{zrOf(big.NewInt(1)), rnd()}[a.rng.Intn(2)]
		spoil := func(v common.Vec) common.Vec {
			v = append(common.Vec{}, v...)
			i := a.rng.Intn(n)
			v[i] = plus(v[i], off)
			return v
		}
		if m == 1 {
			_, _, π, err := observedSum(p, list[0].v, list[0].r, "")
			ok := false
			try(func() { ok = err == nil && π.Verify(p, &sum.Argument{V: list[0].V.Copy()}) == nil })
			if !ok {
				a.skip("uncalibrated", "observed sum")
			}
			for _, late := range []string{"c", "V", "W"} {
				V, v, π, err := observedSum(p, spoil(list[0].v), list[0].r, late)
				if err != nil {
					a.skip("unbuilt", "observed "+late)
					continue
				}
				x := item{a.vec(v), v, list[0].r, V}
				show([]item{x}, []item{x}, true, verdict{what: "observed " + late}, π)
			}
		}
		// j is chosen when the weights are known
		for j := 0; j < m && m > 1; j++ {
			i := (j + 1 + a.rng.Intn(m-1)) % m
			l := append([]item{}, list...)
			l[i] = add(spoil(list[i].v), list[i].r)
			vs, _ := vectors(l)
			weights, err := observedWeights(p, commitments(l), vs)
			if err != nil {
				a.skip("unbuilt", "observed weights")
				break
			}
			u := append(common.Vec{}, list[j].v...)
			u[0] = minus(u[0], dot(l[i].v, sumMask(n)).Mul(weights[i]).Mul(inv(weights[j])))
			l[j] = add(u, list[j].r)
			if π := prove(l, false); π != nil {
				show(l, l, false, verdict{what: "observed weights"}, π)
			}
		}
	}
	// false witnesses
	if s.Int("lies", 0) > 0 {
		calibrated := false
		if V, v, π, err := adaptSum(p, list[0].v, list[0].r, nil, "none"); err == nil {
			_ = v
			calibrated = π.Verify(p, &sum.Argument{V: V}) == nil
		}
		if !calibrated {
			a.skip("uncalibrated", "sum prover")
		}
		for k := 0; k < m; k++ {
			l := append([]item{}, list...)
			v := append(common.Vec{}, list[k].v...)
			i := a.rng.Intn(n)
			off := []*math.Zr{zrOf(big.NewInt(1)), zrOf(big.NewInt(-1)), rnd()}[a.rng.Intn(3)]
			v[i] = plus(v[i], off)
			l[k] = add(v, list[k].r)
			for _, single := range modes {
				if π := prove(l, single); π != nil {
					show(l, l, single, verdict{what: "false"}, π)
				} else {
					a.skip("unbuilt", "library prover")
				}
			}
			if calibrated && m == 1 {
				for _, how := range []string{"claim"} {
					if π, err := forgeSum(p, l[0].V, bigs(v), residue(list[0].r), how); err == nil {
						show(l, l, true, verdict{what: how}, π)
					}
				}
			}
			// errors that cancel each other in simple combinations
			if m > 1 {
				j := (k + 1) % m
				for _, f := range []*math.Zr{zrOf(big.NewInt(-1)), zrOf(big.NewInt(1)), zrOf(big.NewInt(-2))} {
					l2 := append([]item{}, l...)
					w := append(common.Vec{}, list[j].v...)
					w[i] = plus(w[i], off.Mul(f))
					l2[j] = add(w, list[j].r)
					if π := prove(l2, false); π != nil {
						show(l2, l2, false, verdict{what: "two cancel"}, π)
					}
				}
			}
		}
		for _, t := range s.attacks() {
			if l := t.ipa(); l != nil {
				v := append(common.Vec{}, list[0].v...)
				v[t.Entry%n] = plus(v[t.Entry%n], rnd())
				x := add(v, list[0].r)
				for _, lie := range l {
					if 1<<uint(lie.round) > n {
						continue
					}
					if π, err := forgeSum(p, x.V, bigs(v), residue(list[0].r), "claim", lie); err == nil {
						show([]item{x}, []item{x}, true, verdict{what: fmt.Sprintf("%s round %d", t, lie.round)}, π)
					}
				}
				continue
			}
			if m == 1 || t.Late[0] != 'V' {
				off := rnd()
				v := append(common.Vec{}, list[0].v...)
				v[t.Entry%n] = plus(v[t.Entry%n], off)
				if m == 1 {
					V, v, π, err := adaptSum(p, v, list[0].r, t.drop(), t.Late)
					if err != nil {
						a.skip("unbuilt", "forged")
						continue
					}
					x := item{a.vec(v), v, list[0].r, V}
					for _, single := range modes {
						show([]item{x}, []item{x}, single, verdict{what: t.String()}, π)
					}
				} else {
					// the combination of all is what the inner argument is about
					l := append([]item{}, list...)
					l[0] = add(v, list[0].r)
					tau := digestOf(commitments(l).Bytes())
					agg, r := zeros(n), zero
					w := zrOf(big.NewInt(1))
					for _, x := range l {
						for i := range agg {
							agg[i] = plus(agg[i], x.v[i].Mul(w))
						}
						r = plus(r, x.r.Mul(w))
						w = w.Mul(tau)
					}
					_, _, π, err := adaptSum(p, agg, r, t.drop(), t.Late)
					if err != nil {
						a.skip("unbuilt", "forged")
						continue
					}
					show(l, l, false, verdict{what: t.String()}, π)
				}
				continue
			}
			// V_j is chosen when the weights are known
			j := int(t.Late[1]-'1') % m
			i := (j + 1) % m
			v := append(common.Vec{}, list[i].v...)
			off := rnd()
			v[t.Entry%n] = plus(v[t.Entry%n], off)
			l := append([]item{}, list...)
			l[i] = add(v, list[i].r)
			var hashed common.G1v
			for k := range l {
				if !t.drop()[fmt.Sprintf("tau/V%d", k+1)] {
					hashed = append(hashed, l[k].V)
				}
			}
			tau := digestOf(hashed.Bytes())
			weights := common.PowerSeries(m, tau)
			b := sumMask(n)
			u := append(common.Vec{}, list[j].v...)
			u[0] = minus(u[0], dot(v, b).Mul(weights[i]).Mul(inv(weights[j])))
			l[j] = add(u, list[j].r)
			agg, r := zeros(n), zero
			for k, x := range l {
				for i := range agg {
					agg[i] = plus(agg[i], x.v[i].Mul(weights[k]))
				}
				r = plus(r, x.r.Mul(weights[k]))
			}
			var π *sum.Proof
			if pn := try(func() { _, π = sum.NewArgument(p, pedersen(p.F, p.Gs, agg, r), agg, r) }); pn != nil {
				a.skip("unbuilt", "forged")
				continue
			}
			show(l, l, false, verdict{what: t.String()}, π)
		}
	}
}

// ---- equality -----------------------------------------------------------------

var poeParams = map[[2]int]*poe.PP{}

func poePP(n, m int) *poe.PP {
	k := [2]int{n, m}
	if poeParams[k] == nil {
		poeParams[k] = poe.NewPublicParams(n, m)
	}
	return poeParams[k]
}

type pair struct {
	V int `json:"v"`
	I int `json:"i"`
	W int `json:"w"`
	J int `json:"j"`
}

// positions lists the positions other than one; of many, those that are the same
// if some bit is left out.
func positions(n, at int) (res []int) {
	for i := 0; i < n; i++ {
		d := i ^ at
		if d != 0 && (n <= 40 || d&(d-1) == 0) {
			res = append(res, i)
		}
	}
	return
}

func runEqual(rec *Recorder, s *Scenario) {
	a := newArgRec(rec, s)
	n, m, style := s.Int("n", 4), s.Int("m", 1), s.Int("style", 0)
	batch := s.Int("batch", 1) > 0
	p := poePP(n, m)
	type vecItem struct {
		id int
		v  common.Vec
		V  *math.G1
	}
	commit := func(v common.Vec) *math.G1 {
		acc := identity()
		for i := range v {
			acc.Add(p.PP.G1s[i].Mul(v[i]))
		}
		return acc
	}
	add := func(v common.Vec) vecItem { return vecItem{a.vec(v), v, commit(v)} }
	fresh := func() vecItem {
		v := make(common.Vec, n)
		for i := range v {
			v[i] = a.entry(style)
		}
		v[n-1] = rnd()
		return add(v)
	}
	type statement struct {
		v, w []vecItem
		I, J []int
	}
	pairs := func(x statement) []pair {
		res := []pair{}
		for k := range x.v {
			res = append(res, pair{x.v[k].id, x.I[k], x.w[k].id, x.J[k]})
		}
		return res
	}
	clone := func(x statement) statement {
		return statement{append([]vecItem{}, x.v...), append([]vecItem{}, x.w...), append([]int{}, x.I...), append([]int{}, x.J...)}
	}
	g1 := func(l []vecItem) (res common.G1v) {
		for _, x := range l {
			res = append(res, x.V.Copy())
		}
		return
	}
	vecs := func(l []vecItem) (res []common.Vec) {
		for _, x := range l {
			res = append(res, append(common.Vec{}, x.v...))
		}
		return
	}
	eqs := func(x statement) *poe.Equalities {
		return &poe.Equalities{RO: poe.RO, PP: p, V: g1(x.v), W: g1(x.w), I: append([]int{}, x.I...), J: append([]int{}, x.J...)}
	}
	eq := func(x statement) *poe.Equality {
		return &poe.Equality{RO: poe.RO, PP: p, V: x.v[0].V.Copy(), W: x.w[0].V.Copy(), I: x.I[0], J: x.J[0]}
	}
	show := func(made, shown statement, v verdict, proof interface{}) bool {
		return a.verdict("equal", Event{"made": pairs(made), "shown": pairs(shown)}, v, func() bool {
			switch π := deepCopy(proof).(type) {
			case *poe.AggregatedProof:
				return eqs(shown).Verify(π) == nil
			case *poe.Proof:
				return eq(shown).Verify(π) == nil
			}
			return false
		})
	}
	// a true statement; its vectors may be shared between pairs
	var st statement
	for k := 0; k < m; k++ {
		i, j := a.rng.Intn(n-1), a.rng.Intn(n-1)
		v := fresh()
		if k > 0 && a.rng.Intn(3) == 0 {
			v = st.w[k-1] // chains, as in a tree
		}
		wv := make(common.Vec, n)
		for x := range wv {
			wv[x] = a.entry(style)
		}
		wv[n-1] = rnd()
		wv[j] = v.v[i].Copy()
		st.v, st.w, st.I, st.J = append(st.v, v), append(st.w, add(wv)), append(st.I, i), append(st.J, j)
	}
	prove := func(x statement) (π interface{}) {
		pn := try(func() {
			if batch {
				π = eqs(x).Prove(vecs(x.v), vecs(x.w))
			} else {
				π = eq(x).Prove(append(common.Vec{}, x.v[0].v...), append(common.Vec{}, x.w[0].v...))
			}
		})
		if pn != nil {
			return nil
		}
		return π
	}
	π := prove(st)
	if π == nil {
		a.verdict("equal", Event{"made": pairs(st), "shown": pairs(st)}, verdict{honest: true, what: "prover"}, func() bool { return false })
		return
	}
	if !show(st, st, verdict{honest: true, what: "honest"}, π) {
		return
	}
	if s.Int("swaps", 0) > 0 {
		for k := 0; k < m; k++ {
			x := clone(st)
			x.v[k] = fresh()
			show(st, x, verdict{what: "other v"}, π)
			x = clone(st)
			x.w[k] = fresh()
			show(st, x, verdict{what: "other w"}, π)
			for _, side := range []int{0, 1} {
				// the same vector but for one entry, the paired one or another
				at := []int{st.I[k], st.J[k]}[side]
				for _, i := range []int{at, (at + 1) % n, n - 1} {
					x = clone(st)
					l := [][]vecItem{x.v, x.w}[side]
					v := append(common.Vec{}, l[k].v...)
					v[i] = plus(v[i], zrOf(big.NewInt(1)))
					l[k] = add(v)
					show(st, x, verdict{what: "entry changed"}, π)
				}
				for _, i := range positions(n, at) {
					x = clone(st)
					if side == 0 {
						x.I[k] = i
					} else {
						x.J[k] = i
					}
					show(st, x, verdict{what: "position"}, π)
				}
			}
			x = clone(st)
			x.v[k], x.w[k] = x.w[k], x.v[k]
			show(st, x, verdict{what: "sides exchanged"}, π)
			x.I[k], x.J[k] = x.J[k], x.I[k]
			show(st, x, verdict{what: "sides and positions exchanged"}, π)
			if k+1 < m {
				x = clone(st)
				x.v[k], x.v[k+1] = x.v[k+1], x.v[k]
				show(st, x, verdict{what: "two v exchanged"}, π)
				x = clone(st)
				x.v[k], x.v[k+1] = x.v[k+1], x.v[k]
				x.w[k], x.w[k+1] = x.w[k+1], x.w[k]
				x.I[k], x.I[k+1] = x.I[k+1], x.I[k]
				x.J[k], x.J[k+1] = x.J[k+1], x.J[k]
				show(st, x, verdict{what: "two pairs exchanged"}, π)
			}
		}
	}
	if s.Int("alter", 0) > 0 {
		q := deepCopy(π)
		a.alterAll(s, q, nestedIPP.MatchString, func(v verdict) { show(st, st, v, q) })
	}
	if s.Int("lies", 0) == 0 {
		return
	}
	// errors at two of the 2m weighted equations, which cancel if their weights
	// are the same
	for _, ab := range s.pairs("coincide") {
		if !batch || ab[1] >= 2*m {
			continue
		}
		x := clone(st)
		values := make(common.Vec, m)
		for k := range values {
			values[k] = st.v[k].v[st.I[k]]
		}
		off := []*math.Zr{zrOf(big.NewInt(1)), rnd()}[a.rng.Intn(2)]
		for i, at := range ab {
			if i == 1 {
				off = minus(zrOf(big.NewInt(0)), off)
			}
			l, pos := x.v, x.I
			if at%2 == 1 {
				l, pos = x.w, x.J
			}
			v := append(common.Vec{}, l[at/2].v...)
			v[pos[at/2]] = plus(v[pos[at/2]], off)
			l[at/2] = add(v)
		}
		if q, err := forgeBatch(eqs(x), vecs(x.v), vecs(x.w), values, "honest", nil, nil); err == nil {
			show(x, x, verdict{what: "coincide"}, q)
		} else {
			a.skip("unbuilt", "coincide")
		}
	}
	// errors that the weights always miss
	if batch && s.Int("hidden", 0) > 0 {
		e, err := hiddenErrors(2*m, func() (common.Vec, error) {
			x := clone(st)
			for k := range x.v {
				for _, y := range []*vecItem{&x.v[k], &x.w[k]} {
					*y = vecItem{v: common.RandVec(n)}
					y.V = commit(y.v)
				}
			}
			var ts common.Vec
			q := eqs(x)
			q.RO = func(gs common.G1v, integers []int, digest []byte, n int) common.Vec {
				res := poe.RO(gs, integers, digest, n)
				if n == 2*m {
					ts = res
				}
				return res
			}
			try(func() { q.Prove(vecs(x.v), vecs(x.w)) })
			if ts == nil {
				return nil, fmt.Errorf("no weights")
			}
			return ts, nil
		})
		if err != nil {
			a.skip("unbuilt", "hidden errors")
		} else if e == nil {
			a.skip("bound", "hidden errors")
		} else {
			x := clone(st)
			values := make(common.Vec, m)
			for k := range values {
				values[k] = st.v[k].v[st.I[k]]
				v, w := append(common.Vec{}, st.v[k].v...), append(common.Vec{}, st.w[k].v...)
				v[st.I[k]], w[st.J[k]] = plus(v[st.I[k]], e[2*k]), plus(w[st.J[k]], e[2*k+1])
				x.v[k], x.w[k] = add(v), add(w)
			}
			if q, err := forgeBatch(eqs(x), vecs(x.v), vecs(x.w), values, "honest", nil, nil); err == nil {
				show(x, x, verdict{what: "hidden errors"}, q)
			}
		}
	}
	if s.Int("lies", 0) < 2 {
		return
	}
	// what the verifier hashes
	plan := transcript{}
	calls := 0
	var x0 *math.Zr
	spy := func(vals map[string]common.G1v, names []string) func(common.G1v, []int, []byte, int) common.Vec {
		return func(gs common.G1v, integers []int, digest []byte, n int) common.Vec {
			res := poe.RO(gs, integers, digest, n)
			calls++
			heeded := func(i int) bool {
				l := append(common.G1v{}, gs...)
				l[i] = curve.GenG1.Mul(rnd())
				for k, x := range poe.RO(l, integers, digest, n) {
					if x.Equals(res[k]) {
						return false
					}
				}
				return true
			}
			if calls == 1 {
				plan.record("x", gs, heeded, names, vals)
				x0 = res[0]
			} else {
				if g := vals["Va"]; x0 != nil && !batch {
					vals["Vax"], vals["Wax"] = common.G1v{g[0].Mul(x0)}, common.G1v{vals["Wa"][0].Mul(x0)}
				}
				plan.record("ts", gs, heeded, names, vals)
			}
			return res
		}
	}
	try(func() {
		switch q := deepCopy(π).(type) {
		case *poe.AggregatedProof:
			e := eqs(st)
			e.RO = spy(map[string]common.G1v{"V": e.V, "W": e.W, "Va": q.Vaggr, "Wa": q.Waggr, "U": {q.U}, "PV": {q.V}}, []string{"V", "W", "Va", "Wa", "U", "PV"})
			e.Verify(q)
		case *poe.Proof:
			e := eq(st)
			e.RO = spy(map[string]common.G1v{"V": {e.V}, "W": {e.W}, "Va": {q.V}, "Wa": {q.W}, "C": {curve.GenG1.Mul(q.C)}}, []string{"V", "W", "Va", "Wa", "Vax", "Wax", "C"})
			e.Verify(q)
		}
	})
	adapt := func(bad int, x statement, late, weighting string, same int) (statement, interface{}, error) {
		vs, ws := vecs(x.v), vecs(x.w)
		var proof interface{}
		if batch {
			_, v2, w2, q, err := adaptEqualities(p, vs, ws, x.I, x.J, bad, plan, late, weighting)
			if err != nil {
				return x, nil, err
			}
			vs, ws, proof = v2, w2, q
		} else {
			_, v2, w2, q := adaptEquality(p, vs[0], ws[0], x.I[0], x.J[0], plan, late, same)
			vs, ws, proof = []common.Vec{v2}, []common.Vec{w2}, q
		}
		y := clone(x)
		for k := range vs {
			y.v[k], y.w[k] = add(vs[k]), add(ws[k])
		}
		return y, proof, nil
	}
	y, q, err := adapt(0, st, "", "", 0)
	ok := false
	if err == nil {
		try(func() {
			switch t := q.(type) {
			case *poe.AggregatedProof:
				ok = eqs(y).Verify(t) == nil
			case *poe.Proof:
				ok = eq(y).Verify(t) == nil
			}
		})
	}
	if !ok {
		a.skip("uncalibrated", "equality prover")
	}
	differ := func(k int, off *math.Zr) statement {
		x := clone(st)
		v := append(common.Vec{}, x.w[k].v...)
		v[x.J[k]] = plus(v[x.J[k]], off)
		x.w[k] = add(v)
		return x
	}
	for k := 0; k < m; k++ {
		off := []*math.Zr{zrOf(big.NewInt(1)), zrOf(big.NewInt(-1)), rnd()}[a.rng.Intn(3)]
		x := differ(k, off)
		if q := prove(x); q != nil {
			show(x, x, verdict{what: "false"}, q)
		} else {
			a.skip("unbuilt", "library prover")
		}
		if batch {
			for _, how := range []string{"w", "claim"} {
				if q, err := forgeEqualities(eqs(x), vecs(x.v), vecs(x.w), how, nil, nil); err == nil {
					show(x, x, verdict{what: how}, q)
				}
			}
			// the prover's positions are not the verifier's
			I, J := append([]int{}, x.I...), append([]int{}, x.J...)
			I[k] = (I[k] + 1) % (n - 1)
			if q, err := forgeEqualities(eqs(x), vecs(x.v), vecs(x.w), "honest", I, x.J); err == nil {
				show(x, x, verdict{what: "I"}, q)
			}
			J[k] = (J[k] + 1) % (n - 1)
			if q, err := forgeEqualities(eqs(x), vecs(x.v), vecs(x.w), "honest", x.I, J); err == nil {
				show(x, x, verdict{what: "J"}, q)
			}
			for name := range weightings {
				if name == "" {
					continue
				}
				y := x
				if (name == "first" || name == "first1") && m > 1 {
					// two differences that cancel
					j := (k + 1) % m
					v := append(common.Vec{}, x.w[j].v...)
					v[x.J[j]] = minus(v[x.J[j]], off)
					y = clone(x)
					y.w[j] = add(v)
				}
				if z, q, err := adapt(k, y, "", name, 0); err == nil {
					show(z, z, verdict{what: "weights " + name}, q)
				}
			}
		} else {
			for same := 0; same < 2; same++ {
				if z, q, err := adapt(k, x, "same", "", same); err == nil {
					show(z, z, verdict{what: "same weights"}, q)
				}
			}
		}
		// components the verifier forgets
		for _, t := range s.attacks() {
			if l := t.ipa(); l != nil {
				for _, lie := range l {
					if !batch || 1<<uint(lie.round) > m {
						continue
					}
					if q, err := forgeEqualities(eqs(x), vecs(x.v), vecs(x.w), "claim", nil, nil, lie); err == nil {
						show(x, x, verdict{what: fmt.Sprintf("%s round %d", t, lie.round)}, q)
					}
				}
				continue
			}
			forgets := true
			for _, d := range t.Dropped {
				at := k
				if d[1] == "U" || d[1] == "PV" || d[1] == "C" {
					at = 0
				}
				forgets = forgets && !plan.has(d[0], d[1], at) && !plan.has(d[0], d[1]+"x", at)
			}
			late := t.Late
			if t.Check == "weights" {
				late += "ts"
			}
			if !forgets {
				a.skip("bound", t.String())
			} else if z, q, err := adapt(k, x, late, "", 0); err == nil {
				show(z, z, verdict{what: t.String()}, q)
			}
		}
	}
}

// ---- inner product ------------------------------------------------------------

var ipaParams = map[int]*bp.PP{}

func ipaPP(n int) *bp.PP {
	if ipaParams[n] == nil {
		ipaParams[n] = bp.NewPublicParams(n)
	}
	return ipaParams[n]
}

func runIPA(rec *Recorder, s *Scenario) {
	a := newArgRec(rec, s)
	n := s.Int("n", 4)
	small := s.Int("small", 0) > 0
	p := ipaPP(n)
	draw := func() common.Vec {
		v := make(common.Vec, n)
		for i := range v {
			if small {
				v[i] = zrOf(big.NewInt(int64(a.rng.Intn(1000) * a.rng.Intn(2))))
			} else {
				v[i] = a.entry(2 + a.rng.Intn(2))
			}
		}
		return v
	}
	ints := func(v common.Vec) []int {
		res := []int{}
		if small {
			for _, x := range v {
				res = append(res, int(residue(x).Int64()))
			}
		}
		return res
	}
	trueProduct := func(x, y common.Vec) *big.Int {
		acc := new(big.Int)
		for i := range x {
			acc.Add(acc, new(big.Int).Mul(residue(x[i]), residue(y[i])))
		}
		return acc.Mod(acc, order)
	}
	// vectors whose commitment is shown, the product claimed
	show := func(x, y common.Vec, c *big.Int, shifted, same, isSmall bool, v verdict, π *bp.InnerProductProof) bool {
		e := Event{"c": limbs(new(big.Int).Mod(c, order)), "product": limbs(trueProduct(x, y)), "shifted": shifted, "same": same, "small": small && isSmall,
			"a": []int{}, "b": []int{}}
		if small && isSmall {
			e["a"], e["b"] = ints(x), ints(y)
		}
		return a.verdict("ipa", e, v, func() bool { return deepCopy(π).(*bp.InnerProductProof).Verify(p) == nil })
	}
	x, y := draw(), draw()
	var π *bp.InnerProductProof
	if pn := try(func() {
		π = bp.NewInnerProdArgument(p, append(common.Vec{}, x...), append(common.Vec{}, y...)).Prove()
	}); pn != nil || π == nil {
		a.verdict("ipa", Event{"c": limbs(trueProduct(x, y)), "product": limbs(trueProduct(x, y)), "shifted": false, "same": true, "small": false, "a": []int{}, "b": []int{}},
			verdict{honest: true, what: "prover"}, func() bool { return false })
		return
	}
	P := msm(p.G, x)
	P.Add(msm(p.H, y))
	if !show(x, y, residue(π.C), !P.Equals(π.P), true, true, verdict{honest: true, what: "honest"}, π) {
		return
	}
	with := func(P *math.G1, C *math.Zr) *bp.InnerProductProof {
		q := deepCopy(π).(*bp.InnerProductProof)
		q.P, q.C = P, C
		return q
	}
	if s.Int("swaps", 0) > 0 {
		for _, d := range []*math.Zr{zrOf(big.NewInt(1)), zrOf(big.NewInt(-1)), rnd()} {
			show(x, y, residue(plus(π.C, d)), false, false, true, verdict{what: "other product"}, with(P, plus(π.C, d)))
			// commitment and product shifted together, in ways that are
			// computable from the parameters
			for _, g := range []*math.G1{p.U, p.G[0], p.H[0], p.G[n-1], p.H[n-1]} {
				Q := P.Copy()
				Q.Sub(g.Mul(d))
				show(x, y, residue(plus(π.C, d)), true, false, true, verdict{what: "both shifted"}, with(Q, plus(π.C, d)))
				show(x, y, residue(π.C), true, false, true, verdict{what: "shifted"}, with(Q, π.C))
			}
			// as if the challenge were of the parameters alone
			for _, ch := range []*math.Zr{common.FieldElementFromBytes(sha(p.Digest)), digestOf(P.Bytes(), p.Digest), digestOf(π.C.Bytes(), p.Digest), digestOf(P.Bytes(), π.C.Bytes(), p.Digest)} {
				Q := P.Copy()
				Q.Sub(p.U.Mul(ch.Mul(d)))
				show(x, y, residue(plus(π.C, d)), true, false, true, verdict{what: "both shifted by a challenge"}, with(Q, plus(π.C, d)))
			}
		}
		if c := residue(π.C); c.Sign() != 0 {
			show(x, y, residue(neg(π.C)), false, false, true, verdict{what: "negated product"}, with(P, neg(π.C)))
		}
		for _, k := range []int{0, n - 1, a.rng.Intn(n)} {
			x2 := append(common.Vec{}, x...)
			x2[k] = plus(x2[k], zrOf(big.NewInt(1)))
			Q := P.Copy()
			Q.Add(p.G[k])
			c := zrOf(trueProduct(x2, y))
			show(x2, y, residue(c), false, false, true, verdict{what: "other vectors"}, with(Q, c))
			show(x2, y, residue(π.C), false, false, true, verdict{what: "other vectors, same product"}, with(Q, π.C))
		}
		// another proof's parts
		x2, y2 := draw(), draw()
		try(func() {
			o := bp.NewInnerProdArgument(p, x2, y2).Prove()
			show(x2, y2, residue(o.C), false, false, true, verdict{what: "other statement"}, with(o.P, o.C))
		})
	}
	if s.Int("alter", 0) > 0 {
		q := deepCopy(π).(*bp.InnerProductProof)
		a.alterAll(s, q, func(path string) bool { return false }, func(v verdict) { show(x, y, residue(q.C), !q.P.Equals(P), true, true, v, q) })
	}
	if s.Int("observe", 0) > 0 && n > 1 {
		for round := 1; round <= 2 && (round == 1 || n == 4); round++ {
			_, _, _, _, q, err := observedIPA(p, "", round)
			ok := false
			try(func() { ok = err == nil && q.Verify(p) == nil })
			if !ok {
				a.skip("uncalibrated", "observed inner product")
			}
			for _, late := range []string{"P", "L", "R"} {
				c, va, vb, shifted, q, err := observedIPA(p, late, round)
				if err != nil {
					a.skip("unbuilt", "observed "+late)
					continue
				}
				show(va, vb, residue(c), shifted, true, false, verdict{what: fmt.Sprintf("observed %s round %d", late, round)}, q)
			}
		}
	}
	if s.Int("lies", 0) > 0 {
		// a false product
		false_ := plus(π.C, []*math.Zr{zrOf(big.NewInt(1)), rnd()}[a.rng.Intn(2)])
		try(func() {
			ipa := bp.NewInnerProdArgument(p, append(common.Vec{}, x...), append(common.Vec{}, y...))
			ipa.C = false_
			show(x, y, residue(false_), false, true, true, verdict{what: "false product"}, ipa.Prove())
		})
		_, c, _, _, _, q, err := adaptIPA(p, x, y, π.C, nil, "", 0)
		ok := false
		try(func() { ok = err == nil && residue(c).Cmp(residue(π.C)) == 0 && q.Verify(p) == nil })
		if !ok {
			a.skip("uncalibrated", "inner product prover")
		}
		for _, t := range s.attacks() {
			rounds := []int{0}
			late := t.Late
			if late[0] == 'L' || late[0] == 'R' {
				rounds = nil
				late = t.Late[:1]
				for r, k := 1, n; k > 1; r, k = r+1, k/2 {
					rounds = append(rounds, r)
				}
			}
			for _, round := range rounds {
				drop := t.drop()
				if len(t.ipa()) > 0 {
					drop = t.ipa()[0].drop
				}
				P, c, va, vb, shifted, q, err := adaptIPA(p, x, y, false_, drop, late, round)
				if err != nil {
					a.skip("unbuilt", "forged")
					continue
				}
				_ = P
				show(va, vb, residue(c), shifted, true, false, verdict{what: fmt.Sprintf("%s round %d", t, round)}, q)
			}
		}
	}
}

// ---- reduction ------------------------------------------------------------------

func runReduce(rec *Recorder, s *Scenario) {
	a := newArgRec(rec, s)
	n, style := s.Int("n", 4), s.Int("style", 2)
	p := &bp.PP{G: rangePP(2).Gs, U: common.RandGenVec(1, "verif U")[0]}
	p.G = common.RandGenVec(n, "verif G")
	p.RecomputeDigest()
	show := func(v common.Vec, start, same bool, vd verdict, V *math.G1, Δ [][3]*math.G1, xs common.Vec, u *math.Zr) bool {
		var got common.Vec
		var final *math.Zr
		e := Event{"start": start, "same": same, "final": zrHex(u), "folded": "", "agree": true}
		ok := a.verdictLater("reduce", e, vd, func() bool {
			g, f, err := bp.IterativeVerify(p, V.Copy(), *(deepCopy(&Δ).(*[][3]*math.G1)), u.Copy())
			if err != nil {
				return false
			}
			got, final = g, f
			return true
		}, func() {
			if got == nil {
				got = xs
			}
			acc := new(big.Int)
			if len(got) > 0 && 1<<uint(len(got)) == n {
				for i, w := range foldWeights(got, n, false) {
					acc.Add(acc, new(big.Int).Mul(residue(w), residue(v[i])))
				}
			}
			e["folded"] = acc.Mod(acc, order).Text(16)
			if final != nil {
				e["final"] = zrHex(final)
				agree := len(got) == len(xs) && zrHex(final) == zrHex(u)
				for i := range got {
					agree = agree && i < len(xs) && zrHex(got[i]) == zrHex(xs[i])
				}
				e["agree"] = agree
			}
		})
		return ok
	}
	v := make(common.Vec, n)
	for i := range v {
		v[i] = a.entry(style)
	}
	V := msm(p.G, v)
	var Δ [][3]*math.G1
	var xs common.Vec
	var u *math.Zr
	if pn := try(func() { Δ, xs, u = bp.IterativeReduce(p, append(common.Vec{}, v...), V.Copy()) }); pn != nil || u == nil {
		a.verdict("reduce", Event{"start": true, "same": true, "final": "0", "folded": "0", "agree": true}, verdict{honest: true, what: "prover"}, func() bool { return false })
		return
	}
	if !show(v, true, true, verdict{honest: true, what: "honest"}, V, Δ, xs, u) {
		return
	}
	if s.Int("swaps", 0) > 0 {
		for i := 0; i < n; i++ {
			v2 := append(common.Vec{}, v...)
			v2[i] = plus(v2[i], zrOf(big.NewInt(1)))
			show(v2, true, false, verdict{what: "other start"}, msm(p.G, v2), Δ, xs, u)
		}
		W := V.Copy()
		W.Add(p.U)
		show(v, false, false, verdict{what: "start outside"}, W, Δ, xs, u)
		show(v, true, false, verdict{what: "final"}, V, Δ, xs, plus(u, zrOf(big.NewInt(1))))
		if residue(u).Sign() != 0 {
			show(v, true, false, verdict{what: "final negated"}, V, Δ, xs, neg(u))
		}
		// rounds exchanged
		for i := 0; i+1 < len(Δ); i++ {
			D := append([][3]*math.G1{}, Δ...)
			D[i], D[i+1] = D[i+1], D[i]
			show(v, true, false, verdict{what: "rounds exchanged"}, V, D, xs, u)
			D = append([][3]*math.G1{}, Δ...)
			D[i][0], D[i][1] = D[i][1], D[i][0]
			if !D[i][0].Equals(D[i][1]) {
				show(v, true, false, verdict{what: "A and B exchanged"}, V, D, xs, u)
			}
		}
		// the intermediate commitment moved, with the rest following it
		for i := range Δ {
			D := append([][3]*math.G1{}, Δ...)
			for j := i; j < len(D); j++ {
				g := D[j][2].Copy()
				g.Add(p.G[0])
				D[j][2] = g
			}
			show(v, true, false, verdict{what: "commitments moved"}, V, D, xs, u)
		}
	}
	if s.Int("alter", 0) > 0 {
		type pr struct {
			D [][3]*math.G1
			U *math.Zr
		}
		q := deepCopy(&pr{Δ, u}).(*pr)
		a.alterAll(s, q, func(string) bool { return false }, func(vd verdict) { show(v, true, true, vd, V, q.D, xs, q.U) })
	}
	if s.Int("observe", 0) > 0 {
		other := append(common.Vec{}, v...)
		i := a.rng.Intn(n)
		other[i] = plus(other[i], rnd())
		for round := 1; 1<<uint(round) <= n; round++ {
			W, _, D, _, w, err := observedReduction(p, v, other, "", round)
			ok := false
			try(func() { _, _, e := bp.IterativeVerify(p, W, D, w); ok = err == nil && e == nil })
			if !ok {
				a.skip("uncalibrated", "observed reduction")
			}
			for _, late := range []string{"A", "B", "V"} {
				if late == "V" && round > 1 {
					continue
				}
				W, start, D, x, w, err := observedReduction(p, v, other, late, round)
				if err != nil {
					a.skip("unbuilt", "observed "+late)
					continue
				}
				show(start, true, true, verdict{what: fmt.Sprintf("observed %s round %d", late, round)}, W, D, x, w)
			}
		}
	}
	if s.Int("lies", 0) == 0 {
		return
	}
	D0, x0, u0 := reduceLate(p, v, v, V, "", 0, nil)
	ok := false
	try(func() { _, _, err := bp.IterativeVerify(p, V, D0, u0); ok = err == nil })
	if !ok {
		a.skip("uncalibrated", "reduction")
	}
	_ = x0
	v2 := append(common.Vec{}, v...)
	k := a.rng.Intn(n)
	v2[k] = plus(v2[k], rnd())
	// a reduction of another vector from this commitment
	D, x, w := reduceFrom(p, v2, V)
	show(v, true, true, verdict{what: "other vector"}, V, D, x, w)
	D, x, w = reduceFrom(p, v2, V)
	if len(D) > 0 {
		// and the last commitment set to what the final value needs
		s := foldWeights(x, n, true)
		g := msm(p.G, s)
		D = append([][3]*math.G1{}, D...)
		D[len(D)-1][2] = g.Mul(w)
		show(v, true, true, verdict{what: "last commitment"}, V, D, x, w)
	}
	try(func() {
		// the library's own reduction, of another vector
		D, x, w := bp.IterativeReduce(p, append(common.Vec{}, v2...), V.Copy())
		show(v, true, true, verdict{what: "library on another vector"}, V, D, x, w)
	})
	for _, t := range s.attacks() {
		switch t.Late[0] {
		case 'A', 'B':
			for r, k := 0, n; k > 1; r, k = r+1, k/2 {
				D, x, w := reduceLate(p, v, v2, V, t.Late[:1], r, t.drop())
				show(v, true, true, verdict{what: fmt.Sprintf("%s round %d", t, r+1)}, V, D, x, w)
			}
		case 'V':
			for _, instead := range []string{"", "A", "B", "digest", "inner"} {
				W, v3, D, x, w := reduceBackwards(p, instead)
				show(v3, true, true, verdict{what: t.String() + " " + instead}, W, D, x, w)
			}
		}
	}
}

// verdictLater is verdict with something to do between the verification and the record.
func (a *argRec) verdictLater(ev string, f Event, v verdict, verify func() bool, then func()) bool {
	ok := false
	pn := try(func() { ok = verify() })
	then()
	return a.verdict(ev, f, v, func() bool { return ok && pn == nil })
}
