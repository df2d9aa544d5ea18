package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	mrand "math/rand"
	"sort"
	"sync"

	"pol/bp"
	"pol/common"
	"pol/poe"
	"pol/pol"
	"pol/pp"
	"pol/sum"

	math "github.com/IBM/mathlib"
)

func init() {
	kinds["share"] = runShare
	kinds["sharearg"] = runShareArg
}

// shared is a set of named objects that must stay as they are.
type shared struct {
	names []string
	obj   []interface{}
	base  []map[string]string
}

func (s *shared) add(name string, x interface{}) {
	s.names, s.obj, s.base = append(s.names, name), append(s.obj, x), append(s.base, snapshot(x))
}

func (s *shared) changed() []string {
	res := []string{}
	for i, x := range s.obj {
		if c := changed(s.base[i], snapshot(x)); c != "" {
			res = append(res, ascii.Replace(s.names[i]+c))
			s.base[i] = snapshot(x)
		}
	}
	return res
}

// dbState is what a database holds.
func dbState(d *RecDB) map[string]string {
	d.mu.Lock()
	defer d.mu.Unlock()
	res := map[string]string{}
	for k, v := range d.m {
		res["key "+k] = shortHash(v)
	}
	return res
}

func sameMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

// runShare uses one set, its parameters and its proofs again and again, one
// operation after the other and many at once.
func runShare(rec *Recorder, s *Scenario) {
	fan, depth := s.Int("fan", 3), s.Int("depth", 2)
	rng := mrand.New(mrand.NewSource(int64(s.Int("seed", 1))))
	p := newSmallParams(fan, depth)
	db := &RecDB{m: map[string][]byte{}}
	ls := pol.NewLiabilitySet(p, db, parseDotted)
	content := map[string]int64{}
	var ids []string
	for _, raw := range s.Ops {
		var op []string
		json.Unmarshal(raw, &op)
		if pn := try(func() { ls.Set(op[1], i64(op[2])) }); pn != nil {
			rec.Emit(Event{"ev": "uncalibrated", "what": "history"})
			return
		}
		if _, ok := content[op[1]]; !ok {
			ids = append(ids, op[1])
		}
		content[op[1]] = i64(op[2])
	}
	sort.Strings(ids)
	absent := s.Str("absent", "")
	var V, W *math.G1
	var proofs []*pol.LiabilityProof
	var tot pol.TotalProof
	pol.ParallelismEnabled = s.Par
	if pn := try(func() {
		V, W = ls.Root()
		for _, id := range ids {
			_, lp, _, _ := ls.ProveLiability(id)
			q := lp
			proofs = append(proofs, &q)
		}
		tot = ls.ProveTot()
	}); pn != nil {
		rec.Emit(Event{"ev": "uncalibrated", "what": "proofs"})
		return
	}
	rec.Emit(Event{"ev": "share", "V": g1Hex(V), "W": g1Hex(W), "tot": amountOf(int64(tot.Sum)), "totproof": g1Hex(tot.LiabilityProof)})
	sh := &shared{}
	sh.add("params", p)
	for i := range proofs {
		sh.add("proof"+itoa(i), proofs[i])
	}
	sh.add("total", &tot)
	sh.add("root", &root{V, W})
	dbBase := dbState(db)
	changes := func() []string {
		c := sh.changed()
		if d := dbState(db); !sameMap(d, dbBase) {
			c = append(c, "database")
			dbBase = d
		}
		return c
	}
	otherV := curve.GenG1.Copy()
	otherV.Add(V)
	verify := func(lp pol.LiabilityProof, id string, V, W *math.G1, e Event) {
		pn := try(func() {
			_, err := lp.Verify(p, id, V, W, parseDotted)
			e["ok"] = err == nil
		})
		e["panic"] = pn != nil
	}
	// do carries out one operation chosen by r
	do := func(r *mrand.Rand) Event {
		e := Event{"ev": "do", "ok": false, "panic": false, "par": pol.ParallelismEnabled, "stmt": ""}
		i := r.Intn(len(proofs))
		id := ids[i]
		switch k := r.Intn(18); {
		case k < 4:
			e["op"], e["obj"], e["stmt"] = "verify", i, "right"
			verify(*proofs[i], id, V, W, e)
		case k < 5:
			e["op"], e["obj"], e["stmt"] = "verify", i, "amount"
			q := *proofs[i]
			q.LiabilityProof.Sum++
			verify(q, id, V, W, e)
		case k < 6:
			e["op"], e["obj"], e["stmt"] = "verify", i, "root"
			verify(*proofs[i], id, otherV, W, e)
		case k < 7:
			e["op"], e["obj"], e["stmt"] = "verify", i, "id"
			other := absent
			if len(ids) > 1 && r.Intn(2) == 0 {
				other = ids[(i+1)%len(ids)]
			}
			verify(*proofs[i], other, V, W, e)
		case k < 8:
			e["op"], e["obj"], e["stmt"] = "verify", i, "part of another proof"
			q := *proofs[i]
			q.RangeProofs = append([]*bp.RangeProof{}, q.RangeProofs...)
			a, b := r.Intn(len(q.RangeProofs)), r.Intn(len(q.RangeProofs)-1)
			if b >= a {
				b++
			}
			q.RangeProofs[a] = q.RangeProofs[b]
			verify(q, id, V, W, e)
		case k < 9:
			e["op"], e["obj"], e["stmt"] = "verify", i, "sum of nothing"
			q := *proofs[i]
			x := *q.SumArgumentProof
			x.W = otherV
			q.SumArgumentProof = &x
			verify(q, id, V, W, e)
		case k < 10:
			e["op"], e["obj"], e["stmt"] = "verify", i, "equality of nothing"
			q := *proofs[i]
			x := *q.EqualityProof
			x.U = otherV
			q.EqualityProof = &x
			verify(q, id, V, W, e)
		case k < 12:
			e["op"], e["obj"] = "prove", i
			var n int64
			var lp pol.LiabilityProof
			var ok bool
			if pn := try(func() { n, lp, _, ok = ls.ProveLiability(id) }); pn != nil || !ok {
				e["panic"] = true
				break
			}
			e["amount"], e["content"] = amountOf(n), amountOf(content[id])
			verify(lp, id, V, W, e)
		case k < 13:
			e["op"] = "absent"
			pn := try(func() { _, _, _, ok := ls.ProveLiability(absent); e["ok"] = !ok })
			e["panic"] = pn != nil
		case k < 14:
			e["op"] = "root"
			pn := try(func() { a, b := ls.Root(); e["V"], e["W"], e["ok"] = g1Hex(a), g1Hex(b), true })
			e["panic"] = pn != nil
		case k < 15:
			e["op"] = "tot"
			var tp pol.TotalProof
			pn := try(func() {
				tp = ls.ProveTot()
				e["tot"], e["totproof"], e["ok"] = amountOf(int64(tp.Sum)), g1Hex(tp.LiabilityProof), true
			})
			e["panic"] = pn != nil
		case k < 16:
			e["op"], e["obj"], e["stmt"] = "vtot", 0, "right"
			pn := try(func() { e["ok"] = tot.Verify(p, V) == nil })
			e["panic"] = pn != nil
		case k < 17:
			e["op"], e["obj"], e["stmt"] = "vtot", 0, "amount"
			q := tot
			q.Sum++
			pn := try(func() { e["ok"] = q.Verify(p, V) == nil })
			e["panic"] = pn != nil
		default:
			e["op"] = "get"
			pn := try(func() {
				n, ok := ls.Get(id)
				e["ok"] = ok
				e["amount"], e["content"] = amountOf(n), amountOf(content[id])
			})
			e["panic"] = pn != nil
		}
		return e
	}
	// alone
	for k := 0; k < s.Int("alone", 12); k++ {
		if k%5 == 4 {
			pol.ParallelismEnabled = !pol.ParallelismEnabled
		}
		e := do(rng)
		e["changed"] = changes()
		rec.Emit(e)
	}
	// many at once
	for k := 0; k < s.Int("phases", 2); k++ {
		pol.ParallelismEnabled = k%2 == 0
		n := s.Int("threads", 6)
		res := make([][]Event, n)
		var wg sync.WaitGroup
		for t := 0; t < n; t++ {
			wg.Add(1)
			r := mrand.New(mrand.NewSource(rng.Int63()))
			go func(t int) {
				defer wg.Done()
				for j := 0; j < s.Int("each", 3); j++ {
					res[t] = append(res[t], do(r))
				}
			}(t)
		}
		wg.Wait()
		for _, l := range res {
			for _, e := range l {
				e["changed"] = []string{}
				rec.Emit(e)
			}
		}
		rec.Emit(Event{"ev": "quiet", "changed": changes()})
	}
}

// use is one argument with everything that takes part in checking it.
type use struct {
	sh           *shared
	right, wrong func() bool
	prove        func() bool
}

func argUse(name string, n, m int, a *argRec) *use {
	u := &use{sh: &shared{}}
	switch name {
	case "range":
		p := bp.NewRangeProofPublicParams(n)
		v := vecOf(decs(repeat("12345", n)))
		r := rnd()
		V := pedersen(p.F, p.Gs, v, r)
		rp := bp.ProveRange(p, V.Copy(), append(common.Vec{}, v...), r.Copy())
		X := V.Copy()
		X.Add(curve.GenG1)
		u.sh.add("params", p)
		u.sh.add("proof", rp)
		u.sh.add("commitments", &[]*math.G1{V, X})
		u.right = func() bool { return bp.VerifyRange(p, rp, V) == nil }
		u.wrong = func() bool { return bp.VerifyRange(p, rp, X) == nil }
		u.prove = func() bool {
			q := bp.ProveRange(p, V.Copy(), append(common.Vec{}, v...), r.Copy())
			return bp.VerifyRange(p, q, V) == nil
		}
	case "sum":
		p := sum.NewPublicParams(n)
		var vs []common.Vec
		var rs common.Vec
		var Vs, Xs common.G1v
		for k := 0; k < m; k++ {
			v, r := a.balanced(n, 0, zrOf(big.NewInt(0))), rnd()
			vs, rs = append(vs, v), append(rs, r)
			Vs = append(Vs, pedersen(p.F, p.Gs, v, r))
			Xs = append(Xs, Vs[k])
		}
		Xs[m-1] = Xs[m-1].Copy()
		Xs[m-1].Add(curve.GenG1)
		cp := func() (x []common.Vec) {
			for _, v := range vs {
				x = append(x, append(common.Vec{}, v...))
			}
			return
		}
		u.sh.add("params", p)
		if m == 1 {
			arg, π := sum.NewArgument(p, Vs[0].Copy(), cp()[0], rs[0].Copy())
			u.sh.add("argument", arg)
			u.sh.add("proof", π)
			X := &sum.Argument{V: Xs[0]}
			u.sh.add("other", X)
			u.right = func() bool { return π.Verify(p, arg) == nil }
			u.wrong = func() bool { return π.Verify(p, X) == nil }
			u.prove = func() bool {
				arg, π := sum.NewArgument(p, Vs[0].Copy(), cp()[0], rs[0].Copy())
				return π.Verify(p, arg) == nil
			}
			break
		}
		π := sum.NewAggregatedArgument(p, append(common.G1v{}, Vs...), cp(), append(common.Vec{}, rs...))
		u.sh.add("proof", π)
		u.sh.add("commitments", &Vs)
		u.sh.add("other", &Xs)
		u.right = func() bool { return π.VerifyAggregated(p, Vs) == nil }
		u.wrong = func() bool { return π.VerifyAggregated(p, Xs) == nil }
		u.prove = func() bool {
			return sum.NewAggregatedArgument(p, append(common.G1v{}, Vs...), cp(), append(common.Vec{}, rs...)).VerifyAggregated(p, Vs) == nil
		}
	case "equal", "equality":
		p := poe.NewPublicParams(n, m)
		var vs, ws []common.Vec
		e := &poe.Equalities{RO: poe.RO, PP: p}
		for k := 0; k < m; k++ {
			v, w := a.balanced(n, 0, rnd()), a.balanced(n, 0, rnd())
			i, j := a.rng.Intn(n-1), a.rng.Intn(n-1)
			w[j] = v[i].Copy()
			vs, ws = append(vs, v), append(ws, w)
			e.V, e.W = append(e.V, commitTo(p.PP, bigs(v))), append(e.W, commitTo(p.PP, bigs(w)))
			e.I, e.J = append(e.I, i), append(e.J, j)
		}
		X := &poe.Equalities{RO: poe.RO, PP: p, V: e.V, W: append(common.G1v{}, e.W...), I: e.I, J: e.J}
		X.W[m-1] = X.W[m-1].Copy()
		X.W[m-1].Add(curve.GenG1)
		u.sh.add("params", p)
		cp := func(l []common.Vec) (x []common.Vec) {
			for _, v := range l {
				x = append(x, append(common.Vec{}, v...))
			}
			return
		}
		if name == "equality" {
			one := func(e *poe.Equalities) *poe.Equality {
				return &poe.Equality{RO: poe.RO, PP: p, V: e.V[0], W: e.W[0], I: e.I[0], J: e.J[0]}
			}
			y, x := one(e), one(X)
			if m > 1 {
				x.W = X.W[m-1]
			}
			π := y.Prove(cp(vs)[0], cp(ws)[0])
			u.sh.add("proof", π)
			u.sh.add("statement", y)
			u.sh.add("other", x)
			u.right = func() bool { return y.Verify(π) == nil }
			u.wrong = func() bool { return x.Verify(π) == nil }
			u.prove = func() bool { return y.Verify(y.Prove(cp(vs)[0], cp(ws)[0])) == nil }
			break
		}
		π := e.Prove(cp(vs), cp(ws))
		u.sh.add("proof", π)
		u.sh.add("statement", e)
		u.sh.add("other", X)
		u.right = func() bool { return e.Verify(π) == nil }
		u.wrong = func() bool { return X.Verify(π) == nil }
		u.prove = func() bool { return e.Verify(e.Prove(cp(vs), cp(ws))) == nil }
	case "ipa":
		p := bp.NewPublicParams(n)
		v, w := a.balanced(n, 0, rnd()), a.balanced(n, 0, rnd())
		π := bp.NewInnerProdArgument(p, append(common.Vec{}, v...), append(common.Vec{}, w...)).Prove()
		X := *π
		X.C = plus(X.C, zrOf(big.NewInt(1)))
		u.sh.add("params", p)
		u.sh.add("proof", π)
		u.sh.add("other", &X)
		u.right = func() bool { return π.Verify(p) == nil }
		u.wrong = func() bool { return X.Verify(p) == nil }
		u.prove = func() bool {
			return bp.NewInnerProdArgument(p, append(common.Vec{}, v...), append(common.Vec{}, w...)).Prove().Verify(p) == nil
		}
	case "reduce":
		p := &bp.PP{G: common.RandGenVec(n, "verif G"), U: common.RandGenVec(1, "verif U")[0]}
		p.RecomputeDigest()
		v := a.balanced(n, 0, rnd())
		V := msm(p.G, v)
		Δ, _, f := bp.IterativeReduce(p, append(common.Vec{}, v...), V.Copy())
		X := V.Copy()
		X.Add(curve.GenG1)
		u.sh.add("params", p)
		u.sh.add("proof", &Δ)
		u.sh.add("final", &[]*math.Zr{f})
		u.sh.add("commitments", &[]*math.G1{V, X})
		u.right = func() bool { _, _, err := bp.IterativeVerify(p, V, Δ, f); return err == nil }
		u.wrong = func() bool { _, _, err := bp.IterativeVerify(p, X, Δ, f); return err == nil }
		u.prove = func() bool {
			Δ, _, f := bp.IterativeReduce(p, append(common.Vec{}, v...), V.Copy())
			_, _, err := bp.IterativeVerify(p, V, Δ, f)
			return err == nil
		}
	case "opening":
		p := pp.NewPublicParams(n)
		v := a.balanced(n, 0, rnd())
		C := pp.Commit(p, append(common.Vec{}, v...))
		i := a.rng.Intn(n)
		x, π := pp.Open(p, i, append(common.Vec{}, v...))
		y := plus(x, zrOf(big.NewInt(1)))
		u.sh.add("params", p)
		u.sh.add("proof", &[]*math.G1{π, C})
		u.sh.add("values", &common.Vec{x, y})
		u.sh.add("vector", &v)
		u.right = func() bool { return pp.Verify(p, x, π, C, i) == nil }
		u.wrong = func() bool { return pp.Verify(p, y, π, C, i) == nil }
		u.prove = func() bool {
			x, π := pp.Open(p, i, v)
			return pp.Verify(p, x, π, C, i) == nil
		}
	case "aggregate":
		p := pp.NewPublicParams(n)
		var Cs common.G1v
		var πs []*math.G1
		var is []int
		var vals common.Vec
		for k := 0; k < m; k++ {
			v := a.balanced(n, 0, rnd())
			i := a.rng.Intn(n)
			x, π := pp.Open(p, i, append(common.Vec{}, v...))
			Cs, πs, is, vals = append(Cs, pp.Commit(p, v)), append(πs, π), append(is, i), append(vals, x)
		}
		agg := func() (*math.G1, *math.Zr) {
			t := make(common.Vec, m)
			for k := range t {
				t[k] = pp.RO(p, Cs, k)
			}
			return pp.Aggregate(p, Cs, πs, pp.RO), vals.InnerProd(t)
		}
		π, Σ := agg()
		Σ2 := plus(Σ, zrOf(big.NewInt(1)))
		u.sh.add("params", p)
		u.sh.add("commitments", &Cs)
		u.sh.add("proofs", &πs)
		u.sh.add("proof", &[]*math.G1{π})
		u.sh.add("values", &common.Vec{Σ, Σ2})
		u.sh.add("indices", &is)
		u.right = func() bool { return pp.VerifyAggregation(p, is, Cs, π, Σ, pp.RO) == nil }
		u.wrong = func() bool { return pp.VerifyAggregation(p, is, Cs, π, Σ2, pp.RO) == nil }
		u.prove = func() bool {
			π, Σ := agg()
			return pp.VerifyAggregation(p, is, Cs, π, Σ, pp.RO) == nil
		}
	default:
		fatal("no argument %s", name)
	}
	return u
}

// runShareArg does the same with single arguments.
func runShareArg(rec *Recorder, s *Scenario) {
	a := &argRec{Recorder: rec, rng: mrand.New(mrand.NewSource(int64(s.Int("seed", 1))))}
	pol.ParallelismEnabled = s.Par
	rec.Emit(Event{"ev": "share", "V": "", "W": "", "tot": []int{}, "totproof": ""})
	var u *use
	if pn := try(func() { u = argUse(s.Str("arg", "range"), s.Int("n", 4), s.Int("m", 1), a) }); pn != nil {
		rec.Emit(Event{"ev": "uncalibrated", "what": ascii.Replace("prover " + panicText(pn))})
		return
	}
	do := func(k int) Event {
		e := Event{"ev": "do", "op": "verify", "obj": 0, "ok": false, "par": s.Par}
		f := u.right
		e["stmt"] = "right"
		switch k % 4 {
		case 1:
			f, e["stmt"] = u.wrong, "commitment"
		case 3:
			f, e["op"] = u.prove, "reprove"
		}
		pn := try(func() { e["ok"] = f() })
		e["panic"] = pn != nil
		return e
	}
	for k := 0; k < s.Int("alone", 8); k++ {
		e := do(a.rng.Intn(4))
		e["changed"] = u.sh.changed()
		rec.Emit(e)
	}
	n := s.Int("threads", 6)
	res := make([][]Event, n)
	var wg sync.WaitGroup
	for t := 0; t < n; t++ {
		wg.Add(1)
		go func(t int) {
			defer wg.Done()
			for j := 0; j < s.Int("each", 4); j++ {
				res[t] = append(res[t], do(t+j))
			}
		}(t)
	}
	wg.Wait()
	for _, l := range res {
		for _, e := range l {
			e["changed"] = []string{}
			rec.Emit(e)
		}
	}
	rec.Emit(Event{"ev": "quiet", "changed": u.sh.changed()})
	_ = fmt.Sprint
}
