package main

import (
	"fmt"
	"math/big"

	"pol/bp"
	"pol/common"
	"pol/poe"
	"pol/pp"
	"pol/sum"

	math "github.com/IBM/mathlib"
)

func init() { kinds["grind"] = runGrind }

// A prover may try until a challenge suits it; challenges must be too many
// for that (Grinding.tla).  runGrind collects the challenges of many proofs.
func runGrind(rec *Recorder, s *Scenario) {
	rec.Emit(Event{"ev": "begin"})
	what := s.Str("what", "")
	sample, err := grinder(what, s)
	series := map[string][]*math.Zr{}
	points := []string{}
	var order []string
	for k := 0; k < s.Int("samples", 100) && err == nil; k++ {
		var c map[string]*math.Zr
		var point *math.G1
		pn := try(func() { c, point, err = sample() })
		if pn != nil {
			err = fmt.Errorf("%s", panicText(pn))
		}
		if err != nil {
			break
		}
		for name, z := range c {
			if series[name] == nil {
				order = append(order, name)
			}
			series[name] = append(series[name], z)
		}
		if point != nil {
			points = append(points, g1Hex(point))
		}
	}
	if err != nil {
		rec.Emit(Event{"ev": "unbuilt", "what": what + " challenges: " + ascii.Replace(err.Error())})
		return
	}
	half := new(big.Int).Lsh(big.NewInt(1), 128)
	for _, name := range order {
		list, full := []string{}, false
		for _, z := range series[name] {
			r := residue(z)
			list = append(list, r.Text(36))
			full = full || r.Cmp(half) >= 0
		}
		rec.Emit(Event{"ev": "challenges", "what": what + "/" + name, "list": list, "full": full})
	}
	if len(points) > 0 {
		rec.Emit(Event{"ev": "challenges", "what": what + "/point", "list": points, "full": true})
	}
}

type challenger func() (map[string]*math.Zr, *math.G1, error)

func grinder(what string, s *Scenario) (challenger, error) {
	one := ones(1)[0]
	norm := func(z *math.Zr) *math.Zr { return zrOf(residue(z)) }
	switch what {
	case "weights of openings":
		p := pp.NewPublicParams(3)
		return func() (map[string]*math.Zr, *math.G1, error) {
			Cs := common.G1v{p.G1s[0].Mul(rnd()), p.G1s[1].Mul(rnd())}
			return map[string]*math.Zr{"0": pp.RO(p, Cs, 0), "1": pp.RO(p, Cs, 1)}, nil, nil
		}, nil
	case "equality oracle":
		return func() (map[string]*math.Zr, *math.G1, error) {
			r := poe.RO(common.G1v{curve.GenG1.Mul(rnd())}, nil, []byte("digest"), 2)
			return map[string]*math.Zr{"0": r[0], "1": r[1]}, nil, nil
		}, nil
	case "equality":
		p := poePP(3, 2)
		return func() (map[string]*math.Zr, *math.G1, error) {
			v, w := common.RandVec(3), common.RandVec(3)
			w[1] = v[0]
			e := &poe.Equality{PP: p, RO: poe.RO, I: 0, J: 1, V: pp.Commit(p.PP, v), W: pp.Commit(p.PP, w)}
			var proof *poe.Proof
			coin := withCoins(func() { proof = e.Prove(v, w) })
			// C = v + coin x
			return map[string]*math.Zr{"x": norm(minus(proof.C, v[0]).Mul(inv(coin)))}, nil, nil
		}, nil
	case "equalities":
		p := poePP(3, 1)
		return func() (map[string]*math.Zr, *math.G1, error) {
			v, w := common.RandVec(3), common.RandVec(3)
			w[1] = v[0]
			e := &poe.Equalities{PP: p, RO: poe.RO, I: []int{0}, J: []int{1}, V: common.G1v{pp.Commit(p.PP, v)}, W: common.G1v{pp.Commit(p.PP, w)}}
			var proof *poe.AggregatedProof
			coin := withCoins(func() { proof = e.Prove([]common.Vec{v}, []common.Vec{w}) })
			// a = coin x + v, b is the sum of the two weights
			a, b := zrField(proof.IPP, "a"), zrField(proof.IPP, "b")
			if a == nil || b == nil {
				return nil, nil, fmt.Errorf("no answers")
			}
			return map[string]*math.Zr{"x": norm(minus(a, v[0]).Mul(inv(coin))), "ts": norm(b)}, nil, nil
		}, nil
	case "sum":
		p := sumPP(2)
		return func() (map[string]*math.Zr, *math.G1, error) {
			x := rnd()
			v, r := common.Vec{x, x}, rnd()
			V := pedersen(p.F, p.Gs, v, r)
			c, _, _, err := sumChallenge(r, func() *sum.Proof {
				_, π := sum.NewArgument(p, V.Copy(), append(common.Vec{}, v...), r.Copy())
				return π
			})
			return map[string]*math.Zr{"x": c}, nil, err
		}, nil
	case "sums":
		p := sumPP(2)
		return func() (map[string]*math.Zr, *math.G1, error) {
			V := common.G1v{curve.GenG1.Mul(rnd()), curve.GenG1.Mul(rnd())}
			v := []common.Vec{zeros(2), zeros(2)}
			w, err := observedWeights(p, V, v)
			if err != nil {
				return nil, nil, err
			}
			return map[string]*math.Zr{"weight": norm(w[1].Mul(inv(w[0])))}, nil, nil
		}, nil
	case "ipa":
		p := ipaPP(2)
		return func() (map[string]*math.Zr, *math.G1, error) {
			α, β := rnd(), rnd()
			var proof *bp.InnerProductProof
			// the products of the halves are α β and 0
			proof = bp.NewInnerProdArgument(p, common.Vec{α, zeros(1)[0]}, common.Vec{zeros(1)[0], β}).Prove()
			a := zrField(proof, "a")
			if a == nil || len(proof.LRs) != 2 {
				return nil, nil, fmt.Errorf("no answers")
			}
			U := proof.LRs[0].Copy()
			U.Sub(p.G[1].Mul(α))
			U.Sub(p.H[0].Mul(β))
			U = U.Mul(inv(α.Mul(β)))
			c := map[string]*math.Zr{"round": norm(a.Mul(inv(α)))}
			if k, small := smallMultiple(U, p.U); small {
				c["product"] = one.Mul(zrOf(k))
			}
			return c, U, nil
		}, nil
	case "reduction":
		p := ipaPP(2)
		return func() (map[string]*math.Zr, *math.G1, error) {
			v := common.RandVec(2)
			_, xs, _ := bp.IterativeReduce(p, v, msm(p.G, v))
			if len(xs) != 1 {
				return nil, nil, fmt.Errorf("%d challenges", len(xs))
			}
			return map[string]*math.Zr{"x": norm(xs[0])}, nil, nil
		}, nil
	case "range":
		o := &rangeOracle{rangePP(2)}
		return func() (map[string]*math.Zr, *math.G1, error) {
			g := func() *math.G1 { return curve.GenG1.Mul(rnd()) }
			V, W, Q, R := g(), g(), g(), g()
			x, err := o.x(V, W, Q)
			if err != nil {
				return nil, nil, err
			}
			y0, y1, err := o.y(V, W, Q, R)
			if err != nil {
				return nil, nil, err
			}
			_, z, err := o.cz(V, W, Q, R, nil, nil)
			if err != nil {
				return nil, nil, err
			}
			return map[string]*math.Zr{"x": norm(x), "y0": y0, "y1": y1, "z": norm(z)}, nil, nil
		}, nil
	}
	return nil, fmt.Errorf("unknown")
}

var babySteps = map[string]int{}

// smallMultiple looks for k below 2^28 with P = k G.
func smallMultiple(P, G *math.G1) (*big.Int, bool) {
	const baby, giant = 1 << 14, 1 << 14
	if len(babySteps) == 0 {
		Q := identity()
		for k := 0; k < baby; k++ {
			babySteps[string(Q.Bytes())] = k
			Q.Add(G)
		}
	}
	if k, ok := babySteps[string(P.Bytes())]; ok {
		return big.NewInt(int64(k)), true
	}
	if smallTried > 2 {
		return nil, false
	}
	smallTried++
	step := G.Mul(zrOf(big.NewInt(baby)))
	Q := P.Copy()
	for j := 1; j < giant; j++ {
		Q.Sub(step)
		if k, ok := babySteps[string(Q.Bytes())]; ok {
			return big.NewInt(int64(j*baby + k)), true
		}
	}
	return nil, false
}

var smallTried int
