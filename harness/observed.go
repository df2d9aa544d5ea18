package main

import (
	crand "crypto/rand"
	"fmt"
	"math/big"

	"pol/bp"
	"pol/common"
	"pol/sum"

	math "github.com/IBM/mathlib"
)

// The provers in this file do not know how challenges are derived.  They run
// the library's prover, read the challenges off its answers, change one
// component afterwards and leave the rest as it is.  The verifier accepts only
// if the challenge does not depend on the component (FiatShamir.tla).

// coins makes every random draw of the library the same known number.
type coins struct{}

func (coins) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = 1
	}
	return len(b), nil
}

// withCoins runs f with known coins and returns what the library draws.
func withCoins(f func()) *math.Zr {
	r := crand.Reader
	crand.Reader = coins{}
	defer func() { crand.Reader = r }()
	f()
	return rnd()
}

func zrField(v interface{}, name string) *math.Zr {
	f, ok := field(v, name)
	if !ok || f.Type() != tZr || f.IsNil() {
		return nil
	}
	return f.Interface().(*math.Zr)
}

func isZero(z *math.Zr) bool { return residue(z).Sign() == 0 }

// observedIPA argues for a false product of two sparse vectors.  late is P, or
// L or R of the given round (1, or 2 of 2).
func observedIPA(p *bp.PP, late string, round int) (c *math.Zr, va, vb common.Vec, shifted bool, proof *bp.InnerProductProof, err error) {
	n := len(p.G)
	va, vb = zeros(n), zeros(n)
	α, β := rnd(), rnd()
	va[0], vb[n/2] = α, β // their product is 0
	c = rnd()
	if late == "" {
		c = zeros(1)[0]
	}
	P := msm(p.G, va)
	P.Add(msm(p.H, vb))
	ipa := bp.NewInnerProdArgument(p, append(common.Vec{}, va...), append(common.Vec{}, vb...))
	ipa.C, ipa.P = c, P.Copy()
	if pn := try(func() { proof = ipa.Prove() }); pn != nil || proof == nil || len(proof.LRs) < 2*round {
		return c, va, vb, false, nil, fmt.Errorf("prover")
	}
	a, b := zrField(proof, "a"), zrField(proof, "b")
	if a == nil || b == nil || isZero(a) || isZero(b) {
		return c, va, vb, false, nil, fmt.Errorf("no answers")
	}
	proof = deepCopy(proof).(*bp.InnerProductProof)
	// the generator of the product, times its challenge
	U := proof.LRs[0].Copy()
	U.Sub(p.G[n/2].Mul(α))
	U.Sub(p.H[0].Mul(β))
	U = U.Mul(inv(α.Mul(β)))
	// the square of the challenge
	sq := a.Mul(b).Mul(inv(α.Mul(β)))
	if round == 2 {
		sq = a.Mul(inv(b)).Mul(β.Mul(inv(α)))
	}
	sq = plus(sq, zeros(1)[0])
	gap := neg(c)
	switch late {
	case "P":
		P.Add(U.Mul(gap))
		proof.P = P
		shifted = true
	case "L":
		L := proof.LRs[2*round-2].Copy()
		L.Add(U.Mul(gap.Mul(inv(sq))))
		proof.LRs[2*round-2] = L
	case "R":
		R := proof.LRs[2*round-1].Copy()
		R.Add(U.Mul(gap.Mul(sq)))
		proof.LRs[2*round-1] = R
	}
	return
}

// observedReduction claims the folded value of another vector.  late is A or B
// of the given round, or V, the commitment it starts from; it returns the
// vector in that commitment.
func observedReduction(p *bp.PP, v, claim common.Vec, late string, round int) (V *math.G1, start common.Vec, Δ [][3]*math.G1, xs common.Vec, u *math.Zr, err error) {
	start = append(common.Vec{}, v...)
	V = msm(p.G, v)
	run := func(G common.G1v, v common.Vec, V *math.G1) (Δ [][3]*math.G1, xs common.Vec, u *math.Zr, err error) {
		q := &bp.PP{G: G, U: p.U, H: p.H, Digest: p.Digest}
		if len(G) == 1 {
			return nil, nil, v[0], nil
		}
		if pn := try(func() { Δ, xs, u = bp.IterativeReduce(q, append(common.Vec{}, v...), V.Copy()) }); pn != nil || len(Δ) == 0 || len(Δ) != len(xs) || u == nil {
			return nil, nil, nil, fmt.Errorf("prover")
		}
		Δ = deepCopy(Δ).([][3]*math.G1)
		return
	}
	G, from := append(common.G1v{}, p.G...), V.Copy()
	before := from
	v, claim = append(common.Vec{}, v...), append(common.Vec{}, claim...)
	for i := 1; ; i++ {
		D, X, w, e := run(G, v, from)
		if e != nil {
			return V, start, nil, nil, nil, e
		}
		if i > round {
			return V, start, append(Δ, D...), append(xs, X...), w, nil
		}
		if len(G) == 1 {
			return V, start, nil, nil, nil, fmt.Errorf("no such round")
		}
		// one round of it
		x := X[0]
		xi := inv(x)
		k := len(G) / 2
		g, fv, fc := make(common.G1v, k), make(common.Vec, k), make(common.Vec, k)
		for j := range g {
			g[j] = G[k+j].Mul(xi)
			g[j].Add(G[j])
			fv[j] = plus(v[j], v[k+j].Mul(x))
			fc[j] = plus(claim[j], claim[k+j].Mul(x))
		}
		A, B := D[0][0], D[0][1]
		before = from
		if i == round {
			if late == "" {
				fc = fv
			}
			next := msm(g, fc)
			miss := next.Copy()
			switch late {
			case "A":
				miss.Sub(before)
				miss.Sub(B.Mul(xi))
				A = miss.Mul(xi)
			case "B":
				miss.Sub(before)
				miss.Sub(A.Mul(x))
				B = miss.Mul(x)
			case "V":
				// what is left is the commitment of another vector
				if round != 1 {
					return V, start, nil, nil, nil, fmt.Errorf("only the first commitment is free")
				}
				for j := 0; j < k; j++ {
					start[j] = minus(fc[j], x.Mul(v[k+j]))
					start[k+j] = minus(fc[j], v[j]).Mul(xi)
				}
				V = msm(p.G, start)
			}
			fv = fc
			from = next
		} else {
			from = D[0][2]
		}
		Δ = append(Δ, [3]*math.G1{A, B, from.Copy()})
		xs = append(xs, x)
		G, v, claim = g, fv, fc
	}
}

// sumChallenge reads the challenge of a sum argument made with known coins.
func sumChallenge(r *math.Zr, make func() *sum.Proof) (x, coin *math.Zr, π *sum.Proof, err error) {
	withCoins(func() {
		coin = rnd()
		try(func() { π = make() })
	})
	if π == nil {
		return nil, nil, nil, fmt.Errorf("prover")
	}
	ρ := zrField(π, "ρ")
	if ρ == nil {
		return nil, nil, nil, fmt.Errorf("no field")
	}
	// ρ = -(r + coin x)
	x = neg(plus(ρ, r)).Mul(inv(coin))
	x = plus(x, zeros(1)[0])
	if isZero(x) {
		return nil, nil, nil, fmt.Errorf("no challenge")
	}
	return x, coin, deepCopy(π).(*sum.Proof), nil
}

// observedSum argues that the last entry of v is the sum of the others; late
// is c, V or W.  It returns the vector it ended up committing to.
func observedSum(p *sum.PP, v common.Vec, r *math.Zr, late string) (*math.G1, common.Vec, *sum.Proof, error) {
	n := len(v)
	v = append(common.Vec{}, v...)
	b := sumMask(n)
	V := pedersen(p.F, p.Gs, v, r)
	q := p
	if late == "V" {
		// a prover that sums differently
		q = deepCopy(p).(*sum.PP)
		other := append(common.Vec{}, b...)
		other[0] = plus(other[0], rnd())
		if !setField(q, "b", other) {
			return nil, nil, nil, fmt.Errorf("no field b")
		}
	}
	x, coin, π, err := sumChallenge(r, func() *sum.Proof {
		_, π := sum.NewArgument(q, V.Copy(), append(common.Vec{}, v...), r.Copy())
		return π
	})
	if err != nil {
		return nil, nil, nil, err
	}
	w := make(common.Vec, n)
	for i := range w {
		w[i] = coin
	}
	c := zrField(π, "c")
	if c == nil || !pedersen(p.F, p.Gs, w, coin).Equals(π.W) {
		return nil, nil, nil, fmt.Errorf("other coins")
	}
	missing := minus(c.Mul(x), plus(dot(v, b), dot(w, b).Mul(x)))
	switch late {
	case "c":
		c = minus(c, missing.Mul(inv(x)))
	case "V":
		v[0] = plus(v[0], missing)
		V = pedersen(p.F, p.Gs, v, r)
	case "W":
		w[0] = plus(w[0], missing.Mul(inv(x)))
		π.W = pedersen(p.F, p.Gs, w, coin)
	}
	a := make(common.Vec, n)
	for i := range a {
		a[i] = plus(v[i], w[i].Mul(x))
	}
	ipaPP := &bp.PP{G: p.Gs, H: p.H, U: p.U}
	ipaPP.RecomputeDigest()
	st := &setter{v: π}
	st.set("c", c)
	st.set("π", bp.NewInnerProdArgument(ipaPP, a, b).Prove())
	if st.bad != "" {
		return nil, nil, nil, fmt.Errorf("no field %s", st.bad)
	}
	return V, v, π, nil
}

// observedWeights reads off the weights with which an aggregated sum argument
// combines the vectors.
func observedWeights(p *sum.PP, V common.G1v, v []common.Vec) (common.Vec, error) {
	copies := func() (common.G1v, []common.Vec) {
		vs := make([]common.Vec, len(v))
		for i := range v {
			vs[i] = append(common.Vec{}, v[i]...)
		}
		return deepCopy(V).(common.G1v), vs
	}
	ask := func(r common.Vec) (*math.Zr, *math.Zr, error) {
		x, coin, _, err := sumChallenge(zeros(1)[0], func() *sum.Proof {
			C, vs := copies()
			return sum.NewAggregatedArgument(p, C, vs, r)
		})
		return x, coin, err
	}
	x, coin, err := ask(zeros(len(v)))
	if err != nil {
		return nil, err
	}
	res := make(common.Vec, len(v))
	for i := range v {
		r := zeros(len(v))
		r[i] = ones(1)[0]
		y, _, err := ask(r)
		if err != nil {
			return nil, err
		}
		// coin y = coin x + weight
		res[i] = minus(y, x).Mul(coin)
		if isZero(res[i]) {
			return nil, fmt.Errorf("no weight")
		}
	}
	return res, nil
}

// rangeOracle asks the library's range prover for the challenges that belong
// to given components.  It runs the prover with parameters and coins that make
// it send exactly these components, and reads the challenges off its answers.
type rangeOracle struct {
	p *bp.RangeProofPublicParams
}

// script hands out given scalars, one per draw.
type script struct {
	draws []*math.Zr
	next  int
}

func (s *script) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = 0
	}
	if s.next < len(s.draws) {
		if z := s.draws[s.next]; z != nil && len(b) == 32 {
			// Montgomery form, least significant word first
			x := new(big.Int).Lsh(residue(z), 256)
			x = x.Mod(x, order)
			y := x.FillBytes(make([]byte, 32))
			for i := 0; i < 4; i++ {
				copy(b[8*i:8*i+8], y[24-8*i:32-8*i])
			}
		}
	}
	s.next++
	return len(b), nil
}

// run gives the proof the library makes for zeros, with W and Q (and R) as
// given.  s and t are the masks at the given positions.
func (o *rangeOracle) run(V, W, Q, R *math.G1, s, t map[int]*math.Zr, τ1, τ2 *math.Zr) (*bp.RangeProof, error) {
	n := len(o.p.Gs)
	m := len(o.p.Hs)/n - 1
	q := *o.p
	if R != nil {
		q.F = R.Copy()
	}
	one := ones(1)[0]
	q.Gs = append(common.G1v{}, o.p.Gs...)
	q.Gs[0] = W.Copy()
	q.Gs[0].Sub(q.F)
	q.Hs, q.Fs = make(common.G1v, len(o.p.Hs)), make(common.G1v, len(o.p.Fs))
	for i := range q.Hs {
		q.Hs[i] = identity()
	}
	for i := range q.Fs {
		q.Fs[i] = identity()
	}
	q.Fs[2] = Q.Copy()
	// w, r', ν, η, s, t, τ1, τ2
	draws := make([]*math.Zr, n+3+(n*m+n)+n*m+2)
	draws[0], draws[n], draws[n+2] = one, one, one
	for i, x := range s {
		draws[n+3+i] = x
	}
	for i, x := range t {
		draws[n+3+n*m+n+i] = x
	}
	draws[len(draws)-2], draws[len(draws)-1] = τ1, τ2
	var rp *bp.RangeProof
	sc := &script{draws: draws}
	r := crand.Reader
	crand.Reader = sc
	try(func() { rp = bp.ProveRange(&q, V.Copy(), zeros(n), zeros(1)[0]) })
	crand.Reader = r
	if rp == nil || sc.next != len(draws) || !rp.W.Equals(W) || !rp.Q.Equals(Q) || R != nil && !rp.R.Equals(R) {
		return nil, fmt.Errorf("the prover does something else")
	}
	return rp, nil
}

func (o *rangeOracle) x(V, W, Q *math.G1) (*math.Zr, error) {
	rp, err := o.run(V, W, Q, nil, nil, nil, nil, nil)
	if err != nil {
		return nil, err
	}
	γ := zrField(rp, "γ")
	if γ == nil || isZero(γ) {
		return nil, fmt.Errorf("no γ")
	}
	return neg(γ), nil
}

// cz gives the claimed product and z.
func (o *rangeOracle) cz(V, W, Q, R *math.G1, s, t map[int]*math.Zr) (c, z *math.Zr, err error) {
	rp, err := o.run(V, W, Q, R, s, t, nil, nil)
	if err != nil {
		return nil, nil, err
	}
	c, ρ := zrField(rp, "c"), zrField(rp, "ρ")
	if c == nil || ρ == nil || isZero(ρ) {
		return nil, nil, fmt.Errorf("no c or ρ")
	}
	return c, neg(ρ), nil
}

func (o *rangeOracle) y(V, W, Q, R *math.G1) (y0, y1 *math.Zr, err error) {
	one := ones(1)[0]
	c, _, err := o.cz(V, W, Q, R, nil, nil)
	if err != nil {
		return
	}
	// c = c0 + z y1
	c1, z1, err := o.cz(V, W, Q, R, nil, map[int]*math.Zr{0: one})
	if err != nil {
		return
	}
	// c = c0 + z y0 y1
	c2, z2, err := o.cz(V, W, Q, R, nil, map[int]*math.Zr{1: one})
	if err != nil {
		return
	}
	y1 = minus(c1, c).Mul(inv(z1))
	if isZero(y1) {
		return nil, nil, fmt.Errorf("no y1")
	}
	y0 = minus(c2, c).Mul(inv(z2.Mul(y1)))
	if isZero(y0) {
		return nil, nil, fmt.Errorf("no y0")
	}
	return plus(y0, zeros(1)[0]), plus(y1, zeros(1)[0]), nil
}

// z asks for the challenge when C1 and C2 are made from c1, τ1 and c2, τ2.
func (o *rangeOracle) z(V, W, Q, R *math.G1, y0, y1, c1, c2, τ1, τ2 *math.Zr) (*math.Zr, error) {
	one := ones(1)[0]
	c, _, err := o.cz(V, W, Q, R, nil, nil)
	if err != nil {
		return nil, err
	}
	cb, zb, err := o.cz(V, W, Q, R, map[int]*math.Zr{0: one}, nil)
	if err != nil {
		return nil, err
	}
	b0 := minus(cb, c).Mul(inv(zb))
	// s0 t0 = c2, t0 y1 + t1 y0 y1 + s0 b0 = c1
	t1 := minus(c1, plus(y1.Mul(c2), b0)).Mul(inv(y0.Mul(y1)))
	rp, err := o.run(V, W, Q, R, map[int]*math.Zr{0: one}, map[int]*math.Zr{0: c2, 1: t1}, τ1, τ2)
	if err != nil {
		return nil, err
	}
	ρ := zrField(rp, "ρ")
	for i, C := range []*math.G1{rp.C1, rp.C2} {
		want := o.p.G.Mul([]*math.Zr{c1, c2}[i])
		want.Add(o.p.H.Mul([]*math.Zr{τ1, τ2}[i]))
		if !C.Equals(want) {
			return nil, fmt.Errorf("other coefficients")
		}
	}
	if ρ == nil || isZero(ρ) {
		return nil, fmt.Errorf("no ρ")
	}
	return neg(ρ), nil
}
