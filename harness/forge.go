package main

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"math/bits"
	mrand "math/rand"
	"strings"

	"pol/bp"
	"pol/common"
	"pol/poe"
	"pol/pp"
	"pol/sum"

	math "github.com/IBM/mathlib"
)

// The provers in this file follow the protocols but may lie.  In mode "honest"
// they must produce proofs the real verifiers accept; if they do not, the
// harness does not speak the verifier's language and nothing is concluded from
// the other modes.

var two63 = new(big.Int).Lsh(big.NewInt(1), 63)

func ro(L, R *math.G1, x []byte) []byte {
	h := sha256.New()
	h.Write(L.Bytes())
	h.Write(R.Bytes())
	h.Write(x)
	return h.Sum(nil)
}

func inv(x *math.Zr) *math.Zr {
	y := x.Copy()
	y.InvModP(curve.GroupOrder)
	return y
}

func bytesOf(g *math.G1) []byte {
	if g == nil {
		return nil
	}
	return g.Bytes()
}

func plus(a, b *math.Zr) *math.Zr { return curve.ModAdd(a, b, curve.GroupOrder) }
func minus(a, b *math.Zr) *math.Zr {
	return curve.ModSub(a, b, curve.GroupOrder)
}

func ones(n int) common.Vec {
	res := make(common.Vec, n)
	for i := range res {
		res[i] = curve.NewZrFromInt(1)
	}
	return res
}

func zeros(n int) common.Vec {
	res := make(common.Vec, n)
	for i := range res {
		res[i] = curve.NewZrFromInt(0)
	}
	return res
}

func msm(g common.G1v, v common.Vec) *math.G1 {
	acc := identity()
	for i := range v {
		if bigOf(v[i]).Sign() != 0 {
			acc.Add(g[i].Mul(v[i]))
		}
	}
	return acc
}

type setter struct {
	v   interface{}
	bad string
}

func (s *setter) set(name string, val interface{}) {
	if !setField(s.v, name, val) {
		s.bad = name
	}
}

// rangeLie says how a range prover departs from the protocol.
type rangeLie struct {
	kind  string // honest, digit, mismatch, ir, late
	how   string // eq / ipa (digit, mismatch), final / step (ir)
	entry int
	digit int

	// The prover hopes that inputs of challenges are left out ("x/V"), and
	// chooses one of them late.
	drop omitted
	late string
	ipa  *ipaLie

	// oracle tells the challenges, if they are to be read off the library's
	// prover
	oracle *rangeOracle
}

// ipaLie says how the inner product argument inside another argument is made
// for a false product.
type ipaLie struct {
	drop  omitted
	late  string
	round int
}

// proveProduct argues that <a, b> = c.
func proveProduct(p *bp.PP, a, b common.Vec, c *math.Zr, P *math.G1, lie *ipaLie) *bp.InnerProductProof {
	if lie != nil {
		if _, _, _, _, _, π, err := adaptIPA(p, a, b, c, lie.drop, lie.late, lie.round); err == nil {
			return π
		}
	}
	ipa := bp.NewInnerProdArgument(p, a, b)
	ipa.C = c
	if P != nil {
		ipa.P = P
	}
	return ipa.Prove()
}

func theIPALie(l []*ipaLie) *ipaLie {
	if len(l) > 0 {
		return l[0]
	}
	return nil
}

// forgeRange proves that the entries of v, committed to in V with blinding r,
// are in range.
func forgeRange(p *bp.RangeProofPublicParams, V *math.G1, vs []*big.Int, r *big.Int, lie rangeLie, rng *mrand.Rand) (*bp.RangeProof, error) {
	n := len(p.Gs)
	if len(p.Hs)%n != 0 || len(vs) != n {
		return nil, fmt.Errorf("sizes")
	}
	m := len(p.Hs)/n - 1
	bound := new(big.Int).Lsh(big.NewInt(1), uint(m))

	v := vecOf(vs)
	w, rPrime := common.RandVec(n), common.RandVec(1)[0]
	W := p.F.Mul(rPrime)
	W.Add(msm(p.Gs, w))

	eq := 0
	// the digits, and the vector used in the reduction
	var digits common.Vec
	vRdx := append(common.Vec{}, v...)
	for i := 0; i < n; i++ {
		x := new(big.Int).Mod(vs[i], order)
		lying := (lie.kind == "digit" || lie.kind == "late") && i == lie.entry
		if x.Cmp(bound) >= 0 || lying {
			kind := lie.kind
			if kind == "late" {
				kind = "mismatch"
				if lie.late == "C1" || lie.late == "C2" || lie.late == "R" || lie.late == "Qy" {
					kind = "digit"
				}
			}
			switch kind {
			case "digit":
				t := new(big.Int).Rand(rng, bound)
				if j := lie.digit % m; lie.how == "eq" && j > 0 {
					t.SetBit(t, j-1, 0)
				}
				ds := make([]*big.Int, m)
				for j := range ds {
					ds[j] = big.NewInt(int64(t.Bit(j)))
				}
				j := lie.digit % m
				// x = t + 2^j * e
				e := new(big.Int).Sub(x, t)
				e.Mul(e, new(big.Int).ModInverse(new(big.Int).Lsh(big.NewInt(1), uint(j)), order))
				ds[j].Add(ds[j], e)
				digits = append(digits, vecOf(ds)...)
				continue
			case "mismatch":
				x.Mod(x, bound)
			case "ir":
				x.Mod(x, bound)
				vRdx[i] = zrOf(x)
			default:
				return nil, fmt.Errorf("out of range")
			}
		}
		for j := 0; j < m; j++ {
			digits = append(digits, curve.NewZrFromInt(int64(x.Bit(j))))
		}
	}
	if lie.how == "eq" && lie.kind == "digit" && lie.entry*m+lie.digit%m > 0 {
		eq = lie.entry*m + lie.digit%m
		if residue(digits[eq-1]).Sign() != 0 {
			return nil, fmt.Errorf("the digit below is not zero")
		}
	}
	wQ := append(common.Vec{}, w...) // the masks that go into Q
	wCaret := make(common.Vec, n*m)
	for i := range wCaret {
		wCaret[i] = minus(curve.NewZrFromInt(1), digits[i])
	}
	if eq > 0 {
		// holds if y0 = y1: what is wrong with one digit is made up for by
		// the complement of the digit below
		wCaret[eq-1] = minus(curve.NewZrFromInt(1), digits[eq].Mul(wCaret[eq]))
	}
	// what the digits of the lying entry stand for
	stands := curve.NewZrFromInt(0)
	for j := 0; lie.entry >= 0 && j < m; j++ {
		stands = plus(stands, digits[lie.entry*m+j].Mul(zrOf(new(big.Int).Lsh(big.NewInt(1), uint(j)))))
	}

	ν, η := common.RandVec(1)[0], common.RandVec(1)[0]
	var Q *math.G1
	var x *math.Zr
	s, t := common.RandVec(n*m+n), common.RandVec(n*m)
	var R *math.G1
	makeR := func() {
		R = p.F.Mul(η)
		R.Add(msm(p.Hs, s))
		R.Add(msm(p.Fs, t))
	}
	makeR()

	dig := p.Digest()
	oracle := func(ch string, rest []byte) *math.Zr {
		return digestOf(append(lie.drop.feed(ch, input{"Q", bytesOf(Q)}, input{"R", R.Bytes()}), rest)...)
	}
	var failed error
	ask := func(k byte) *math.Zr {
		if lie.oracle != nil {
			y0, y1, err := lie.oracle.y(V, W, Q, R)
			if err != nil {
				failed = err
				return rnd()
			}
			return []*math.Zr{y0, y1}[k]
		}
		b := append([]byte{k}, dig...)
		if lie.drop["y/x"] {
			return oracle("y", b)
		}
		return oracle("y", append(b, x.Bytes()...))
	}
	makeQ := func() {
		Q = p.F.Mul(ν)
		Q.Add(msm(p.Hs, append(append(common.Vec{}, digits...), wQ...)))
		Q.Add(msm(p.Fs, wCaret))
	}
	askX := func() *math.Zr {
		if lie.oracle != nil {
			x, err := lie.oracle.x(V, W, Q)
			if err != nil {
				failed = err
				return rnd()
			}
			return x
		}
		return digestOf(append([][]byte{p.Digest()}, lie.drop.feed("x", input{"V", V.Bytes()}, input{"W", W.Bytes()}, input{"Q", bytesOf(Q)})...)...)
	}
	if lie.kind == "late" && lie.late == "Qy" {
		// y is known before Q: w = y1 (1 - d) / (y1 + d) solves
		// y1 (d + w - 1) + d w = 0
		if lie.oracle != nil {
			makeQ()
		} else if !lie.drop["y/Q"] || !lie.drop["x/Q"] && !lie.drop["y/x"] {
			return nil, fmt.Errorf("y depends on Q")
		} else if lie.drop["x/Q"] {
			x = askX()
		}
		y1 := ask(1)
		for i := 0; i < n*m; i++ {
			wCaret[i] = minus(curve.NewZrFromInt(1), digits[i]).Mul(y1).Mul(inv(plus(y1, digits[i])))
		}
	}
	makeQ()
	if lie.kind == "late" && lie.late == "V" {
		wQ[lie.entry] = common.RandVec(1)[0]
		makeQ()
	}
	x = askX()
	if lie.kind == "late" {
		k := lie.entry
		switch lie.late {
		case "V": // v + x w = digits + x wQ
			v[k] = plus(stands, minus(wQ[k], w[k]).Mul(x))
			vs[k] = residue(v[k])
			vRdx[k] = v[k]
			V = p.F.Mul(zrOf(r))
			V.Add(msm(p.Gs, v))
		case "W":
			w[k] = plus(wQ[k], minus(stands, v[k]).Mul(inv(x)))
			W = p.F.Mul(rPrime)
			W.Add(msm(p.Gs, w))
		case "Q":
			wQ[k] = plus(w[k], minus(v[k], stands).Mul(inv(x)))
			makeQ()
		}
	}
	vBits := append(append(common.Vec{}, digits...), wQ...)

	γ := minus(curve.NewZrFromInt(0), plus(zrOf(r), x.Mul(rPrime)))
	U := p.F.Mul(γ)
	U.Add(V)
	U.Add(W.Mul(x))

	ppRdx := &bp.PP{G: p.Gs, U: common.RandGenVec(1, "U range proof")[0]}
	ppRdx.RecomputeDigest()
	wRdx := make(common.Vec, n)
	for i := range wRdx {
		wRdx[i] = plus(vRdx[i], w[i].Mul(x))
	}
	var Δ [][3]*math.G1
	var xs common.Vec
	var u *math.Zr
	if lie.kind == "ir" && lie.how == "final" {
		Δ, xs, u = reduceFrom(ppRdx, wRdx, U)
	} else if lie.kind == "ir" && strings.HasPrefix(lie.how, "late") {
		real := append(common.Vec{}, wRdx...)
		for i := range real {
			real[i] = plus(v[i], w[i].Mul(x))
		}
		Δ, xs, u = reduceLate(ppRdx, real, wRdx, U, lie.late, lie.digit, lie.drop)
	} else {
		Δ, xs, u = bp.IterativeReduce(ppRdx, wRdx, U)
	}
	xs = xs.Reverse()

	f := make(common.Vec, n)
	for i := 0; i < n; i++ {
		bs := make([]uint8, bits.Len16(uint16(n-1)))
		for j := range bs {
			bs[j] = uint8(i >> uint(j) & 1)
		}
		f[i] = xs.PowBitVec(bs).Product()
	}
	var d common.Vec
	for i := 0; i < n; i++ {
		for j := 0; j < m; j++ {
			d = append(d, zrOf(new(big.Int).Lsh(big.NewInt(1), uint(j))).Mul(f[i]))
		}
	}
	for i := 0; i < n; i++ {
		d = append(d, f[i].Mul(x))
	}

	y0, y1 := ask(0), ask(1)
	y0v := common.PowerSeries(n*m, y0)

	y1sq := y1.Mul(y1)
	N := n*m + n
	aPrime := make(common.Vec, N)
	bPrime := make(common.Vec, N)
	tv := make(common.Vec, N) // y0v * t, padded
	for i := 0; i < N; i++ {
		aPrime[i] = vBits[i]
		bPrime[i] = d[i].Mul(y1sq)
		tv[i] = curve.NewZrFromInt(0)
		if i < n*m {
			aPrime[i] = plus(vBits[i], y1)
			bPrime[i] = plus(bPrime[i], plus(y0v[i].Mul(y1), wCaret[i].Mul(y0v[i])))
			tv[i] = y0v[i].Mul(t[i])
		}
	}
	c1 := plus(aPrime.InnerProd(tv), s.InnerProd(bPrime))
	c2 := s.InnerProd(tv)
	τ1, τ2 := common.RandVec(1)[0], common.RandVec(1)[0]
	C1, C2 := p.G.Mul(c1), p.G.Mul(c2)
	C1.Add(p.H.Mul(τ1))
	C2.Add(p.H.Mul(τ2))

	askZ := func() *math.Zr {
		if lie.oracle != nil {
			z, err := lie.oracle.z(V, W, Q, R, y0, y1, c1, c2, τ1, τ2)
			if err != nil {
				failed = err
				return rnd()
			}
			return z
		}
		zb := append([]byte{}, dig...)
		for _, b := range lie.drop.feed("z", input{"C1", C1.Bytes()}, input{"C2", C2.Bytes()}, input{"y", append(append([]byte{}, y0.Bytes()...), y1.Bytes()...)}) {
			zb = append(zb, b...)
		}
		return oracle("z", zb)
	}
	z := askZ()
	if failed != nil {
		return nil, failed
	}
	zsq := z.Mul(z)
	// the constant the verifier computes
	β1, β3 := curve.NewZrFromInt(0), curve.NewZrFromInt(0)
	for i := 0; i < n*m; i++ {
		β1, β3 = plus(β1, y0v[i]), plus(β3, d[i])
	}
	c0 := plus(β3.Mul(y1sq.Mul(y1)), plus(y1sq.Mul(plus(u, β1)), β1.Mul(y1)))
	if lie.kind == "late" {
		switch lie.late {
		case "C1": // <a', b'> is not c0: let C1 make up for it
			c1 = plus(c1, minus(aPrime.InnerProd(bPrime), c0).Mul(inv(z)))
			C1 = p.G.Mul(c1)
			C1.Add(p.H.Mul(τ1))
		case "C2":
			c2 = plus(c2, minus(aPrime.InnerProd(bPrime), c0).Mul(inv(zsq)))
			C2 = p.G.Mul(c2)
			C2.Add(p.H.Mul(τ2))
		case "R": // <a', b'> + z (<a', tv> + <s, b'>) + z^2 <s, tv> = c0 + c1 z + c2 z^2
			δ := minus(c0, aPrime.InnerProd(bPrime))
			g := plus(bPrime[0].Mul(z), tv[0].Mul(zsq))
			s[0] = plus(s[0], δ.Mul(inv(g)))
			makeR()
		}
	}

	zero := curve.NewZrFromInt(0)
	ρ := minus(zero, plus(ν, η.Mul(z)))
	τ := plus(τ1.Mul(z), τ2.Mul(zsq))

	Fprime := p.Fs.MulV(common.PowerSeries(len(p.Fs), inv(y0)))
	a, b := make(common.Vec, N), make(common.Vec, N)
	for i := range a {
		a[i] = plus(aPrime[i], s[i].Mul(z))
		b[i] = plus(bPrime[i], tv[i].Mul(z))
	}
	c := a.InnerProd(b)

	ipaPP := &bp.PP{U: common.RandGenVec(1, "u")[0], G: p.Hs, H: Fprime}
	ipaPP.RecomputeDigest()
	if lie.how == "ipa" {
		// claim the inner product that satisfies the last equation
		c = plus(c0, plus(c1.Mul(z), c2.Mul(zsq)))
	}
	Π := proveProduct(ipaPP, a, b, c, nil, lie.ipa)

	rp := &bp.RangeProof{}
	st := &setter{v: rp}
	st.set("Δ", Δ)
	st.set("u", u)
	st.set("W", W)
	st.set("γ", γ)
	st.set("Π", Π)
	st.set("c", c)
	st.set("Q", Q)
	st.set("R", R)
	st.set("C1", C1)
	st.set("C2", C2)
	st.set("τ", τ)
	st.set("ρ", ρ)
	if st.bad != "" {
		return nil, fmt.Errorf("no field %s", st.bad)
	}
	return rp, nil
}

// reduceFrom is the reduction, except that the intermediate commitments follow
// from the given starting point rather than from the vector.
func reduceFrom(p *bp.PP, v common.Vec, V *math.G1) ([][3]*math.G1, common.Vec, *math.Zr) {
	var Δ [][3]*math.G1
	var xs common.Vec
	G := append(common.G1v{}, p.G...)
	for n := len(G) / 2; n > 0; n /= 2 {
		A, B := msm(G[:n], v[n:]), msm(G[n:], v[:n])
		h := sha256.New()
		h.Write(ro(A, B, p.Digest))
		h.Write(V.Bytes())
		x := common.FieldElementFromBytes(h.Sum(nil))
		xi := inv(x)
		next := A.Mul(x)
		next.Add(B.Mul(xi))
		next.Add(V)
		V = next
		g, u := make(common.G1v, n), make(common.Vec, n)
		for i := range g {
			g[i] = G[n+i].Mul(xi)
			g[i].Add(G[i])
			u[i] = plus(v[i], v[n+i].Mul(x))
		}
		G, v = g, u
		xs = append(xs, x)
		Δ = append(Δ, [3]*math.G1{A, B, V.Copy()})
	}
	return Δ, xs, v[0]
}

// forgeSum proves that in every vector the last entry is the sum of the others.
//
//	honest   follow the protocol
//	claim    claim the inner product the verifier will compute
//	drop-c, drop-V, drop-W  choose c last, hoping that the challenge ignores c
//	         (and V, or W)
func forgeSum(p *sum.PP, V *math.G1, vs []*big.Int, r *big.Int, how string, lie ...*ipaLie) (*sum.Proof, error) {
	n := len(p.Gs)
	v := vecOf(vs)
	w, rp := common.RandVec(n), common.RandVec(1)[0]
	W := p.F.Mul(rp)
	W.Add(msm(p.Gs, w))
	b := ones(n)
	b[n-1] = minus(curve.NewZrFromInt(0), curve.NewZrFromInt(1))
	c := w.InnerProd(b)
	ask := func(parts ...[]byte) *math.Zr {
		h := sha256.New()
		for _, x := range parts {
			h.Write(x)
		}
		return common.FieldElementFromBytes(h.Sum(nil))
	}
	x := ask(c.Bytes(), V.Bytes(), W.Bytes())
	switch how {
	case "drop-c":
		x = ask(V.Bytes(), W.Bytes())
	case "drop-cV":
		x = ask(W.Bytes())
	case "drop-cW":
		x = ask(V.Bytes())
	}
	if how != "honest" && how != "claim" {
		// <v + x w, b> = c x
		c = plus(c, v.InnerProd(b).Mul(inv(x)))
	}
	ρ := minus(curve.NewZrFromInt(0), plus(zrOf(r), rp.Mul(x)))
	a := make(common.Vec, n)
	for i := range a {
		a[i] = plus(v[i], w[i].Mul(x))
	}
	ipaPP := &bp.PP{G: p.Gs, H: p.H, U: p.U}
	ipaPP.RecomputeDigest()
	product := a.InnerProd(b)
	if how == "claim" {
		product = c.Mul(x)
	}
	res := &sum.Proof{W: W}
	st := &setter{v: res}
	st.set("c", c)
	st.set("ρ", ρ)
	st.set("π", proveProduct(ipaPP, a, b, product, nil, theIPALie(lie)))
	if st.bad != "" {
		return nil, fmt.Errorf("no field %s", st.bad)
	}
	return res, nil
}

// forgeEqualities proves that vs[k][I[k]] = ws[k][J[k]] for all k.
//
//	honest   follow the protocol, with the entries of vs
//	w        follow the protocol, with the entries of ws
//	claim    claim the value that satisfies the pairing equation
//	proverI, proverJ give the positions the prover uses, which need not be the
//	verifier's
func forgeEqualities(e *poe.Equalities, vs, ws []common.Vec, how string, I, J []int, lie ...*ipaLie) (*poe.AggregatedProof, error) {
	return forgeBatch(e, vs, ws, nil, how, I, J, lie...)
}

// forgeBatch is forgeEqualities with the values of the pairs given.
func forgeBatch(e *poe.Equalities, vs, ws []common.Vec, values common.Vec, how string, I, J []int, lie ...*ipaLie) (*poe.AggregatedProof, error) {
	m, n := len(e.V), e.PP.PP.N
	if I == nil {
		I = e.I
	}
	if J == nil {
		J = e.J
	}
	g1s := e.PP.PP.G1s
	rnd := func() *math.Zr { return common.RandVec(1)[0] }
	Va, Wa := make(common.G1v, m), make(common.G1v, m)
	u, ν, η := make(common.Vec, m), make(common.Vec, m), make(common.Vec, m)
	for k := 0; k < m; k++ {
		u[k], ν[k], η[k] = rnd(), rnd(), rnd()
		Va[k] = g1s[I[k]].Mul(u[k])
		Va[k].Add(g1s[n-1].Mul(ν[k]))
		Wa[k] = g1s[J[k]].Mul(u[k])
		Wa[k].Add(g1s[n-1].Mul(η[k]))
	}
	var ge common.G1v
	for _, l := range []common.G1v{Va, Wa, e.V, e.W} {
		ge = append(ge, l...)
	}
	x := e.RO(ge, nil, e.PP.Digest, 1)[0]
	r1, r2 := rnd(), rnd()
	v := make(common.Vec, m)
	for k := range v {
		v[k] = vs[k][I[k]]
		if how == "w" {
			v[k] = ws[k][J[k]]
		}
		if values != nil {
			v[k] = values[k]
		}
	}
	U, V := e.PP.F.Mul(r1), e.PP.F.Mul(r2)
	U.Add(msm(e.PP.G, u))
	V.Add(msm(e.PP.G, v))
	ge = append(ge, U, V)
	ts := e.RO(ge, nil, e.PP.Digest, 2*m)

	Ω := identity()
	c := curve.NewZrFromInt(0)
	a, b := make(common.Vec, m), make(common.Vec, m)
	for k := 0; k < m; k++ {
		// openings of V + x Vaggr and W + x Waggr
		_, o1 := pp.Open(e.PP.PP, I[k], vs[k])
		_, o2 := pp.Open(e.PP.PP, J[k], ws[k])
		o1 = o1.Copy()
		o2 = o2.Copy()
		o1.Add(g1s[len(g1s)-1-I[k]].Mul(ν[k]).Mul(x))
		o2.Add(g1s[len(g1s)-1-J[k]].Mul(η[k]).Mul(x))
		Ω.Add(o1.Mul(ts[2*k]))
		Ω.Add(o2.Mul(ts[2*k+1]))
		a[k] = plus(u[k].Mul(x), v[k])
		b[k] = plus(ts[2*k], ts[2*k+1])
		c = plus(c, plus(vs[k][I[k]], u[k].Mul(x)).Mul(ts[2*k]))
		c = plus(c, plus(ws[k][J[k]], u[k].Mul(x)).Mul(ts[2*k+1]))
	}
	ρ := minus(curve.NewZrFromInt(0), plus(r1.Mul(x), r2))
	P := e.PP.F.Mul(ρ)
	P.Add(U.Mul(x))
	P.Add(V)
	P.Add(msm(e.PP.H, b))

	bpPP := &bp.PP{U: common.RandGenVec(1, "u")[0], G: e.PP.G, H: e.PP.H}
	bpPP.RecomputeDigest()
	if how != "claim" {
		c = a.InnerProd(b)
	}
	res := &poe.AggregatedProof{U: U, V: V, Ω: Ω, Vaggr: Va, Waggr: Wa, IPP: proveProduct(bpPP, a, b, c, P, theIPALie(lie))}
	st := &setter{v: res}
	st.set("ρ", ρ)
	st.set("c", c)
	if st.bad != "" {
		return nil, fmt.Errorf("no field %s", st.bad)
	}
	return res, nil
}
