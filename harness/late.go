package main

import (
	"crypto/sha256"
	"fmt"
	"math/big"

	"pol/bp"
	"pol/common"
	"pol/poe"
	"pol/pp"
	"pol/sum"

	math "github.com/IBM/mathlib"
)

// The provers in this file suspect that a challenge does not depend on all it
// should (FiatShamir.tla): they choose the component that was left out after
// they know the challenge.

// omitted says which inputs are left out of which challenges ("x/V").  With
// "next" or "prev", they are replaced by the following or preceding input.
type omitted map[string]bool

type input struct {
	name string
	b    []byte
}

func (o omitted) feed(ch string, in ...input) [][]byte {
	var res [][]byte
	find := func(i, step int) []byte {
		for j := i + step; j >= 0 && j < len(in); j += step {
			if !o[ch+"/"+in[j].name] {
				return in[j].b
			}
		}
		return nil
	}
	for i, x := range in {
		if !o[ch+"/"+x.name] {
			res = append(res, x.b)
			continue
		}
		for _, s := range []struct {
			how  string
			a, b int
		}{{"next", 1, -1}, {"prev", -1, 1}} {
			if !o[s.how] {
				continue
			}
			b := find(i, s.a)
			if b == nil {
				b = find(i, s.b)
			}
			if b != nil {
				res = append(res, b)
			}
		}
	}
	return res
}

func digestOf(parts ...[]byte) *math.Zr {
	h := sha256.New()
	for _, p := range parts {
		h.Write(p)
	}
	return common.FieldElementFromBytes(h.Sum(nil))
}

func rnd() *math.Zr { return common.RandVec(1)[0] }

func neg(a *math.Zr) *math.Zr { return minus(curve.NewZrFromInt(0), a) }

func sumMask(n int) common.Vec {
	b := ones(n)
	b[n-1] = neg(curve.NewZrFromInt(1))
	return b
}

func dot(a, b common.Vec) *math.Zr {
	acc := curve.NewZrFromInt(0)
	for i := range a {
		acc = plus(acc, a[i].Mul(b[i]))
	}
	return acc
}

// adaptSum argues that the last entry of v is the sum of the others.
// It returns the vector it ended up committing to.
func adaptSum(p *sum.PP, v common.Vec, r *math.Zr, drop omitted, late string) (*math.G1, common.Vec, *sum.Proof, error) {
	n := len(p.Gs)
	v = append(common.Vec{}, v...)
	b := sumMask(n)
	w, rp := common.RandVec(n), rnd()
	commitV := func() *math.G1 {
		V := p.F.Mul(r)
		V.Add(msm(p.Gs, v))
		return V
	}
	commitW := func() *math.G1 {
		W := p.F.Mul(rp)
		W.Add(msm(p.Gs, w))
		return W
	}
	V, W := commitV(), commitW()
	c := dot(w, b)
	if late == "V" || late == "W" {
		c = plus(c, rnd())
	}
	ask := func() *math.Zr {
		return digestOf(drop.feed("x", input{"c", c.Bytes()}, input{"V", V.Bytes()}, input{"W", W.Bytes()})...)
	}
	x := ask()
	// wanted: <v + x w, b> = c x
	missing := minus(c.Mul(x), plus(dot(v, b), dot(w, b).Mul(x)))
	switch late {
	case "c":
		c = minus(c, missing.Mul(inv(x)))
	case "V":
		v[0] = plus(v[0], missing)
		V = commitV()
	case "W":
		w[0] = plus(w[0], missing.Mul(inv(x)))
		W = commitW()
	}
	ρ := neg(plus(r, rp.Mul(x)))
	a := make(common.Vec, n)
	for i := range a {
		a[i] = plus(v[i], w[i].Mul(x))
	}
	ipaPP := &bp.PP{G: p.Gs, H: p.H, U: p.U}
	ipaPP.RecomputeDigest()
	res := &sum.Proof{W: W}
	st := &setter{v: res}
	st.set("c", c)
	st.set("ρ", ρ)
	st.set("π", bp.NewInnerProdArgument(ipaPP, a, b).Prove())
	if st.bad != "" {
		return nil, nil, nil, fmt.Errorf("no field %s", st.bad)
	}
	return V, v, res, nil
}

// adaptIPA argues that <a, b> = C for the vectors committed to in P.  It
// returns what it claims, and the vectors P commits to; shifted tells that P
// is not the commitment of two vectors.
func adaptIPA(p *bp.PP, a, b common.Vec, C *math.Zr, drop omitted, late string, round int) (P *math.G1, c *math.Zr, va, vb common.Vec, shifted bool, proof *bp.InnerProductProof, err error) {
	n := len(p.G)
	va, vb = append(common.Vec{}, a...), append(common.Vec{}, b...)
	true_ := dot(a, b)
	P = msm(p.G, a)
	P.Add(msm(p.H, b))
	c = C
	ask0 := func() *math.Zr {
		return digestOf(drop.feed("x0", input{"P", P.Bytes()}, input{"C", c.Bytes()}, input{"pp", p.Digest})...)
	}
	x0 := ask0()
	switch late {
	case "P": // P + x0 c U = commitment + x0 <a,b> U
		P.Add(p.U.Mul(x0.Mul(minus(true_, c))))
		shifted = true
	case "C":
		P = msm(p.G, a)
		P.Add(msm(p.H, b))
		δ := rnd()
		P.Add(p.U.Mul(δ))
		x0 = ask0()
		c = minus(true_, δ.Mul(inv(x0)))
		shifted = true
	}
	inst := func() *bp.PP {
		q := &bp.PP{G: p.G, H: p.H, U: p.U.Mul(x0)}
		q.RecomputeDigest()
		return q
	}
	q := inst()
	var LRs []*math.G1
	set := func(x, y *math.Zr, P *math.G1, c *math.Zr) {
		proof = &bp.InnerProductProof{LRs: LRs, P: P, C: c}
		st := &setter{v: proof}
		st.set("a", x)
		st.set("b", y)
		if st.bad != "" {
			err = fmt.Errorf("no field %s", st.bad)
		}
	}
	G, H := append(common.G1v{}, p.G...), append(common.G1v{}, p.H...)
	fold := func(x *math.Zr) {
		k := len(G) / 2
		xi := inv(x)
		g, h := make(common.G1v, k), make(common.G1v, k)
		for i := 0; i < k; i++ {
			g[i] = G[i].Mul(xi)
			g[i].Add(G[k+i].Mul(x))
			h[i] = H[i].Mul(x)
			h[i].Add(H[k+i].Mul(xi))
		}
		G, H = g, h
	}
	// the rounds depend on x0 through the generator in the digest
	roundDigest := func() []byte {
		if !drop["x1/x0"] {
			return q.Digest
		}
		if drop["next"] || drop["prev"] {
			return p.Digest
		}
		return nil
	}
	askR := func(i int, L, R *math.G1) *math.Zr {
		l, r := fmt.Sprintf("L%d", i), fmt.Sprintf("R%d", i)
		return digestOf(append(drop.feed(fmt.Sprintf("x%d", i), input{l, L.Bytes()}, input{r, R.Bytes()}), roundDigest())...)
	}
	if late == "P" && drop["x1/x0"] {
		// rounds first: L = l G1, R = r G1 have no U part
		shifted = false
		var xs, ls, rs common.Vec
		for i, k := 1, n; k > 1; i, k = i+1, k/2 {
			l, r := rnd(), rnd()
			L, R := p.G[0].Mul(l), p.G[0].Mul(r)
			x := digestOf(L.Bytes(), R.Bytes(), roundDigest())
			LRs = append(LRs, L, R)
			xs, ls, rs = append(xs, x), append(ls, l), append(rs, r)
		}
		// coefficients of the folded generators
		s := ones(n)
		for i := range s {
			for j, x := range xs {
				if i>>(uint(len(xs)-1-j))&1 == 1 {
					s[i] = s[i].Mul(x)
				} else {
					s[i] = s[i].Mul(inv(x))
				}
			}
		}
		fa, fb := rnd(), rnd()
		for i := range s {
			va[i] = s[i].Mul(fa)
			vb[i] = inv(s[i]).Mul(fb)
		}
		for j, x := range xs {
			sq := x.Mul(x)
			va[0] = minus(va[0], plus(ls[j].Mul(sq), rs[j].Mul(inv(sq))))
		}
		P = msm(p.G, va)
		P.Add(msm(p.H, vb))
		c = fa.Mul(fb)
		set(fa, fb, P, c)
		return
	}
	x, y := append(common.Vec{}, a...), append(common.Vec{}, b...)
	// the verifier sees a U part of x0 c; ours is x0 <a, b>
	gap := minus(true_, c)
	if shifted {
		gap = curve.NewZrFromInt(0)
	}
	for i := 1; len(x) > 1; i++ {
		k := len(x) / 2
		L := msm(G[k:], x[:k])
		L.Add(msm(H[:k], y[k:]))
		L.Add(q.U.Mul(dot(x[:k], y[k:])))
		R := msm(G[:k], x[k:])
		R.Add(msm(H[k:], y[:k]))
		R.Add(q.U.Mul(dot(x[k:], y[:k])))
		ch := askR(i, L, R)
		if i == round {
			switch late {
			case "L":
				L.Add(q.U.Mul(gap.Mul(inv(ch.Mul(ch)))))
			case "R":
				R.Add(q.U.Mul(gap.Mul(ch.Mul(ch))))
			}
		}
		LRs = append(LRs, L, R)
		fold(ch)
		ci := inv(ch)
		nx, ny := make(common.Vec, k), make(common.Vec, k)
		for j := 0; j < k; j++ {
			nx[j] = plus(x[j].Mul(ch), x[k+j].Mul(ci))
			ny[j] = plus(y[j].Mul(ci), y[k+j].Mul(ch))
		}
		x, y = nx, ny
	}
	set(x[0], y[0], P, c)
	return
}

// reduceLate reduces a vector, but folds another one from the given round on;
// A or B of that round is chosen after the challenge.
func reduceLate(p *bp.PP, v, claim common.Vec, V *math.G1, late string, round int, drop omitted) ([][3]*math.G1, common.Vec, *math.Zr) {
	var Δ [][3]*math.G1
	var xs common.Vec
	G := append(common.G1v{}, p.G...)
	k := 0
	for n := len(G); n > 1; n /= 2 {
		k++
	}
	round = round%k + 1
	for n, i := len(G)/2, 1; n > 0; n, i = n/2, i+1 {
		A, B := msm(G[:n], v[n:]), msm(G[n:], v[:n])
		inner := sha256.New()
		for _, b := range drop.feed("x1", input{"A1", A.Bytes()}, input{"B1", B.Bytes()}) {
			inner.Write(b)
		}
		inner.Write(p.Digest)
		x := digestOf(drop.feed("x1", input{"", inner.Sum(nil)}, input{"V0", V.Bytes()})...)
		xi := inv(x)
		foldV := func(v common.Vec) common.Vec {
			u := make(common.Vec, n)
			for j := range u {
				u[j] = plus(v[j], v[n+j].Mul(x))
			}
			return u
		}
		g := make(common.G1v, n)
		for j := range g {
			g[j] = G[n+j].Mul(xi)
			g[j].Add(G[j])
		}
		v, claim = foldV(v), foldV(claim)
		G = g
		if i == round && late != "V" {
			v = claim
			next := msm(G, v)
			miss := next.Copy()
			miss.Sub(V)
			switch late {
			case "A":
				miss.Sub(B.Mul(xi))
				A = miss.Mul(xi)
			case "B":
				miss.Sub(A.Mul(x))
				B = miss.Mul(x)
			}
		}
		next := A.Mul(x)
		next.Add(B.Mul(xi))
		next.Add(V)
		V = next
		xs = append(xs, x)
		Δ = append(Δ, [3]*math.G1{A, B, V.Copy()})
	}
	return Δ, xs, v[0]
}

// reduceBackwards chooses all rounds first and the vector afterwards; it works
// if the challenges do not depend on the commitments (but maybe on something
// else instead).
func reduceBackwards(p *bp.PP, instead string) (V *math.G1, v common.Vec, Δ [][3]*math.G1, xs common.Vec, u *math.Zr) {
	n := len(p.G)
	v = zeros(n)
	u = rnd()
	for k := n / 2; k > 0; k /= 2 {
		a, b := rnd(), rnd()
		i, j := k%n, (k+1)%n
		A, B := p.G[i].Mul(a), p.G[j].Mul(b)
		inner := sha256.New()
		inner.Write(A.Bytes())
		inner.Write(B.Bytes())
		inner.Write(p.Digest)
		in := [][]byte{inner.Sum(nil)}
		switch instead {
		case "A":
			in = append(in, A.Bytes())
		case "B":
			in = append(in, B.Bytes())
		case "digest":
			in = append(in, p.Digest)
		case "inner":
			in = append(in, in[0])
		}
		x := digestOf(in...)
		v[i] = minus(v[i], a.Mul(x))
		v[j] = minus(v[j], b.Mul(inv(x)))
		xs = append(xs, x)
		Δ = append(Δ, [3]*math.G1{A, B, nil})
	}
	s := foldWeights(xs, n, true)
	for i := range v {
		v[i] = plus(v[i], s[i].Mul(u))
	}
	V = msm(p.G, v)
	prev := V
	for i, x := range xs {
		next := Δ[i][0].Mul(x)
		next.Add(Δ[i][1].Mul(inv(x)))
		next.Add(prev)
		Δ[i][2] = next
		prev = next
	}
	return
}

// foldWeights gives the weight of each entry in the folded value (of each
// generator in the folded generator).
func foldWeights(xs common.Vec, n int, generators bool) common.Vec {
	s := ones(n)
	for i := range s {
		for j, x := range xs {
			if i>>(uint(len(xs)-1-j))&1 == 1 {
				if generators {
					s[i] = s[i].Mul(inv(x))
				} else {
					s[i] = s[i].Mul(x)
				}
			}
		}
	}
	return s
}

// A transcript tells what the verifier of an equality argument hashes, in
// order; it is recorded from the verifier itself.
type transcript map[string][]label

type label struct {
	name string
	k    int
	g    *math.G1 // something else

	ignored bool // handed to the hash function, which does not look at it
}

func (t transcript) has(ch, name string, k int) bool {
	for _, l := range t[ch] {
		if l.name == name && l.k == k && !l.ignored {
			return true
		}
	}
	return false
}

func (t transcript) named(ch, name string, k int) bool {
	for _, l := range t[ch] {
		if l.name == name && l.k == k {
			return true
		}
	}
	return false
}

func (t transcript) list(ch string, vals map[string]common.G1v) (res common.G1v) {
	for _, l := range t[ch] {
		if l.name == "" {
			res = append(res, l.g)
		} else {
			res = append(res, vals[l.name][l.k])
		}
	}
	return
}

// record names what was hashed.
func (t transcript) record(ch string, gs common.G1v, heeded func(i int) bool, names []string, vals map[string]common.G1v) {
	if t[ch] != nil {
		return
	}
	t[ch] = []label{}
	for i, g := range gs {
		l := label{g: g.Copy(), ignored: !heeded(i)}
		for _, n := range names {
			for k, x := range vals[n] {
				// the same element may stand for several components
				if l.name == "" && x.Equals(g) && !t.named(ch, n, k) {
					l.name, l.k = n, k
				}
			}
		}
		t[ch] = append(t[ch], l)
	}
}

// adaptEquality argues that v[I] = w[J].  It returns the vectors it ended up
// committing to.  same tells that both sides are thought to be weighted alike.
func adaptEquality(p *poe.PP, v, w common.Vec, I, J int, plan transcript, late string, same int) (*poe.Equality, common.Vec, common.Vec, *poe.Proof) {
	n := p.PP.N
	v, w = append(common.Vec{}, v...), append(common.Vec{}, w...)
	g1s := p.PP.G1s
	uv, uw, ν, η := rnd(), rnd(), rnd(), rnd()
	if late == "C" || late == "same" || late == "" {
		uw = uv
	}
	mask := func(i int, u, blind *math.Zr) *math.G1 {
		g := g1s[i].Mul(u)
		g.Add(g1s[n-1].Mul(blind))
		return g
	}
	commit := func(m common.Vec) *math.G1 {
		acc := identity()
		for i := range m {
			acc.Add(g1s[i].Mul(m[i]))
		}
		return acc
	}
	V, W, Va, Wa := commit(v), commit(w), mask(I, uv, ν), mask(J, uw, η)
	x := poe.RO(plan.list("x", map[string]common.G1v{"V": {V}, "W": {W}, "Va": {Va}, "Wa": {Wa}}), nil, p.Digest, 1)[0]
	xi := inv(x)
	// wanted: v + x uv = w + x uw
	switch late {
	case "V":
		v[I] = plus(w[J], minus(uw, uv).Mul(x))
		V = commit(v)
	case "W":
		w[J] = plus(v[I], minus(uv, uw).Mul(x))
		W = commit(w)
	case "Va":
		uv = plus(uw, minus(w[J], v[I]).Mul(xi))
		Va = mask(I, uv, ν)
	case "Wa":
		uw = plus(uv, minus(v[I], w[J]).Mul(xi))
		Wa = mask(J, uw, η)
	}
	c1, c2 := plus(v[I], uv.Mul(x)), plus(w[J], uw.Mul(x))
	C := c1
	if late == "same" {
		C = plus(c1, c2).Mul(inv(curve.NewZrFromInt(2)))
	}
	ts := poe.RO(plan.list("ts", map[string]common.G1v{"V": {V}, "W": {W}, "Va": {Va}, "Wa": {Wa}, "Vax": {Va.Mul(x)}, "Wax": {Wa.Mul(x)}, "C": {curve.GenG1.Mul(C)}}),
		[]int{I, J}, p.Digest, 2)
	t0, t1 := ts[0], ts[1]
	if late == "same" {
		t0, t1 = ts[same], ts[same]
	}
	if late == "C" {
		C = plus(c1.Mul(t0), c2.Mul(t1)).Mul(inv(plus(t0, t1)))
	}
	_, o1 := pp.Open(p.PP, I, v)
	_, o2 := pp.Open(p.PP, J, w)
	o1, o2 = o1.Copy(), o2.Copy()
	o1.Add(g1s[len(g1s)-1-I].Mul(ν.Mul(x)))
	o2.Add(g1s[len(g1s)-1-J].Mul(η.Mul(x)))
	Ω := o1.Mul(t0)
	Ω.Add(o2.Mul(t1))
	e := &poe.Equality{RO: poe.RO, PP: p, V: V, W: W, I: I, J: J}
	return e, v, w, &poe.Proof{C: C, V: Va, W: Wa, Ω: Ω}
}

// weighting tells which challenges a prover expects pair k to be weighted with.
var weightings = map[string]func(k int) (int, int){
	"":       func(k int) (int, int) { return 2 * k, 2*k + 1 },
	"evens":  func(k int) (int, int) { return 2 * k, 2 * k },
	"odds":   func(k int) (int, int) { return 2*k + 1, 2*k + 1 },
	"half":   func(k int) (int, int) { return k, k },
	"first":  func(k int) (int, int) { return 0, 1 },
	"first1": func(k int) (int, int) { return 0, 0 },
}

// adaptEqualities argues that vs[k][I[k]] = ws[k][J[k]] for all k.  The entries
// of pair bad (and, for some weightings, of the next one) differ.
func adaptEqualities(p *poe.PP, vs, ws []common.Vec, I, J []int, bad int, plan transcript, late, weighting string) (*poe.Equalities, []common.Vec, []common.Vec, *poe.AggregatedProof, error) {
	m, n := len(vs), p.PP.N
	g1s := p.PP.G1s
	copyAll := func(x []common.Vec) []common.Vec {
		y := make([]common.Vec, len(x))
		for i := range x {
			y[i] = append(common.Vec{}, x[i]...)
		}
		return y
	}
	vs, ws = copyAll(vs), copyAll(ws)
	uv, uw, ν, η := common.RandVec(m), make(common.Vec, m), common.RandVec(m), common.RandVec(m)
	copy(uw, uv)
	if late == "V" || late == "W" {
		uw[bad] = rnd()
	}
	commit := func(m common.Vec) *math.G1 {
		acc := identity()
		for i := range m {
			acc.Add(g1s[i].Mul(m[i]))
		}
		return acc
	}
	mask := func(i int, u, blind *math.Zr) *math.G1 {
		g := g1s[i].Mul(u)
		g.Add(g1s[n-1].Mul(blind))
		return g
	}
	V, W, Va, Wa := make(common.G1v, m), make(common.G1v, m), make(common.G1v, m), make(common.G1v, m)
	remake := func() {
		for k := 0; k < m; k++ {
			V[k], W[k] = commit(vs[k]), commit(ws[k])
			Va[k], Wa[k] = mask(I[k], uv[k], ν[k]), mask(J[k], uw[k], η[k])
		}
	}
	remake()
	vals := func() map[string]common.G1v { return map[string]common.G1v{"V": V, "W": W, "Va": Va, "Wa": Wa} }
	askX := func() *math.Zr { return poe.RO(plan.list("x", vals()), nil, p.Digest, 1)[0] }
	x := askX()
	xi := inv(x)
	k := bad
	switch late {
	case "V":
		vs[k][I[k]] = plus(ws[k][J[k]], minus(uw[k], uv[k]).Mul(x))
	case "W":
		ws[k][J[k]] = plus(vs[k][I[k]], minus(uv[k], uw[k]).Mul(x))
	case "Va":
		uv[k] = plus(uw[k], minus(ws[k][J[k]], vs[k][I[k]]).Mul(xi))
	case "Wa":
		uw[k] = plus(uv[k], minus(vs[k][I[k]], ws[k][J[k]]).Mul(xi))
	}
	remake()
	// what the Pedersen commitments hold
	u, v := make(common.Vec, m), make(common.Vec, m)
	for k := range v {
		u[k], v[k] = uw[k], ws[k][J[k]]
	}
	if late == "Vts" || late == "Wts" {
		v[k] = rnd()
	}
	half := inv(curve.NewZrFromInt(2))
	if weighting == "evens" || weighting == "odds" || weighting == "half" || weighting == "first1" {
		for k := range v {
			v[k] = plus(vs[k][I[k]], ws[k][J[k]]).Mul(half)
		}
	}
	r1, r2 := rnd(), rnd()
	ped := func(r *math.Zr, m common.Vec) *math.G1 {
		g := p.F.Mul(r)
		g.Add(msm(p.G, m))
		return g
	}
	U, PV := ped(r1, u), ped(r2, v)
	askTs := func() common.Vec {
		l := vals()
		l["U"], l["PV"] = common.G1v{U}, common.G1v{PV}
		num := 2 * m
		if weighting == "half" {
			num = m
		}
		return poe.RO(plan.list("ts", l), nil, p.Digest, num)
	}
	ts := askTs()
	pick := weightings[weighting]
	tv, tw := make(common.Vec, m), make(common.Vec, m)
	for k := 0; k < m; k++ {
		i, j := pick(k)
		tv[k], tw[k] = ts[i], ts[j]
	}
	if late == "Vts" || late == "Wts" {
		// v tv + w tw = PV (tv + tw), whatever x will be
		if late == "Vts" {
			vs[k][I[k]] = minus(v[k].Mul(plus(tv[k], tw[k])), ws[k][J[k]].Mul(tw[k])).Mul(inv(tv[k]))
		} else {
			ws[k][J[k]] = minus(v[k].Mul(plus(tv[k], tw[k])), vs[k][I[k]].Mul(tv[k])).Mul(inv(tw[k]))
		}
		remake()
		x = askX()
		xi = inv(x)
	}
	if late == "U" || late == "PV" {
		c := plus(plus(vs[k][I[k]], uv[k].Mul(x)).Mul(tv[k]), plus(ws[k][J[k]], uw[k].Mul(x)).Mul(tw[k])).Mul(inv(plus(tv[k], tw[k])))
		if late == "U" {
			u[k] = minus(c, v[k]).Mul(xi)
		} else {
			v[k] = minus(c, u[k].Mul(x))
		}
		U, PV = ped(r1, u), ped(r2, v)
	}
	Ω := identity()
	a, b := make(common.Vec, m), make(common.Vec, m)
	for k := 0; k < m; k++ {
		_, o1 := pp.Open(p.PP, I[k], vs[k])
		_, o2 := pp.Open(p.PP, J[k], ws[k])
		o1, o2 = o1.Copy(), o2.Copy()
		o1.Add(g1s[len(g1s)-1-I[k]].Mul(ν[k].Mul(x)))
		o2.Add(g1s[len(g1s)-1-J[k]].Mul(η[k].Mul(x)))
		Ω.Add(o1.Mul(tv[k]))
		Ω.Add(o2.Mul(tw[k]))
		a[k] = plus(u[k].Mul(x), v[k])
		b[k] = plus(tv[k], tw[k])
	}
	ρ := neg(plus(r1.Mul(x), r2))
	P := p.F.Mul(ρ)
	P.Add(U.Mul(x))
	P.Add(PV)
	P.Add(msm(p.H, b))
	bpPP := &bp.PP{U: common.RandGenVec(1, "u")[0], G: p.G, H: p.H}
	bpPP.RecomputeDigest()
	ipa := bp.NewInnerProdArgument(bpPP, a, b)
	ipa.P = P
	res := &poe.AggregatedProof{U: U, V: PV, Ω: Ω, Vaggr: Va, Waggr: Wa, IPP: ipa.Prove()}
	st := &setter{v: res}
	st.set("ρ", ρ)
	st.set("c", ipa.C)
	if st.bad != "" {
		return nil, nil, nil, nil, fmt.Errorf("no field %s", st.bad)
	}
	e := &poe.Equalities{RO: poe.RO, PP: p, V: V, W: W, I: I, J: J}
	return e, vs, ws, res, nil
}

func bigs(v common.Vec) []*big.Int {
	res := make([]*big.Int, len(v))
	for i := range v {
		res[i] = residue(v[i])
	}
	return res
}
