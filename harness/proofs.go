package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	mrand "math/rand"
	"strconv"
	"strings"

	"pol/bp"
	"pol/common"
	"pol/poe"
	"pol/pol"
	"pol/pp"
	"pol/sum"
	"pol/verkle"

	math "github.com/IBM/mathlib"
)

func init() {
	kinds["attempt"] = runAttempt
	kinds["present"] = runPresent
	kinds["tamper"] = runTamper
}

// cv is a vertex a prover knows everything about.
type cv struct {
	m    []*big.Int // values, sum, blinding factor
	V    *math.G1
	d    []*big.Int // digests; nil right above the liabilities
	W    *math.G1
	made bool // not one of the honest tree
}

func (c *cv) digest() *math.Zr { return (&verkle.Vertex{V: c.V, W: c.W}).Digest() }

func (c *cv) entries() common.Vec { return vecOf(c.m[:len(c.m)-1]) }

type attVertex struct {
	A    int `json:"a"`
	B    int `json:"b"`
	S    int `json:"s"`
	Mask int `json:"mask"`
}

type attempt struct {
	Pub   string               `json:"pub"`
	V     map[string]attVertex `json:"v"`
	W0    string               `json:"w0"`
	Dig   string               `json:"dig"`
	Sig   string               `json:"sig"`
	Len   string               `json:"len"`
	Claim int                  `json:"claim"`
	Odd   []interface{}        `json:"odd"`
}

// odd tells what is peculiar about a layer.
func (t *attempt) odd(i int) string {
	if len(t.Odd) == 2 && int(t.Odd[1].(float64)) == i {
		return t.Odd[0].(string)
	}
	return "none"
}

// attacker builds liability proofs from scratch.
type attacker struct {
	rng   *mrand.Rand
	p     *pol.PublicParams
	fan   int
	depth int
	path  []uint16
	q     int // another slot, in every layer
	unit  *big.Int
	tree  []*cv // the honest tree along the path
	id2p  func(string) []uint16
}

// honestTree lets the real code build a set with one liability and reads what
// it stored.
func honestTree(p *pol.PublicParams, path []uint16, amount int64) []*cv {
	db := &RecDB{m: map[string][]byte{}}
	ls := pol.NewLiabilitySet(p, db, parseDotted)
	var res []*cv
	if e := try(func() {
		ls.Set(dotted(path), amount)
		for i := range path {
			key := ""
			if i > 0 {
				key = "." + dotted(path[:i])
			}
			v := &verkle.Vertex{}
			v.FromBytes(db.m[key])
			c := &cv{V: v.V, W: v.W}
			for _, x := range v.Values(p.Fanout + 1) {
				c.m = append(c.m, residue(x))
			}
			c.m = append(c.m, residue(v.BlindingFactor))
			if i < len(path)-1 {
				c.d = make([]*big.Int, p.Fanout+2)
				for j := range c.d {
					c.d[j] = new(big.Int)
					if x, ok := v.Digests[uint16(j)]; ok {
						c.d[j] = residue(x)
					}
				}
			}
			res = append(res, c)
		}
	}); e != nil {
		return nil
	}
	return res
}

func (a *attacker) vertex(v attVertex, last bool, slot int, child *cv, childSlot int) *cv {
	c := &cv{made: true}
	c.m = make([]*big.Int, a.fan+2)
	for i := range c.m {
		c.m[i] = new(big.Int)
	}
	scale := func(n int) *big.Int {
		x := new(big.Int).Mul(big.NewInt(int64(n)), a.unit)
		return x.Mod(x, order)
	}
	c.m[slot] = scale(v.A)
	c.m[a.q] = scale(v.B)
	c.m[a.fan] = scale(v.S)
	c.m[a.fan+1] = residue(common.RandVec(1)[0])
	c.V = commitTo(a.p.PPPP, c.m)
	if !last {
		c.d = make([]*big.Int, a.fan+2)
		for i := range c.d {
			c.d[i] = new(big.Int)
		}
		c.d[childSlot] = residue(child.digest())
		c.W = commitTo(a.p.PPPP, c.d)
	}
	return c
}

// plan says how the parts of a proof are made.
type plan struct {
	ranges  rangeLie
	sum     string // real, claim, drop-c, ...
	eq      string // real, w, claim
	eqI     map[int]int
	eqJ     map[int]int
	openAt  map[int]int // layer -> slot the digests are opened at
	claimAt int         // slot the liability is opened at; -1: the right one
	lists   string      // changed list lengths
	witness bool        // feed wrong witnesses
}

func (a *attacker) shape(t *attempt) []*cv {
	chain := make([]*cv, a.depth)
	for i := a.depth - 1; i >= 0; i-- {
		v := t.V[strconv.Itoa(i)]
		last := i == a.depth-1
		var child *cv
		if !last {
			child = chain[i+1]
		}
		if t.odd(i) == "twin" && !last {
			continue // made with the one above
		}
		if t.odd(i+1) == "twin" && i+1 < a.depth-1 {
			child = chain[i+2]
		}
		if t.Pub == "honest" && v == (attVertex{1, 0, 1, 0}) {
			c := *a.tree[i]
			chain[i] = &c
		} else if t.Pub == "honest" && v.Mask == 2 && !last {
			c := *a.vertex(v, last, int(a.path[i]), child, int(a.path[i]))
			c.V, c.m = a.tree[i].V, a.tree[i].m
			// the W differs even if the child it commits to does not
			c.d[a.q] = residue(common.RandVec(1)[0])
			c.W = commitTo(a.p.PPPP, c.d)
			chain[i] = &c
		} else {
			chain[i] = a.vertex(v, last, int(a.path[i]), child, int(a.path[i]))
		}
		if t.odd(i) == "void" {
			chain[i].m[a.fan+1] = new(big.Int)
			chain[i].V = identity()
		}
		if t.odd(i+1) == "void" {
			chain[i].d[a.path[i]] = residue(rnd())
			chain[i].W = commitTo(a.p.PPPP, chain[i].d)
		}
		if t.odd(i) == "bare" {
			chain[i].d[a.path[i]] = new(big.Int)
			chain[i].W = identity()
		}
		if t.odd(i+1) == "twin" {
			c := *chain[i]
			if i+1 == a.depth-1 {
				c.W, c.d = nil, nil
			}
			chain[i+1] = &c
		}
		if i == 0 && t.Pub == "honest" {
			if t.W0 == "published" {
				chain[0].W, chain[0].d = a.tree[0].W, a.tree[0].d
			} else {
				c := a.vertex(v, false, int(a.path[0]), child, int(a.path[0]))
				chain[0].W, chain[0].d = c.W, c.d
			}
		}
	}
	return chain
}

// digestsOf gives the digests of the shown vertices and what the shown
// commitments open to, at the given slots.
func (a *attacker) digestsOf(chain []*cv, at []int) (shown, opened common.Vec) {
	for i := 0; i+1 < len(chain); i++ {
		shown = append(shown, chain[i+1].digest())
		opened = append(opened, zrOf(chain[i].d[at[i]]))
	}
	return
}

func (a *attacker) slots() []int {
	var res []int
	for _, x := range a.path {
		res = append(res, int(x))
	}
	return res
}

func padEq(e *poe.Equalities, vs, ws []common.Vec, p *pol.PublicParams) ([]common.Vec, []common.Vec) {
	zero := zeros(p.PPPP.N)
	for !isPow2(len(e.I)) {
		e.I, e.J = append(e.I, 0), append(e.J, 0)
		e.V, e.W = append(e.V, identity()), append(e.W, identity())
		vs, ws = append(vs, zero), append(ws, zero)
	}
	return vs, ws
}

// build makes the proof a plan describes; nil means it cannot be made.
func (a *attacker) build(chain []*cv, t *attempt, pl plan) (lp *pol.LiabilityProof, err error) {
	defer func() {
		if e := recover(); e != nil {
			lp, err = nil, fmt.Errorf("%v", e)
		}
	}()
	lp = &pol.LiabilityProof{}
	at := a.slots()
	for i, s := range pl.openAt {
		at[i] = s
	}
	n := len(chain)
	shown, opened := a.digestsOf(chain, at)
	var πs []*math.G1
	for i, c := range chain {
		lp.V = append(lp.V, c.V.Copy())
		if i < n-1 {
			lp.W = append(lp.W, c.W.Copy())
			_, π := pp.Open(a.p.PPPP, at[i], vecOf(c.d))
			πs = append(πs, π)
		}
	}
	lp.Digests = append(common.Vec{}, shown...)
	if t.Dig == "opened" {
		lp.Digests = append(common.Vec{}, opened...)
	}
	lp.Digests = append(lp.Digests, curve.NewZrFromInt(0))
	var ts common.Vec
	for i := range lp.W {
		ts = append(ts, pp.RO(a.p.PPPP, lp.W, i))
	}
	src := shown
	if t.Sig == "opened" {
		src = opened
	}
	Σ := curve.NewZrFromInt(0)
	for i := range ts {
		Σ = plus(Σ, src[i].Mul(ts[i]))
	}
	lp.PointProofΣ = Σ
	lp.PointProofπ = pp.Aggregate(a.p.PPPP, lp.W, πs, pp.RO)

	// what the prover tells the proving algorithms
	told := make([][]*big.Int, n)
	for i, c := range chain {
		told[i] = append([]*big.Int{}, c.m...)
	}
	lie := big.NewInt(0)
	if pl.witness {
		lie = big.NewInt(1 + a.rng.Int63n(1<<40))
		for i := range told {
			for _, s := range []int{int(a.path[i]), a.fan} {
				told[i][s] = new(big.Int).Add(told[i][s], lie)
			}
		}
	}
	use := func(i int) []*big.Int { // right or wrong witness
		if pl.witness && a.rng.Intn(3) > 0 {
			return told[i]
		}
		return chain[i].m
	}

	bound := two63
	for i, c := range chain {
		m := use(i)
		out := false
		for _, x := range m[:a.fan+1] {
			if x.Cmp(bound) >= 0 {
				out = true
			}
		}
		var rp *bp.RangeProof
		if out && pl.ranges.kind != "lib" || pl.ranges.kind == "honest" {
			rp, err = forgeRange(a.p.RPPP, c.V, m[:a.fan+1], m[a.fan+1], pl.ranges, a.rng)
			if err != nil {
				return nil, err
			}
		} else {
			rp = bp.ProveRange(a.p.RPPP, c.V, vecOf(m[:a.fan+1]), zrOf(m[a.fan+1]))
		}
		lp.RangeProofs = append(lp.RangeProofs, rp)
	}

	var vecs []common.Vec
	var rs common.Vec
	for i := range chain {
		m := use(i)
		vecs = append(vecs, vecOf(m[:a.fan+1]))
		rs = append(rs, zrOf(m[a.fan+1]))
	}
	lp.SumArgumentProof, err = forgeAggregatedSum(a.p.SAPP, lp.V, vecs, rs, pl.sum)
	if err != nil {
		return nil, err
	}

	e := &poe.Equalities{PP: a.p.POEPP, RO: poe.RO}
	var vs, ws []common.Vec
	for i := 0; i+1 < a.depth; i++ {
		e.I, e.J = append(e.I, int(a.path[i])), append(e.J, a.fan)
		e.V, e.W = append(e.V, chain[i].V), append(e.W, chain[i+1].V)
		vs, ws = append(vs, vecOf(use(i))), append(ws, vecOf(use(i+1)))
	}
	vs, ws = padEq(e, vs, ws, a.p)
	I, J := append([]int{}, e.I...), append([]int{}, e.J...)
	for k, s := range pl.eqI {
		I[k] = s
	}
	for k, s := range pl.eqJ {
		J[k] = s
	}
	if pl.eq == "real" {
		lp.EqualityProof = e.Prove(vs, ws)
	} else {
		lp.EqualityProof, err = forgeEqualities(e, vs, ws, pl.eq, I, J)
		if err != nil {
			return nil, err
		}
	}

	last := chain[n-1]
	slot := int(a.path[a.depth-1])
	if pl.claimAt >= 0 {
		slot = pl.claimAt
	}
	_, π := pp.Open(a.p.PPPP, slot, vecOf(last.m))
	claim := new(big.Int).Mul(big.NewInt(int64(t.Claim)), a.unit)
	if pl.witness {
		claim.Add(claim, lie)
	}
	if !claim.IsInt64() {
		return nil, fmt.Errorf("no such claim")
	}
	lp.LiabilityProof = pol.TotalProof{LiabilityProof: π, Sum: int(claim.Int64())}
	return lp, nil
}

func forgeAggregatedSum(p *sum.PP, V common.G1v, vs []common.Vec, rs common.Vec, how string) (*sum.Proof, error) {
	if how == "real" {
		return sum.NewAggregatedArgument(p, V, vs, rs), nil
	}
	h := sha(V.Bytes())
	τ := common.FieldElementFromBytes(h)
	t := curve.NewZrFromInt(1)
	Va := identity()
	va := make([]*big.Int, len(vs[0]))
	for i := range va {
		va[i] = new(big.Int)
	}
	ra := new(big.Int)
	for k := range V {
		Va.Add(V[k].Mul(t))
		tk := residue(t)
		for i := range va {
			va[i].Add(va[i], new(big.Int).Mul(residue(vs[k][i]), tk))
			va[i].Mod(va[i], order)
		}
		ra.Add(ra, new(big.Int).Mul(residue(rs[k]), tk))
		ra.Mod(ra, order)
		t = t.Mul(τ)
	}
	return forgeSum(p, Va, va, ra, how)
}

// lengthen changes the lengths of the lists of a proof.
func (a *attacker) lengthen(lp *pol.LiabilityProof, chain []*cv, what string) bool {
	n := len(lp.V)
	switch what {
	case "-V":
		lp.V = lp.V[:n-1]
	case "-V0":
		lp.V = lp.V[:0]
	case "-W":
		lp.W = lp.W[:len(lp.W)-1]
	case "-D":
		lp.Digests = lp.Digests[:len(lp.Digests)-1]
	case "-D*":
		lp.Digests = nil
	case "-R":
		lp.RangeProofs = lp.RangeProofs[:len(lp.RangeProofs)-1]
	case "-R*":
		lp.RangeProofs = nil
	case "+V":
		lp.V = append(lp.V, lp.V[n-1].Copy())
	case "+W":
		lp.W = append(lp.W, lp.W[len(lp.W)-1].Copy())
	case "+D":
		lp.Digests = append(lp.Digests, curve.NewZrFromInt(0))
	case "+R":
		lp.RangeProofs = append(lp.RangeProofs, lp.RangeProofs[0])
	case "-V-R":
		lp.V, lp.RangeProofs = lp.V[:n-1], lp.RangeProofs[:n-1]
	case "-W-D":
		lp.W, lp.Digests = lp.W[:len(lp.W)-1], lp.Digests[:len(lp.Digests)-1]
	case "-all":
		lp.V, lp.RangeProofs = lp.V[:n-1], lp.RangeProofs[:n-1]
		lp.W, lp.Digests = lp.W[:len(lp.W)-1], lp.Digests[:len(lp.Digests)-1]
	case "+all":
		lp.V, lp.RangeProofs = append(lp.V, lp.V[n-1].Copy()), append(lp.RangeProofs, lp.RangeProofs[n-1])
		lp.W, lp.Digests = append(lp.W, lp.W[n-2].Copy()), append(lp.Digests, curve.NewZrFromInt(0))
	default:
		return false
	}
	return true
}

var lengthKinds = []string{"-V", "-V0", "-W", "-D", "-D*", "-R", "-R*", "+V", "+W", "+D", "+R", "-V-R", "-W-D", "-all", "+all"}

// extraVertex appends a vertex holding another amount and claims that amount.
func (a *attacker) extraVertex(lp *pol.LiabilityProof, chain []*cv, withRange bool) {
	x := a.vertex(attVertex{A: 0, B: 1, S: 1}, true, int(a.path[a.depth-1]), nil, 0)
	all := append(append([]*cv{}, chain...), x)
	lp.V = append(lp.V, x.V.Copy())
	var vecs []common.Vec
	var rs common.Vec
	for _, c := range all {
		vecs = append(vecs, c.entries())
		rs = append(rs, zrOf(c.m[a.fan+1]))
	}
	lp.SumArgumentProof = sum.NewAggregatedArgument(a.p.SAPP, lp.V, vecs, rs)
	if withRange {
		lp.RangeProofs = append(lp.RangeProofs, bp.ProveRange(a.p.RPPP, x.V, x.entries(), zrOf(x.m[a.fan+1])))
	}
	_, π := pp.Open(a.p.PPPP, int(a.path[a.depth-1]), vecOf(x.m))
	lp.LiabilityProof = pol.TotalProof{LiabilityProof: π, Sum: 0}
}

// extraLayer adds an opened commitment that is not on the path.
func (a *attacker) extraW(lp *pol.LiabilityProof, chain []*cv) {
	d := make([]*big.Int, a.fan+2)
	for i := range d {
		d[i] = big.NewInt(int64(i))
	}
	all := []*cv{}
	all = append(all, chain[:len(chain)-1]...)
	all = append(all, &cv{d: d, W: commitTo(a.p.PPPP, d)})
	lp.W = append(lp.W, all[len(all)-1].W)
	lp.Digests = append(lp.Digests[:len(lp.Digests)-1], zrOf(d[a.q]), curve.NewZrFromInt(0))
	Σ := curve.NewZrFromInt(0)
	var πs []*math.G1
	for i, c := range all {
		s := a.q
		if i < len(a.path)-1 {
			s = int(a.path[i])
		}
		_, π := pp.Open(a.p.PPPP, s, vecOf(c.d))
		πs = append(πs, π)
		Σ = plus(Σ, zrOf(c.d[s]).Mul(pp.RO(a.p.PPPP, lp.W, i)))
	}
	lp.PointProofΣ, lp.PointProofπ = Σ, pp.Aggregate(a.p.PPPP, lp.W, πs, pp.RO)
}

var calibrations = map[string]bool{}

// calibrated tells whether proofs of the harness' own making are accepted when
// nothing is wrong with them.
func (a *attacker) calibrated(what string) bool {
	k := fmt.Sprint(a.fan, a.depth, what)
	if r, ok := calibrations[k]; ok {
		return r
	}
	pl := plan{sum: "real", eq: "real", claimAt: -1}
	switch what {
	case "range":
		pl.ranges.kind = "honest"
	case "sum":
		pl.sum = "honest"
	case "equal":
		pl.eq = "honest"
	}
	t := &attempt{Pub: "own", W0: "shown", Dig: "shown", Sig: "shown", Claim: 0, V: map[string]attVertex{}}
	for i := 0; i < a.depth; i++ {
		t.V[strconv.Itoa(i)] = attVertex{1, 0, 1, 0}
	}
	t.V[strconv.Itoa(a.depth-1)] = attVertex{0, 1, 1, 0}
	chain := a.shape(t)
	ok := false
	if lp, err := a.build(chain, t, pl); err == nil {
		ok, _ = a.verify(lp, chain[0].V, chain[0].W)
	}
	calibrations[k] = ok
	return ok
}

func (a *attacker) uncalibrated(name string) string {
	for _, what := range []string{"base", name} {
		if !a.calibrated(what) {
			return what
		}
	}
	return ""
}

// store has the library's own prover make the proof, from a set whose records
// say what the attempt shows.
func (a *attacker) store(chain []*cv, t *attempt) (lp *pol.LiabilityProof, err error) {
	forked := false
	for i := 0; i+1 < len(chain); i++ {
		if !zrOf(chain[i].d[a.path[i]]).Equals(chain[i+1].digest()) {
			forked = true
		}
	}
	if t.Len != "right" || forked && (t.Dig == "shown" || t.Sig == "shown") {
		return nil, fmt.Errorf("not a proof the library makes")
	}
	was := pol.ParallelismEnabled
	pol.ParallelismEnabled = false // so that panics are ours
	defer func() {
		pol.ParallelismEnabled = was
		if e := recover(); e != nil {
			lp, err = nil, fmt.Errorf("%v", e)
		}
	}()
	ls := pol.NewLiabilitySet(a.p, &RecDB{m: map[string][]byte{}}, parseDotted)
	ls.Set(dotted(a.path), 0)
	for i, c := range chain {
		key := ""
		if i > 0 {
			key = "." + dotted(a.path[:i])
		}
		v := &verkle.Vertex{}
		v.FromBytes(ls.DB.Get([]byte(key)))
		values := map[uint16]*math.Zr{}
		for j, x := range c.m[:a.fan] {
			if x.Sign() != 0 || j == int(a.path[i]) {
				values[uint16(j)] = zrOf(x)
			}
		}
		if !setField(v, "values", values) || !setField(v, "sum", zrOf(c.m[a.fan])) {
			return nil, fmt.Errorf("records are kept in another way")
		}
		v.BlindingFactor, v.V, v.W = zrOf(c.m[a.fan+1]), c.V, c.W
		v.Digests = map[uint16]*math.Zr{}
		for j, x := range c.d {
			if x.Sign() != 0 {
				v.Digests[uint16(j)] = zrOf(x)
			}
		}
		if i == len(chain)-1 {
			v.W = nil
		}
		ls.DB.Put([]byte(key), v.Bytes())
	}
	_, made, _, ok := ls.ProveLiability(dotted(a.path))
	claim := new(big.Int).Mul(big.NewInt(int64(t.Claim)), a.unit)
	if !ok || !claim.IsInt64() || int64(made.LiabilityProof.Sum) != claim.Int64() {
		return nil, fmt.Errorf("the library proves another amount")
	}
	return &made, nil
}

func (a *attacker) verify(lp *pol.LiabilityProof, V, W *math.G1) (ok, panicked bool) {
	p := try(func() {
		_, err := lp.Verify(a.p, dotted(a.path), V.Copy(), W.Copy(), parseDotted)
		ok = err == nil
	})
	return ok && p == nil, p != nil
}

func runAttempt(rec *Recorder, s *Scenario) {
	a := &attacker{fan: s.Int("fan", 3), depth: s.Int("depth", 2)}
	a.rng = mrand.New(mrand.NewSource(int64(s.Int("seed", 1))))
	a.p = smallParams(a.fan, a.depth)
	a.path = parseDotted(s.Str("path", ""))
	a.unit, _ = new(big.Int).SetString(s.Str("unit", ""), 10)
	// a slot that is on the path nowhere
	used := map[int]bool{}
	for _, x := range a.path {
		used[int(x)] = true
	}
	for a.q = 0; used[a.q]; a.q++ {
	}
	var test []interface{}
	s.Get("test", &test)
	var t attempt
	s.Get("att", &t)
	var variants []string
	s.Get("variants", &variants)
	name := test[0].(string)
	layer := int(test[1].(float64))

	rec.Emit(Event{"ev": "begin"})
	if a.tree = honestTree(a.p, a.path, a.unit.Int64()); a.tree == nil {
		rec.Emit(Event{"ev": "uncalibrated", "what": "tree"})
		return
	}
	for i := 1; i < a.depth; i++ {
		if t.odd(i) == "twin" && a.path[i] != a.path[i-1] {
			fatal("twins at different slots")
		}
	}
	if t.Odd == nil {
		t.Odd = []interface{}{"none", 0.0}
	}
	chain := a.shape(&t)
	vs := []interface{}{}
	for i := 0; i < a.depth; i++ {
		vs = append(vs, t.V[strconv.Itoa(i)])
	}
	att := Event{"pub": t.Pub, "v": vs, "w0": t.W0, "dig": t.Dig, "sig": t.Sig, "len": t.Len, "claim": t.Claim, "odd": t.Odd}
	V, W := chain[0].V, chain[0].W
	if t.Pub == "honest" {
		V, W = a.tree[0].V, a.tree[0].W
	}
	for _, variant := range variants {
		pl := plan{sum: "real", eq: "real", claimAt: -1}
		parts := strings.Split(variant, ":")
		use := chain
		if variant == "store" {
			lp, err := a.store(chain, &t)
			if err != nil {
				rec.Emit(Event{"ev": "unbuilt", "variant": variant, "err": err.Error()})
				continue
			}
			ok, panicked := a.verify(lp, V, W)
			rec.Emit(Event{"ev": "attempt", "test": name, "layer": layer, "att": att, "variant": variant, "ok": ok, "panic": panicked})
			continue
		}
		if what := a.uncalibrated(name); what != "" {
			rec.Emit(Event{"ev": "uncalibrated", "what": what})
			continue
		}
		switch name {
		case "range":
			pl.ranges.kind = parts[0]
			if len(parts) > 1 {
				pl.ranges.how = parts[1]
			}
			pl.ranges.entry = -1
			pl.ranges.digit = []int{0, 62, a.rng.Intn(63)}[a.rng.Intn(3)]
		case "sum":
			pl.sum = parts[0]
		case "equal":
			switch parts[0] {
			case "I": // the entry of another slot
				pl.eq, pl.eqI = "honest", map[int]int{layer: a.q}
			case "J":
				pl.eq, pl.eqJ = "honest", map[int]int{layer: []int{a.q, int(a.path[layer+1])}[a.rng.Intn(2)]}
			default:
				pl.eq = parts[0]
			}
		case "claim":
			switch parts[0] {
			case "b":
				pl.claimAt = a.q
			case "s":
				pl.claimAt = a.fan
			}
		case "witness":
			pl.witness = true
		}
		lp, err := a.build(use, &t, pl)
		if err != nil {
			rec.Emit(Event{"ev": "unbuilt", "variant": variant, "err": err.Error()})
			continue
		}
		if name == "lengths" {
			switch variant {
			case "extraV":
				a.extraVertex(lp, use, false)
			case "extraVR":
				a.extraVertex(lp, use, true)
			case "extraW":
				a.extraW(lp, use)
			default:
				if !a.lengthen(lp, use, variant) {
					fatal("unknown length variant %s", variant)
				}
			}
		}
		ok, panicked := a.verify(lp, V, W)
		rec.Emit(Event{"ev": "attempt", "test": name, "layer": layer, "att": att, "variant": variant, "ok": ok, "panic": panicked})
	}
}

// presentCase is one presentation of a proof.
type madeProof struct {
	id     string
	amount int64
	p      pol.LiabilityProof
	V, W   *math.G1
}

// runPresent makes proofs for several ids and states of a set and presents
// them with true and false statements.
func runPresent(rec *Recorder, s *Scenario) {
	fan, depth := s.Int("fan", 3), s.Int("depth", 2)
	rng := mrand.New(mrand.NewSource(int64(s.Int("seed", 1))))
	p := smallParams(fan, depth)
	id2p := idMap(s.Str("ids", "dotted"), fan)
	if s.Str("params", "full") == "real" {
		g := realParams(fan, s.Str("ids", "dotted") == "dense")
		p, id2p = g.pp, g.id2path
	}
	// the set may use shorter paths than those who check its proofs, or longer
	cut := func(f func(string) []uint16, n int) func(string) []uint16 {
		return func(id string) []uint16 {
			r := f(id)
			if n > 0 && n < len(r) {
				r = r[:n:n]
			}
			return r
		}
	}
	made2p := cut(id2p, s.Int("made_layers", 0))
	id2p = cut(id2p, s.Int("shown_layers", 0))
	budget := s.Int("budget", 60)
	ls := pol.NewLiabilitySet(p, &RecDB{m: map[string][]byte{}}, made2p)
	var proofs []madeProof
	var roots []root
	ids := []string{}
	s.Get("ids_used", &ids)
	rec.Emit(Event{"ev": "begin"})
	for _, raw := range s.Ops {
		var op []string
		json.Unmarshal(raw, &op)
		if e := try(func() {
			switch op[0] {
			case "set":
				ls.Set(op[1], i64(op[2]))
				V, W := ls.Root()
				roots = append(roots, root{V.Copy(), W.Copy()})
			case "prove":
				n, lp, _, ok := ls.ProveLiability(op[1])
				if ok {
					V, W := ls.Root()
					proofs = append(proofs, madeProof{op[1], n, lp, V.Copy(), W.Copy()})
				}
			}
		}); e != nil {
			rec.Emit(Event{"ev": "uncalibrated", "what": "history"})
			return
		}
	}
	path := func(id string, id2p func(string) []uint16) []int {
		var r []uint16
		if e := try(func() { r = id2p(id) }); e != nil {
			fatal("id %s refused", id)
		}
		return ints(r)
	}
	show := func(m madeProof, id string, amount int64, V, W *math.G1, how string) bool {
		q := m.p
		q.LiabilityProof.Sum = int(amount)
		ok := false
		pn := try(func() {
			_, err := q.Verify(p, id, V.Copy(), W.Copy(), id2p)
			ok = err == nil
		})
		neg := amount < 0
		abs := limbs(new(big.Int).Abs(big.NewInt(amount)))
		rec.Emit(Event{"ev": "present", "how": how,
			"made":  Event{"path": path(m.id, made2p), "amount": limbs64(m.amount), "neg": false, "V": g1Hex(m.V), "W": g1Hex(m.W)},
			"shown": Event{"path": path(id, id2p), "amount": abs, "neg": neg, "V": g1Hex(V), "W": g1Hex(W)}, "ok": ok, "panic": pn != nil})
		return ok
	}
	type job func()
	var jobs []job
	for i := range proofs {
		m := proofs[i]
		a := m.amount
		jobs = append(jobs, func() { show(m, m.id, a, m.V, m.W, "control") })
		claims := []int64{-a, a + 1, a - 1, 0, 1, -1, a ^ 1<<32, a ^ 1<<62, -a - 1, a / 2, a << 1, a | 1<<31, rng.Int63()}
		for _, o := range proofs {
			claims = append(claims, o.amount)
		}
		for _, c := range claims {
			c := c
			if c != a {
				jobs = append(jobs, func() { show(m, m.id, c, m.V, m.W, "claim") })
			}
		}
		for _, id := range ids {
			id := id
			if id != m.id {
				jobs = append(jobs, func() { show(m, id, a, m.V, m.W, "id") })
			}
		}
		for _, r := range roots {
			r := r
			if !r.V.Equals(m.V) {
				jobs = append(jobs, func() { show(m, m.id, a, r.V, r.W, "root") },
					func() { show(m, m.id, a, r.V, m.W, "rootV") }, func() { show(m, m.id, a, m.V, r.W, "rootW") })
			}
		}
		// the opening of another proof
		for j := range proofs {
			o := proofs[j]
			if j != i && o.amount != a {
				x := m
				x.p.LiabilityProof = o.p.LiabilityProof
				jobs = append(jobs, func() { show(x, m.id, o.amount, m.V, m.W, "opening") })
			}
		}
	}
	// openings that are no openings, with amounts that go well with them
	var bare []job
	for i := range proofs {
		m := proofs[i]
		for name, el := range plainElements(m) {
			for _, c := range []int64{0, 1, -1, m.amount + 1, -m.amount} {
				x, name, c := m, name, c
				x.p.LiabilityProof.LiabilityProof = el
				if c != m.amount {
					bare = append(bare, func() { show(x, m.id, c, m.V, m.W, "no opening: "+name) })
				}
			}
		}
	}
	for _, l := range [][]job{jobs, bare} {
		l := l
		rng.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		if len(l) > budget {
			l = l[:budget]
		}
		for _, j := range l {
			j()
		}
		budget = budget/4 + 1
	}
}

// plainElements are group elements anybody can name without opening anything.
func plainElements(m madeProof) map[string]*math.G1 {
	out := map[string]*math.G1{"zero": identity(), "generator": curve.GenG1.Copy(), "V": m.V.Copy(), "W": m.W.Copy()}
	try(func() { out["leaf"] = m.p.V[len(m.p.V)-1].Copy() })
	try(func() { out["negated"] = negG1(m.p.LiabilityProof.LiabilityProof) })
	return out
}
