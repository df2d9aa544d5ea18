package main

import (
	"crypto/rand"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"math/big"
	mrand "math/rand"
	"sync"

	"pol/bp"
	"pol/common"
	"pol/poe"
	"pol/pol"
	"pol/sum"
	"pol/verkle"
)

func init() {
	kinds["masks"] = runMasks
	kinds["maskarg"] = runMaskArg
	kinds["entropy"] = runEntropy
}

// masked lists the elements of a proof that are supposed to be random.
func masked(v interface{}) []string {
	res := []string{}
	for _, l := range leaves(v) {
		if nestedIPP.MatchString(l.Path) {
			continue // copies the verifier does not look at
		}
		if l.G1 != nil && *l.G1 != nil {
			res = append(res, "G"+g1Hex(*l.G1))
		}
		if l.Zr != nil && *l.Zr != nil {
			res = append(res, "Z"+zrHex(*l.Zr))
		}
	}
	return res
}

// runMasks makes several sets with the same content and several proofs about each.
func runMasks(rec *Recorder, s *Scenario) {
	fan, depth := s.Int("fan", 3), s.Int("depth", 2)
	p := smallParams(fan, depth)
	rec.Emit(Event{"ev": "begin"})
	for k := 0; k < s.Int("sets", 2); k++ {
		db := &RecDB{m: map[string][]byte{}}
		ls := pol.NewLiabilitySet(p, db, parseDotted)
		var ids []string
		type pr struct {
			lp pol.LiabilityProof
		}
		var proofs []pol.LiabilityProof
		pn := try(func() {
			for _, raw := range s.Ops {
				var op []string
				json.Unmarshal(raw, &op)
				ls.Set(op[1], i64(op[2]))
				ids = append(ids, op[1])
			}
			for j := 0; j < s.Int("proofs", 2); j++ {
				pol.ParallelismEnabled = j%2 == 0
				for _, id := range ids[:1+j%len(ids)] {
					if _, lp, _, ok := ls.ProveLiability(id); ok {
						proofs = append(proofs, lp)
					}
				}
			}
		})
		if pn != nil {
			rec.Emit(Event{"ev": "uncalibrated", "what": ascii.Replace(panicText(pn))})
			return
		}
		vs := []Event{}
		var nonces []*big.Int
		for _, val := range db.m {
			v := &verkle.Vertex{}
			if try(func() { v.FromBytes(val) }) != nil || v.V == nil {
				continue
			}
			e := (&tree{fan: fan, p: p}).describe(v, val)
			nonces = append(nonces, residue(v.BlindingFactor))
			vs = append(vs, Event{"nonce": e["nonce"], "V": e["V"], "bare": e["bare"]})
		}
		rec.Emit(Event{"ev": "vertices", "list": vs, "least": least(nonces)})
		try(func() {
			V, W := ls.Root()
			rec.Emit(Event{"ev": "setroot", "V": g1Hex(V), "W": g1Hex(W)})
		})
		for i := range proofs {
			q := &proofs[i]
			var l []string
			l = append(l, masked(q.SumArgumentProof)...)
			l = append(l, masked(q.EqualityProof)...)
			l = append(l, masked(&q.RangeProofs)...)
			zs := append(scalars(q.SumArgumentProof), scalars(q.EqualityProof)...)
			rec.Emit(Event{"ev": "elems", "what": "liability proof", "list": l, "least": least(append(zs, scalars(&q.RangeProofs)...))})
		}
	}
}

// prover returns a function that proves one fixed statement with the argument of
// the given name. style 0 is the all-zero content.
func prover(a *argRec, name string, n, m, style int) (prove func() interface{}) {
	cp := func(l []common.Vec) (x []common.Vec) {
		for _, v := range l {
			x = append(x, append(common.Vec{}, v...))
		}
		return
	}
	zero := zrOf(big.NewInt(0))
	switch name {
	case "range":
		p := rangePP(n)
		v := make(common.Vec, n)
		for i := range v {
			v[i] = zrOf(big.NewInt(int64(a.rng.Intn(3) * style)))
		}
		r := rnd()
		V := pedersen(p.F, p.Gs, v, r)
		prove = func() interface{} { return bp.ProveRange(p, V.Copy(), cp([]common.Vec{v})[0], r.Copy()) }
	case "sum":
		p := sumPP(n)
		var vs []common.Vec
		var rs common.Vec
		var Vs common.G1v
		for k := 0; k < m; k++ {
			v, r := a.balanced(n, 0, zero), rnd()
			if style == 0 {
				v = zeros(n)
			}
			vs, rs, Vs = append(vs, v), append(rs, r), append(Vs, pedersen(p.F, p.Gs, v, r))
		}
		prove = func() interface{} {
			if m == 1 {
				_, π := sum.NewArgument(p, Vs[0].Copy(), cp(vs)[0], rs[0].Copy())
				return π
			}
			return sum.NewAggregatedArgument(p, append(common.G1v{}, Vs...), cp(vs), append(common.Vec{}, rs...))
		}
	case "equal", "equality":
		p := poePP(n, m)
		var vs, ws []common.Vec
		e := &poe.Equalities{RO: poe.RO, PP: p}
		for k := 0; k < m; k++ {
			v, w := a.balanced(n, 0, rnd()), a.balanced(n, 0, rnd())
			i, j := a.rng.Intn(n-1), a.rng.Intn(n-1)
			if style == 0 {
				v[i] = zero
			}
			w[j] = v[i].Copy()
			vs, ws = append(vs, v), append(ws, w)
			e.V, e.W = append(e.V, commitTo(p.PP, bigs(v))), append(e.W, commitTo(p.PP, bigs(w)))
			e.I, e.J = append(e.I, i), append(e.J, j)
		}
		prove = func() interface{} {
			if name == "equality" {
				y := &poe.Equality{RO: poe.RO, PP: p, V: e.V[0], W: e.W[0], I: e.I[0], J: e.J[0]}
				return y.Prove(cp(vs)[0], cp(ws)[0])
			}
			return e.Prove(cp(vs), cp(ws))
		}
	}
	return
}

// runMaskArg proves the same statement several times.
func runMaskArg(rec *Recorder, s *Scenario) {
	a := &argRec{Recorder: rec, rng: mrand.New(mrand.NewSource(int64(s.Int("seed", 1))))}
	rec.Emit(Event{"ev": "begin"})
	name := s.Str("arg", "range")
	prove := prover(a, name, s.Int("n", 4), s.Int("m", 1), s.Int("style", 0))
	for k := 0; k < s.Int("proofs", 3); k++ {
		var π interface{}
		if pn := try(func() { π = prove() }); pn != nil {
			rec.Emit(Event{"ev": "uncalibrated", "what": ascii.Replace(panicText(pn))})
			return
		}
		rec.Emit(Event{"ev": "elems", "what": name, "list": masked(π), "least": least(scalars(π))})
	}
}

// least is the smallest bit length of the given numbers, of their negations and
// of the distances between them.
func least(ns []*big.Int) int {
	res := 1 << 20
	see := func(x *big.Int) {
		x = new(big.Int).Mod(x, order)
		if b := x.BitLen(); b < res {
			res = b
		}
		if b := new(big.Int).Sub(order, x).BitLen(); b < res {
			res = b
		}
	}
	for i, x := range ns {
		see(x)
		for _, y := range ns[:i] {
			if len(ns) < 200 {
				see(new(big.Int).Sub(x, y))
			}
		}
	}
	return res
}

func scalars(v interface{}) (res []*big.Int) {
	for _, l := range leaves(v) {
		if !nestedIPP.MatchString(l.Path) && l.Zr != nil && *l.Zr != nil {
			res = append(res, residue(*l.Zr))
		}
	}
	return
}

// ---- where the randomness goes -------------------------------------------------

// stream stands in for the source of randomness. It never makes a sampler of
// field elements reject: the leading byte of every draw is small.
type stream struct {
	mu    sync.Mutex
	seed  byte
	draws int // reads so far, long ones counted in pieces of 32 bytes
	short int // reads of less than 31 bytes
	nudge int // the draw that is changed
}

func (s *stream) Read(b []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(b) < 31 {
		s.short++
	}
	for o := 0; o < len(b); {
		n := len(b) - o
		if n >= 63 {
			n = 32
		}
		h := sha256.Sum256([]byte{s.seed, byte(s.draws), byte(s.draws >> 8), byte(s.draws >> 16)})
		h2 := sha256.Sum256(h[:])
		all := append(h[:], h2[:]...)
		all[0] &= 0x0f
		all[n-1] = 0
		if s.draws == s.nudge {
			all[n-1] = 1
		}
		copy(b[o:o+n], all)
		s.draws++
		o += n
	}
	return len(b), nil
}

// runEntropy watches what a prover does with its randomness: it changes one draw
// at a time, always by the same amount, and counts the different proofs.
func runEntropy(rec *Recorder, s *Scenario) {
	a := &argRec{Recorder: rec, rng: mrand.New(mrand.NewSource(int64(s.Int("seed", 1))))}
	rec.Emit(Event{"ev": "begin"})
	name, n, m := s.Str("arg", "range"), s.Int("n", 4), s.Int("m", 1)
	prove := prover(a, name, n, m, s.Int("style", 1))
	orig := rand.Reader
	defer func() { rand.Reader = orig }()
	run := func(nudge int) (string, *stream) {
		st := &stream{seed: byte(s.Int("seed", 1)), nudge: nudge}
		rand.Reader = st
		defer func() { rand.Reader = orig }()
		var π interface{}
		if pn := try(func() { π = prove() }); pn != nil {
			return "", st
		}
		h := sha256.New()
		for _, x := range masked(π) {
			h.Write([]byte(x))
		}
		return hex.EncodeToString(h.Sum(nil)[:10]), st
	}
	base, st := run(-1)
	again, st2 := run(-1)
	if base == "" || base != again || st.draws != st2.draws || st.draws == 0 {
		rec.Emit(Event{"ev": "uncalibrated", "what": "the proof is not a function of the watched randomness"})
		return
	}
	// all draws of this share
	part, parts := s.Int("part", 0), s.Int("parts", 1)
	got := map[string]bool{base: true}
	tried := 0
	for k := part; k < st.draws; k += parts {
		h, _ := run(k)
		if h == "" {
			rec.Emit(Event{"ev": "uncalibrated", "what": "no proof"})
			return
		}
		got[h] = true
		tried++
	}
	rec.Emit(Event{"ev": "entropy", "what": name, "n": n, "m": m, "draws": st.draws, "short": st.short, "tried": tried, "effective": len(got) - 1})
}
