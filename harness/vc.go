package main

import (
	"encoding/json"
	"math/big"

	"pol/common"
	"pol/pp"

	math "github.com/IBM/mathlib"
)

func init() { kinds["vc"] = runVC }

// rawZr makes a scalar that is not reduced: negative or beyond the order.
func rawZr(x *big.Int, rep string) *math.Zr {
	r := new(big.Int).Mod(x, order)
	switch rep {
	case "neg":
		n := new(big.Int).Sub(r, order)
		if n.IsInt64() {
			return curve.NewZrFromInt(n.Int64())
		}
		// 0 - (order - r), without reduction
		if m := new(big.Int).Neg(n); m.BitLen() <= 62 {
			return curve.NewZrFromInt(-m.Int64())
		}
	case "big":
		return curve.NewZrFromBytes(new(big.Int).Add(r, order).Bytes())
	}
	return curve.NewZrFromBytes(r.Bytes())
}

type vcOp struct {
	Op        string  `json:"op"`
	H         int     `json:"h"`
	I         int     `json:"i"`
	V         int     `json:"v"`
	Vals      []int   `json:"vals"`
	Slot      int     `json:"slot"`
	CNoise    rawList `json:"cnoise"`
	PNoise    rawList `json:"pnoise"`
	Plus      rawList `json:"plus"`
	Claim     int     `json:"claim"`
	Claims    []int   `json:"claims"`
	Rep       string  `json:"rep"`
	Hs        []int   `json:"hs"`
	Is        []int   `json:"is"`
	Slots     []int   `json:"slots"`
	AggOver   []int   `json:"aggOver"`
	SigmaOver []int   `json:"sigmaOver"`
	Exchanged []int   `json:"exchanged"`
}

type rawList json.RawMessage

func (r *rawList) UnmarshalJSON(b []byte) error { *r = append((*r)[:0], b...); return nil }

func (r rawList) ints() []int {
	res := []int{}
	if err := json.Unmarshal(r, &res); err != nil {
		fatal("vc: %v", err)
	}
	return res
}

func (r rawList) lists() [][]int {
	res := [][]int{}
	if err := json.Unmarshal(r, &res); err != nil {
		fatal("vc: %v", err)
	}
	return res
}

func (r rawList) int() int {
	var res int
	if err := json.Unmarshal(r, &res); err != nil {
		fatal("vc: %v", err)
	}
	return res
}

var vcParams = map[int]*pp.PP{}

func runVC(rec *Recorder, s *Scenario) {
	n := s.Int("n", 5)
	if vcParams[n] == nil {
		vcParams[n] = pp.NewPublicParams(n)
	}
	p := vcParams[n]
	var vs []string
	var reps []string
	s.Get("values", &vs)
	s.Get("reps", &reps)
	vals := make([]*big.Int, len(vs))
	for i := range vs {
		vals[i], _ = new(big.Int).SetString(vs[i], 10)
	}
	val := func(k int) *math.Zr { return rawZr(vals[k-1], reps[k-1]) }
	hex := func(z *math.Zr) string { return residue(z).Text(16) }
	power := func(e int) *math.G1 {
		if e == 0 {
			return curve.GenG1.Copy()
		}
		return p.G1s[e-1]
	}
	noisy := func(g *math.G1, es []int) *math.G1 {
		g = g.Copy()
		for _, e := range es {
			g.Add(power(e))
		}
		return g
	}
	vecs := map[int]common.Vec{}
	Cs := map[int]*math.G1{}
	type opening struct {
		v *math.Zr
		π *math.G1
	}
	var slots []opening
	exact := func(h int) bool {
		m := make([]*big.Int, n)
		for i, z := range vecs[h] {
			m[i] = residue(z)
		}
		return opens(p, Cs[h], m)
	}
	rec.Emit(Event{"ev": "new", "n": n})
	for _, raw := range s.Ops {
		var op vcOp
		if err := json.Unmarshal(raw, &op); err != nil {
			fatal("vc op: %v", err)
		}
		switch op.Op {
		case "commit":
			m := make(common.Vec, n)
			hs := make([]string, n)
			for i, k := range op.Vals {
				m[i] = val(k)
				hs[i] = hex(m[i])
			}
			vecs[op.H] = m
			pn := try(func() { Cs[op.H] = pp.Commit(p, append(common.Vec{}, m...)) })
			rec.Emit(Event{"ev": "commit", "h": op.H, "vec": hs, "ok": pn == nil && exact(op.H)})
		case "update":
			z := val(op.V)
			m := append(common.Vec{}, vecs[op.H]...)
			pn := try(func() { pp.Update(p, Cs[op.H], append(common.Vec{}, m...), z, op.I) })
			m[op.I] = val(op.V)
			vecs[op.H] = m
			rec.Emit(Event{"ev": "update", "h": op.H, "i": op.I, "v": hex(m[op.I]), "ok": pn == nil && exact(op.H)})
		case "open":
			var o opening
			pn := try(func() { o.v, o.π = pp.Open(p, op.I, append(common.Vec{}, vecs[op.H]...)) })
			if pn != nil || o.v == nil || o.π == nil {
				rec.Emit(Event{"ev": "open", "h": op.H, "i": op.I, "value": "", "panic": true})
				return
			}
			slots = append(slots, o)
			rec.Emit(Event{"ev": "open", "h": op.H, "i": op.I, "value": hex(o.v), "panic": false})
		case "verify":
			o := slots[op.Slot-1]
			claim := o.v
			if op.Claim == -1 {
				claim = vecs[op.H][op.I]
			} else if op.Claim > 0 {
				claim = val(op.Claim)
			}
			x := rawZr(new(big.Int).Add(residue(claim), big.NewInt(int64(op.Plus.int()))), op.Rep)
			ok := false
			pn := try(func() {
				ok = pp.Verify(p, x, noisy(o.π, op.PNoise.ints()), noisy(Cs[op.H], op.CNoise.ints()), op.I) == nil
			})
			rec.Emit(Event{"ev": "verify", "h": op.H, "i": op.I, "slot": op.Slot, "cnoise": op.CNoise.ints(), "pnoise": op.PNoise.ints(),
				"claim": hex(claim), "plus": op.Plus.int(), "ok": ok && pn == nil})
		case "agg":
			cn, pnz, plus := op.CNoise.lists(), op.PNoise.lists(), op.Plus.ints()
			list := func(hs []int, noise [][]int) common.G1v {
				var l common.G1v
				for k, h := range hs {
					if noise != nil {
						l = append(l, noisy(Cs[h], noise[k]))
					} else {
						l = append(l, Cs[h].Copy())
					}
				}
				return l
			}
			L := list(op.Hs, cn)
			A, S := L, L
			if len(op.AggOver) > 0 {
				A = list(op.AggOver, nil)
			}
			if len(op.SigmaOver) > 0 {
				S = list(op.SigmaOver, nil)
			}
			var πs []*math.G1
			claims := []string{}
			Σ := curve.NewZrFromInt(0)
			ok := false
			pn := try(func() {
				for k := range op.Hs {
					o := slots[op.Slots[k]-1]
					πs = append(πs, noisy(o.π, pnz[k]))
					c := residue(o.v)
					if op.Claims[k] > 0 {
						c = residue(val(op.Claims[k]))
					}
					claims = append(claims, c.Text(16))
				}
				if x := op.Exchanged; len(x) == 2 {
					claims[x[0]-1], claims[x[1]-1] = claims[x[1]-1], claims[x[0]-1]
				}
				for k := range op.Hs {
					c, _ := new(big.Int).SetString(claims[k], 16)
					c.Add(c, big.NewInt(int64(plus[k])))
					Σ = plus1(Σ, zrOf(c).Mul(pp.RO(p, S, k)))
				}
				π := pp.Aggregate(p, A, πs, pp.RO)
				ok = pp.VerifyAggregation(p, op.Is, L, π, Σ, pp.RO) == nil
				if ok {
					alterAggregate(rec, p, op.Is, L, π, Σ)
				}
			})
			rec.Emit(Event{"ev": "agg", "hs": op.Hs, "is": op.Is, "slots": op.Slots, "aggOver": orEmpty(op.AggOver), "sigmaOver": orEmpty(op.SigmaOver),
				"claims": claims, "plus": plus, "cnoise": cn, "pnoise": pnz, "ok": ok && pn == nil})
		}
	}
}

func plus1(a, b *math.Zr) *math.Zr { return plus(a, b) }

func orEmpty(x []int) []int {
	if x == nil {
		return []int{}
	}
	return x
}

// once for every length
var hiddenTried = map[int]int{}

// alterAggregate changes an accepted aggregate in ways that must matter.
func alterAggregate(rec *Recorder, p *pp.PP, is []int, L common.G1v, π *math.G1, Σ *math.Zr) {
	verify := func(what string, is []int, L common.G1v, π *math.G1, Σ *math.Zr) {
		ok := false
		pn := try(func() { ok = pp.VerifyAggregation(p, is, L, π, Σ, pp.RO) == nil })
		rec.Emit(Event{"ev": "altered", "what": what, "ok": ok && pn == nil})
	}
	π2 := π.Copy()
	π2.Add(curve.GenG1)
	verify("opening", is, L, π2, Σ)
	verify("value", is, L, π, plus(Σ, curve.NewZrFromInt(1)))
	if residue(Σ).Sign() != 0 {
		verify("negated value", is, L, π, rawZr(new(big.Int).Neg(residue(Σ)), ""))
		if len(L) > 1 {
			// the verifier must not look at fewer commitments
			verify("missing commitment", is[:len(is)-1], L[:len(L)-1], π, Σ)
		}
	}
	// values whose errors the weights always miss
	if m := len(L); m > 1 && m <= 8 && hiddenTried[m] < 1 {
		hiddenTried[m]++
		weights := func(L common.G1v) (ts common.Vec) {
			for k := range L {
				ts = append(ts, pp.RO(p, L, k))
			}
			return
		}
		e, err := hiddenErrors(m, func() (common.Vec, error) {
			l := append(common.G1v{}, L...)
			for k := range l {
				l[k] = curve.GenG1.Mul(common.RandVec(1)[0])
			}
			return weights(l), nil
		})
		if err == nil && e != nil {
			x := Σ
			for k, t := range weights(L) {
				x = plus(x, e[k].Mul(t))
			}
			verify("hidden errors", is, L, π, x)
		}
	}
}
