package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/big"
	"strconv"

	"pol/bp"
	"pol/common"
	"pol/poe"
	"pol/pol"
	"pol/pp"
	"pol/sum"

	math "github.com/IBM/mathlib"
)

func init() {
	kinds["srs"] = runSRS
	kinds["params"] = runParams
	kinds["noparams"] = runNoParams
	kinds["cross"] = runCross
	kinds["gens"] = runGens
}

func pairing(a *math.G1, b *math.G2) string {
	return gtHex(curve.FExp(curve.Pairing(b, a)))
}

func gtHex(g *math.Gt) string { return shortHash(g.Bytes()) }

func g2Hex(g *math.G2) string { return shortHash(g.Bytes()) }

func idsOf(gs common.G1v) []string {
	res := make([]string, len(gs))
	for i := range gs {
		res[i] = g1Hex(gs[i])
	}
	return res
}

// srsEvent describes a structured reference string by pairings of its elements.
// Position -1 stands for the generator.
func srsEvent(p *pp.PP, what string, all bool) Event {
	n := p.N
	g1 := func(k int) *math.G1 {
		if k < 0 {
			return curve.GenG1.Copy()
		}
		return p.G1s[k].Copy()
	}
	g2 := func(j int) *math.G2 {
		if j < 0 {
			return curve.GenG2.Copy()
		}
		return p.G2s[j].Copy()
	}
	classes := [][]interface{}{}
	add := func(k, j int) {
		if k < len(p.G1s) && j < len(p.G2s) && k >= -1 && j >= -1 {
			classes = append(classes, []interface{}{k, j, pairing(g1(k), g2(j))})
		}
	}
	if all {
		for k := -1; k < len(p.G1s); k++ {
			for j := -1; j < len(p.G2s); j++ {
				add(k, j)
			}
		}
	} else {
		// every element is compared with its neighbours
		for k := -1; k < len(p.G1s); k++ {
			add(k, -1)
			add(k, 0)
			add(k, 1)
		}
		for j := 2; j < len(p.G2s); j++ {
			add(-1, j)
			add(0, j)
		}
		for j := 0; j < len(p.G2s); j++ {
			add(n-1-j, j)
		}
	}
	g2ids := make([]string, len(p.G2s))
	for i := range g2ids {
		g2ids[i] = g2Hex(p.G2s[i])
	}
	// the secret is not a number one would try
	weak := false
	if len(p.G1s) > 0 {
		x, g := identity(), curve.GenG1.Copy()
		for i := 0; i < 5000 && !weak; i++ {
			weak = x.Equals(p.G1s[0])
			x.Add(g)
		}
	}
	return Event{"ev": "srs", "what": what, "n": n, "g1": idsOf(p.G1s), "g2": g2ids, "gen": g1Hex(curve.GenG1), "gen2": g2Hex(curve.GenG2), "classes": classes, "gt": gtHex(p.Gt), "weak": weak}
}

// related looks for simple relations among generators that should have none.
func related(gs common.G1v) string {
	at := map[string]int{}
	for i, g := range gs {
		at[g1Hex(g)] = i
	}
	diffs := map[string]int{}
	see := func(what string, g *math.G1, i int) string {
		if j, ok := at[g1Hex(g)]; ok {
			return fmt.Sprintf("%s of %d is %d", what, i, j)
		}
		return ""
	}
	base := curve.GenG1.Copy()
	acc := identity()
	for k := 0; k < 4200; k++ {
		if j, ok := at[g1Hex(acc)]; ok {
			return fmt.Sprintf("%d is %d times the generator", j, k)
		}
		acc.Add(base)
	}
	for i, g := range gs {
		neg := identity()
		neg.Sub(g)
		if r := see("negation", neg, i); r != "" {
			return r
		}
		x := g.Copy()
		for k := 2; k <= 4; k++ {
			x.Add(g)
			if r := see(strconv.Itoa(k)+" times", x, i); r != "" {
				return r
			}
		}
		if i > 0 {
			d := g.Copy()
			d.Sub(gs[i-1])
			h := g1Hex(d)
			if j, ok := diffs[h]; ok {
				return fmt.Sprintf("%d and %d follow their predecessors at the same distance", i, j)
			}
			diffs[h] = i
			if r := see("difference to the predecessor", d, i); r != "" {
				return r
			}
			s := g.Copy()
			s.Add(gs[i-1])
			if r := see("sum with the predecessor", s, i); r != "" {
				return r
			}
		}
	}
	return ""
}

func treeType(s string) pol.TreeType {
	if s == "dense" {
		return pol.TreeType(pol.Dense)
	}
	return pol.Sparse
}

func anyID(typ string) string {
	if typ == "dense" {
		return "123456789"
	}
	return "c0ffee"
}

func runParams(rec *Recorder, s *Scenario) {
	fan, typ := s.Int("fan", 3), s.Str("type", "dense")
	rec.Emit(Event{"ev": "begin"})
	var id2p func(string) []uint16
	var p *pol.PublicParams
	if e := try(func() { id2p, p = pol.GeneratePublicParams(uint16(fan), treeType(typ)) }); e != nil {
		rec.Emit(Event{"ev": "params", "fan": fan, "made": false, "text": panicText(e)})
		return
	}
	path := id2p(anyID(typ))
	gens := common.G1v{}
	gens = append(gens, p.SAPP.U, p.SAPP.G)
	gens = append(gens, p.SAPP.H...)
	gens = append(gens, p.RPPP.G, p.RPPP.H)
	gens = append(gens, p.RPPP.Hs...)
	gens = append(gens, p.RPPP.Fs...)
	gens = append(gens, p.POEPP.G...)
	gens = append(gens, p.POEPP.H...)
	gens = append(gens, p.POEPP.F)
	all := idsOf(gens)
	h := ""
	for _, x := range all {
		h += x
	}
	// the vector of coefficients of the sum argument is 1, ..., 1, -1
	B := identity()
	for i, x := range p.SAPP.H {
		if i == len(p.SAPP.H)-1 {
			B.Sub(x)
		} else {
			B.Add(x)
		}
	}
	rec.Emit(Event{"ev": "params", "fan": fan, "type": typ, "made": true, "fanout": p.Fanout, "path": len(path), "n": p.PPPP.N,
		"srs": idsOf(p.PPPP.G1s[:least2(len(p.PPPP.G1s), fan+2)]), "poesrs": idsOf(p.POEPP.PP.G1s[:least2(len(p.POEPP.PP.G1s), fan+2)]), "samesrs": g2Hex(p.PPPP.G2s[0]) == g2Hex(p.POEPP.PP.G2s[0]),
		"sumGs": idsOf(p.SAPP.Gs), "sumF": g1Hex(p.SAPP.F), "sumHs": len(p.SAPP.H), "sumB": g1Hex(p.SAPP.B) == g1Hex(B),
		"rangeGs": idsOf(p.RPPP.Gs), "rangeF": g1Hex(p.RPPP.F), "rangeHs": len(p.RPPP.Hs), "rangeFs": len(p.RPPP.Fs),
		"poeG": len(p.POEPP.G), "poeH": len(p.POEPP.H),
		"gens": all, "fixed": shortHash([]byte(h)), "related": related(gens),
		"digests": []string{shortHash(p.PPPP.Digest), shortHash(p.POEPP.Digest)}})
	e := srsEvent(p.PPPP, "params", fan < 16)
	rec.Emit(e)
}

func runSRS(rec *Recorder, s *Scenario) {
	rec.Emit(Event{"ev": "begin"})
	n := s.Int("n", 3)
	rec.Emit(srsEvent(pp.NewPublicParams(n), "pp", true))
	if s.Int("poe", 0) > 0 {
		rec.Emit(srsEvent(poe.NewPublicParams(n, s.Int("poe", 2)).PP, "poe", true))
	}
}

// runNoParams asks for parameters that cannot be.
func runNoParams(rec *Recorder, s *Scenario) {
	rec.Emit(Event{"ev": "begin"})
	typ := s.Str("type", "dense")
	for _, raw := range s.Ops {
		var fan int
		json.Unmarshal(raw, &fan)
		made := false
		_, hang := timed(func() {
			_, p := pol.GeneratePublicParams(uint16(fan), treeType(typ))
			made = p != nil
		})
		rec.Emit(Event{"ev": "noparams", "fan": fan, "type": typ, "made": made, "hang": hang})
		if hang {
			return
		}
	}
}

// runGens compares the derivation of generators for different contexts.
func runGens(rec *Recorder, s *Scenario) {
	rec.Emit(Event{"ev": "begin"})
	for _, raw := range s.Ops {
		var op struct {
			N   int
			Ctx string
		}
		json.Unmarshal(raw, &op)
		gs := common.RandGenVec(op.N, op.Ctx)
		hashed := true
		for i, g := range gs {
			d := sha256.Sum256([]byte(fmt.Sprintf("PoL %s %d", op.Ctx, i)))
			d2 := sha256.Sum256(d[:])
			hashed = hashed && g.Equals(curve.HashToG1(append(d[:], d2[:]...)))
		}
		rec.Emit(Event{"ev": "gens", "hashed": hashed, "ctx": op.Ctx, "list": idsOf(gs), "related": related(gs)})
	}
}

// runCross presents what was proved under one set of parameters under another.
func runCross(rec *Recorder, s *Scenario) {
	rec.Emit(Event{"ev": "begin"})
	fan, typ := s.Int("fan", 3), s.Str("type", "dense")
	depth := s.Int("depth", 0)
	gen := func() (func(string) []uint16, *pol.PublicParams) {
		if depth > 0 {
			return parseDotted, newSmallParams(fan, depth)
		}
		return pol.GeneratePublicParams(uint16(fan), treeType(typ))
	}
	id2p, a := gen()
	_, b := gen()
	id := s.Str("id", anyID(typ))
	var lp pol.LiabilityProof
	var tot pol.TotalProof
	var V, W *math.G1
	pn := try(func() {
		ls := pol.NewLiabilitySet(a, &RecDB{m: map[string][]byte{}}, id2p)
		ls.Set(id, i64(s.Str("amount", "5")))
		V, W = ls.Root()
		tot = ls.ProveTot()
		pol.ParallelismEnabled = true
		_, lp, _, _ = ls.ProveLiability(id)
	})
	if pn != nil {
		rec.Emit(Event{"ev": "uncalibrated", "what": ascii.Replace(panicText(pn))})
		return
	}
	show := func(what string, p *pol.PublicParams, same bool) {
		ok := false
		try(func() { _, err := lp.Verify(p, id, V.Copy(), W.Copy(), id2p); ok = err == nil })
		rec.Emit(Event{"ev": "cross", "what": what + " liability", "same": same, "accepted": ok})
		ok = false
		try(func() { ok = tot.Verify(p, V.Copy()) == nil })
		rec.Emit(Event{"ev": "cross", "what": what + " total", "same": same, "accepted": ok})
	}
	show("own", a, true)
	show("other", b, false)
	// one component of the other parameters at a time
	mix := func(what string, f func(p *pol.PublicParams)) {
		p := *a
		f(&p)
		ok := false
		try(func() { _, err := lp.Verify(&p, id, V.Copy(), W.Copy(), id2p); ok = err == nil })
		rec.Emit(Event{"ev": "cross", "what": what, "same": false, "accepted": ok})
	}
	mix("commitments of the other", func(p *pol.PublicParams) { p.PPPP = b.PPPP })
	mix("sum argument of the other", func(p *pol.PublicParams) { p.SAPP = b.SAPP })
	mix("range argument of the other", func(p *pol.PublicParams) { p.RPPP = b.RPPP })
	mix("equality argument of the other", func(p *pol.PublicParams) { p.POEPP = b.POEPP })
	// the arguments alone
	a2 := func(what string, f func(p *pol.PublicParams) bool) {
		for _, p := range []*pol.PublicParams{a, b} {
			ok := false
			if pn := try(func() { ok = f(p) }); pn != nil && p == a {
				rec.Emit(Event{"ev": "uncalibrated", "what": ascii.Replace(panicText(pn))})
				return
			}
			rec.Emit(Event{"ev": "cross", "what": what, "same": p == a, "accepted": ok})
		}
	}
	n := fan + 1
	v := zeros(n)
	for i := 0; i < n-1; i++ {
		v[i] = zrOf(big.NewInt(int64(i + 1)))
	}
	v[n-1] = zrOf(big.NewInt(int64(n * (n - 1) / 2)))
	r := rnd()
	C := pedersen(a.SAPP.F, a.SAPP.Gs, v, r)
	if pn := try(func() {
		_, sp := sum.NewArgument(a.SAPP, C.Copy(), append(common.Vec{}, v...), r.Copy())
		a2("sum argument", func(p *pol.PublicParams) bool { return sp.Verify(p.SAPP, &sum.Argument{V: C.Copy()}) == nil })
		rp := bp.ProveRange(a.RPPP, C.Copy(), append(common.Vec{}, v...), r.Copy())
		a2("range argument", func(p *pol.PublicParams) bool { return bp.VerifyRange(p.RPPP, rp, C.Copy()) == nil })
		full := append(append(common.Vec{}, v...), r)
		D := commitTo(a.PPPP, bigs(full))
		m, π := pp.Open(a.PPPP, 1, full)
		a2("opening", func(p *pol.PublicParams) bool { return pp.Verify(p.PPPP, m, π, D, 1) == nil })
	}); pn != nil {
		rec.Emit(Event{"ev": "uncalibrated", "what": ascii.Replace(panicText(pn))})
	}
}

func least2(a, b int) int {
	if a < b {
		return a
	}
	return b
}
