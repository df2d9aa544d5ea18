package main

import (
	"fmt"
	mrand "math/rand"
	"reflect"
	"sort"
	"unsafe"

	"pol/bp"
	"pol/common"
	"pol/poe"
	"pol/pol"
	"pol/pp"
	"pol/sum"

	math "github.com/IBM/mathlib"
)

func init() { kinds["sizes"] = runSizes }

// A piece of a structure: a group element or scalar.
type piece struct {
	where, value string
	len          int
}

// pieces lists everything a structure holds; must not modify it.
func pieces(v reflect.Value, where string, shared bool, out *[]piece) {
	v = exposed(v)
	add := func(kind string, b []byte) {
		*out = append(*out, piece{where, kind + string(b), len(b)})
	}
	if v.Kind() == reflect.Ptr && v.IsNil() {
		return
	}
	if v.CanAddr() {
		at := unsafe.Pointer(v.UnsafeAddr())
		switch v.Type() {
		case tG1:
			add("1", (*(**math.G1)(at)).Bytes())
			return
		case tG2:
			add("2", (*(**math.G2)(at)).Bytes())
			return
		case tGt:
			add("t", (*(**math.Gt)(at)).Bytes())
			return
		case tZr:
			add("z", (*(**math.Zr)(at)).Bytes())
			return
		}
	}
	switch v.Kind() {
	case reflect.Ptr:
		pieces(v.Elem(), where, shared, out)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if shared && v.Type().Field(i).PkgPath != "" {
				continue // parameters are transmitted by their exported fields
			}
			pieces(v.Field(i), where+"/"+fieldName(v.Type().Field(i)), shared, out)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			pieces(v.Index(i), where, shared, out)
		}
	}
}

func sizeEvent(what string, v interface{}, shared bool, size func() int) Event {
	var ps []piece
	rv := reflect.ValueOf(v)
	box := reflect.New(rv.Type()).Elem()
	box.Set(rv)
	pieces(box, "", shared, &ps)
	type group struct {
		where    string
		len      int
		n, fresh int
	}
	groups := map[string]*group{}
	var names []string
	seen := map[string]bool{}
	for _, x := range ps {
		k := fmt.Sprintf("%s %d", x.where, x.len)
		g := groups[k]
		if g == nil {
			g = &group{where: ascii.Replace(x.where), len: x.len}
			groups[k] = g
			names = append(names, k)
		}
		g.n++
		if !seen[x.value] {
			seen[x.value] = true
			g.fresh++
		}
	}
	sort.Strings(names)
	parts := []Event{}
	for _, k := range names {
		g := groups[k]
		parts = append(parts, Event{"where": g.where, "len": g.len, "n": g.n, "fresh": g.fresh})
	}
	n := 0
	pn := try(func() { n = size() })
	return Event{"ev": "size", "what": what, "shared": shared, "parts": parts, "size": n, "panic": pn != nil}
}

func runSizes(rec *Recorder, s *Scenario) {
	rec.Emit(Event{"ev": "begin"})
	rng := mrand.New(mrand.NewSource(int64(s.Int("seed", 1))))
	switch s.Str("what", "") {
	case "params":
		_, p := pol.GeneratePublicParams(uint16(s.Int("fan", 3)), treeType(s.Str("type", "dense")))
		rec.Emit(sizeEvent("params", p, true, p.Size))
		rec.Emit(sizeEvent("params pp", p.PPPP, true, p.PPPP.Size))
		rec.Emit(sizeEvent("params sum", p.SAPP, true, p.SAPP.Size))
		rec.Emit(sizeEvent("params range", p.RPPP, true, p.RPPP.Size))
		rec.Emit(sizeEvent("params poe", p.POEPP, true, p.POEPP.Size))
	case "parts":
		n, m := s.Int("n", 3), s.Int("m", 2)
		a, b, c := pp.NewPublicParams(n), sum.NewPublicParams(n), bp.NewPublicParams(n)
		rec.Emit(sizeEvent("pp", a, true, a.Size))
		rec.Emit(sizeEvent("sum", b, true, b.Size))
		rec.Emit(sizeEvent("ipa", c, true, c.Size))
		d, e := poe.NewPublicParams(n, m), bp.NewRangeProofPublicParams(n)
		rec.Emit(sizeEvent("poe", d, true, d.Size))
		rec.Emit(sizeEvent("range", e, true, e.Size))
	case "proof":
		fan, depth := s.Int("fan", 3), s.Int("depth", 2)
		var ids []string
		s.Get("ids_used", &ids)
		p := smallParams(fan, depth)
		ls := pol.NewLiabilitySet(p, &RecDB{m: map[string][]byte{}}, parseDotted)
		var lp pol.LiabilityProof
		if e := try(func() {
			for _, id := range ids {
				ls.Set(id, rng.Int63n(1<<uint(1+rng.Intn(50))))
			}
			_, lp, _, _ = ls.ProveLiability(ids[rng.Intn(len(ids))])
		}); e != nil {
			rec.Emit(Event{"ev": "unbuilt", "what": "history"})
			return
		}
		rec.Emit(sizeEvent("proof", &lp, false, lp.Size))
		rec.Emit(sizeEvent("proof sum", lp.SumArgumentProof, false, lp.SumArgumentProof.Size))
		rec.Emit(sizeEvent("proof eq", lp.EqualityProof, false, lp.EqualityProof.Size))
		rec.Emit(sizeEvent("proof digests", lp.Digests, false, lp.Digests.Size))
		for _, rp := range lp.RangeProofs {
			rec.Emit(sizeEvent("proof range", rp, false, rp.Size))
		}
		ipp := lp.EqualityProof.IPP
		rec.Emit(sizeEvent("proof ipa", ipp, false, ipp.Size))
		grow := func(what string, added int, f func(q *pol.LiabilityProof)) {
			q := *(deepCopy(&lp).(*pol.LiabilityProof))
			f(&q)
			before, after := 0, 0
			pn := try(func() { before, after = lp.Size(), q.Size() })
			rec.Emit(Event{"ev": "grown", "what": what, "before": before, "after": after, "added": added, "panic": pn != nil})
		}
		g := curve.GenG1.Mul(curve.NewZrFromInt(rng.Int63()))
		z := zrOf(bigOf(curve.NewZrFromInt(1 + rng.Int63())))
		// what is repeated is transmitted again
		if rng.Intn(2) == 0 {
			g = lp.V[0]
		}
		grow("V", len(g.Bytes()), func(q *pol.LiabilityProof) { q.V = append(q.V, g) })
		grow("W", len(g.Bytes()), func(q *pol.LiabilityProof) { q.W = append(q.W, g) })
		grow("Digests", len(z.Bytes()), func(q *pol.LiabilityProof) { q.Digests = append(common.Vec{z}, q.Digests...) })
		grow("range", lp.RangeProofs[0].Size(), func(q *pol.LiabilityProof) { q.RangeProofs = append(q.RangeProofs, lp.RangeProofs[0]) })
		grow("LRs", 2*len(g.Bytes()), func(q *pol.LiabilityProof) {
			q.EqualityProof.IPP.LRs = append(q.EqualityProof.IPP.LRs, g, g)
		})
		grow("aggregate", 2*len(g.Bytes()), func(q *pol.LiabilityProof) {
			q.EqualityProof.Vaggr = append(q.EqualityProof.Vaggr, g)
			q.EqualityProof.Waggr = append(q.EqualityProof.Waggr, g)
		})
		v := common.Vec{}
		for i, n := 0, rng.Intn(9); i < n; i++ {
			v = append(v, zrOf(bigOf(curve.NewZrFromInt(rng.Int63n(1<<uint(1+rng.Intn(60)))))))
		}
		rec.Emit(sizeEvent("vector", v, false, v.Size))
	}
}
