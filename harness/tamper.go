package main

import (
	"crypto/sha256"
	"math/big"
	mrand "math/rand"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"pol/pol"

	math "github.com/IBM/mathlib"
)

func sha(b []byte) []byte { h := sha256.Sum256(b); return h[:] }

var ascii = strings.NewReplacer("Σ", "Sigma", "π", "pi", "Π", "Pi", "Δ", "Delta", "γ", "gamma", "τ", "tau", "ρ", "rho", "Ω", "Omega", "Υ", "Upsilon")

// inert tells whether the verifier never looks at a component: values it
// recomputes itself, and the digest below the last vertex.
var nestedIPP = regexp.MustCompile(`/IPP/(P|C)$`)

func inertPath(path string, depth int) bool {
	return nestedIPP.MatchString(path) || path == "/Digests["+itoa(depth-1)+"]"
}

func itoa(n int) string { return big.NewInt(int64(n)).String() }

// alter replaces a leaf by another value; it reports whether it really differs.
func alter(l Leaf, how string, others []Leaf, rng *mrand.Rand) (undo func(), differs bool) {
	if l.G1 != nil {
		old := *l.G1
		undo = func() { *l.G1 = old }
		n := old.Copy()
		switch how {
		case "add":
			n.Add(curve.GenG1)
		case "zero":
			n = identity()
		case "neg":
			n = identity()
			n.Sub(old)
		case "double":
			n.Add(old)
		case "other":
			o := others[rng.Intn(len(others))]
			if o.G1 == nil || *o.G1 == nil {
				return undo, false
			}
			n = *o.G1
			if rng.Intn(2) == 0 {
				n = n.Copy()
			}
		case "random":
			n = curve.GenG1.Mul(curve.NewRandomZr(mustRand()))
		}
		*l.G1 = n
		return undo, !n.Equals(old)
	}
	old := *l.Zr
	undo = func() { *l.Zr = old }
	x := residue(old)
	switch how {
	case "add":
		x.Add(x, big.NewInt(1))
	case "zero":
		x = new(big.Int)
	case "neg":
		x.Neg(x)
	case "double":
		x.Add(x, x)
	case "other":
		o := others[rng.Intn(len(others))]
		if o.Zr == nil || *o.Zr == nil {
			return undo, false
		}
		x = residue(*o.Zr)
	case "random":
		x = residue(curve.NewRandomZr(mustRand()))
	}
	x.Mod(x, order)
	*l.Zr = zrOf(x)
	return undo, x.Cmp(residue(old)) != 0
}

// node is a part of a proof that is made of several elements.
type node struct {
	path string
	v    reflect.Value
}

// nodes lists the sub-proofs and lists below v (a pointer).
func nodes(v interface{}) []node {
	var res []node
	var walk func(v reflect.Value, path string)
	walk = func(v reflect.Value, path string) {
		v = exposed(v)
		switch v.Kind() {
		case reflect.Ptr:
			switch v.Type() {
			case tG1, tZr, tG2, tGt:
				return
			}
			if !v.IsNil() {
				if v.CanSet() {
					res = append(res, node{path, v})
				}
				walk(v.Elem(), path)
			}
		case reflect.Struct:
			if v.CanSet() && path != "" {
				res = append(res, node{path, v})
			}
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), path+"/"+fieldName(v.Type().Field(i)))
			}
		case reflect.Slice, reflect.Array:
			if v.CanSet() {
				res = append(res, node{path, v})
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), path+"["+strconv.Itoa(i)+"]")
			}
		}
	}
	walk(reflect.ValueOf(v).Elem(), "")
	return res
}

func leafHex(l Leaf) string {
	if l.G1 != nil {
		if *l.G1 == nil {
			return "none"
		}
		return g1Hex(*l.G1)
	}
	if *l.Zr == nil {
		return "none"
	}
	return zrHex(*l.Zr)
}

func mustRand() interface {
	Read(p []byte) (n int, err error)
} {
	r, err := curve.Rand()
	if err != nil {
		fatal("no randomness")
	}
	return r
}

// runTamper changes the components of valid liability and total proofs.
func runTamper(rec *Recorder, s *Scenario) {
	fan, depth := s.Int("fan", 3), s.Int("depth", 2)
	rng := mrand.New(mrand.NewSource(int64(s.Int("seed", 1))))
	p := smallParams(fan, depth)
	var hows, ids []string
	s.Get("hows", &hows)
	s.Get("ids_used", &ids)
	part, parts := s.Int("part", 0), s.Int("parts", 1)
	ls := pol.NewLiabilitySet(p, &RecDB{m: map[string][]byte{}}, parseDotted)
	rec.Emit(Event{"ev": "begin"})
	type made struct {
		id   string
		p    pol.LiabilityProof
		V, W *math.G1
	}
	var proofs []made
	var tot pol.TotalProof
	var V, W *math.G1
	if e := try(func() {
		for i, id := range ids {
			ls.Set(id, int64(1+i)<<uint(7*i))
		}
		V, W = ls.Root()
		swaps := s.Str("what", "") == "leafswap" || s.Str("what", "") == "parts"
		for _, id := range ids {
			if len(proofs) > 0 && !swaps {
				break
			}
			_, lp, _, _ := ls.ProveLiability(id)
			proofs = append(proofs, made{id, lp, V, W})
		}
		// the same id at a later time
		ls.Set(ids[0], 77777)
		V2, W2 := ls.Root()
		if swaps {
			_, lp, _, _ := ls.ProveLiability(ids[0])
			proofs = append(proofs, made{ids[0], lp, V2, W2})
		}
		tot = ls.ProveTot()
		V = V2
	}); e != nil {
		rec.Emit(Event{"ev": "uncalibrated", "what": "history"})
		return
	}
	check := func(m *made) (ok, panicked bool) {
		pn := try(func() {
			_, err := m.p.Verify(p, m.id, m.V, m.W, parseDotted)
			ok = err == nil
		})
		return ok && pn == nil, pn != nil
	}
	for i := range proofs {
		if ok, _ := check(&proofs[i]); !ok {
			rec.Emit(Event{"ev": "uncalibrated", "what": "honest proof"})
			return
		}
	}
	emit := func(kind, where, how string, excused, ok, panicked bool) {
		rec.Emit(Event{"ev": "tamper", "kind": kind, "where": ascii.Replace(where), "how": how, "excused": excused, "ok": ok, "panic": panicked})
	}

	switch s.Str("what", "leaves") {
	case "leaves":
		m := made{proofs[0].id, *(deepCopy(&proofs[0].p).(*pol.LiabilityProof)), proofs[0].V, proofs[0].W}
		ls := leaves(&m.p)
		k := 0
		for _, l := range ls {
			for _, how := range hows {
				k++
				if k%parts != part {
					continue
				}
				undo, differs := alter(l, how, ls, rng)
				if !differs {
					undo()
					continue
				}
				ok, pn := check(&m)
				undo()
				emit("leaf", l.Path, how, inertPath(l.Path, depth), ok, pn)
			}
		}
		if ok, _ := check(&m); !ok {
			fatal("tampering was not undone")
		}
	case "total":
		q := *(deepCopy(&tot).(*pol.TotalProof))
		for _, l := range leaves(&q) {
			for _, how := range []string{"add", "zero", "neg", "double", "random"} {
				undo, differs := alter(l, how, leaves(&q), rng)
				ok := false
				pn := try(func() { ok = q.Verify(p, V) == nil })
				undo()
				if differs {
					emit("total", l.Path, how, false, ok, pn != nil)
				}
			}
		}
	case "leafswap":
		// every leaf by its counterpart in another valid proof
		for b := 1; b < len(proofs); b++ {
			m := made{proofs[0].id, *(deepCopy(&proofs[0].p).(*pol.LiabilityProof)), proofs[0].V, proofs[0].W}
			x, y := leaves(&m.p), leaves(&proofs[b].p)
			if len(x) != len(y) {
				continue
			}
			for i := range x {
				if (i+b)%parts != part {
					continue
				}
				if x[i].G1 != nil {
					old := *x[i].G1
					if old.Equals(*y[i].G1) {
						continue
					}
					*x[i].G1 = (*y[i].G1).Copy()
					ok, pn := check(&m)
					*x[i].G1 = old
					emit("leafswap", x[i].Path, "from proof "+itoa(b), inertPath(x[i].Path, depth), ok, pn)
				} else {
					old := *x[i].Zr
					if residue(old).Cmp(residue(*y[i].Zr)) == 0 {
						continue
					}
					*x[i].Zr = (*y[i].Zr).Copy()
					ok, pn := check(&m)
					*x[i].Zr = old
					emit("leafswap", x[i].Path, "from proof "+itoa(b), inertPath(x[i].Path, depth), ok, pn)
				}
			}
		}
	case "parts":
		same := func(x, y []*math.G1) bool {
			if len(x) != len(y) {
				return false
			}
			for i := range x {
				if !x[i].Equals(y[i]) {
					return false
				}
			}
			return true
		}
		fresh := func() made {
			return made{proofs[0].id, *(deepCopy(&proofs[0].p).(*pol.LiabilityProof)), proofs[0].V, proofs[0].W}
		}
		n := 0
		run := func(m *made, kind, where, how string, excused bool) {
			n++
			if n%parts != part {
				return
			}
			ok, pn := check(m)
			emit(kind, where, how, excused, ok, pn)
		}
		// between layers
		for i := 0; i < depth; i++ {
			for j := i + 1; j < depth; j++ {
				m := fresh()
				m.p.V[i], m.p.V[j] = m.p.V[j], m.p.V[i]
				run(&m, "layers", "V", itoa(i)+"-"+itoa(j), m.p.V[i].Equals(m.p.V[j]))
				m = fresh()
				m.p.RangeProofs[i], m.p.RangeProofs[j] = m.p.RangeProofs[j], m.p.RangeProofs[i]
				run(&m, "layers", "RangeProofs", itoa(i)+"-"+itoa(j), m.p.V[i].Equals(m.p.V[j]))
				// the very same, not a copy
				for _, way := range [][2]int{{i, j}, {j, i}} {
					to, from := way[0], way[1]
					how := itoa(to) + "<-" + itoa(from)
					m = fresh()
					m.p.RangeProofs[to] = m.p.RangeProofs[from]
					run(&m, "layers", "RangeProofs shared", how, m.p.V[i].Equals(m.p.V[j]))
					m = fresh()
					m.p.V[to], m.p.RangeProofs[to] = m.p.V[from], m.p.RangeProofs[from]
					run(&m, "layers", "V and RangeProofs shared", how, proofs[0].p.V[i].Equals(proofs[0].p.V[j]))
					m = fresh()
					m.p.V[to] = m.p.V[from]
					run(&m, "layers", "V shared", how, proofs[0].p.V[i].Equals(proofs[0].p.V[j]))
					m = fresh()
					m.p.Digests[to] = m.p.Digests[from]
					run(&m, "layers", "Digests shared", how, to == depth-1 || zrHex(proofs[0].p.Digests[i]) == zrHex(proofs[0].p.Digests[j]))
					if j < depth-1 {
						m = fresh()
						m.p.W[to] = m.p.W[from]
						run(&m, "layers", "W shared", how, proofs[0].p.W[i].Equals(proofs[0].p.W[j]))
					}
				}
				if j < depth-1 {
					m = fresh()
					m.p.W[i], m.p.W[j] = m.p.W[j], m.p.W[i]
					run(&m, "layers", "W", itoa(i)+"-"+itoa(j), m.p.W[i].Equals(m.p.W[j]))
				}
				m = fresh()
				m.p.Digests[i], m.p.Digests[j] = m.p.Digests[j], m.p.Digests[i]
				run(&m, "layers", "Digests", itoa(i)+"-"+itoa(j), zrHex(m.p.Digests[i]) == zrHex(m.p.Digests[j]))
			}
		}
		// between proofs
		for b := 1; b < len(proofs); b++ {
			o := proofs[b]
			from := "from proof " + itoa(b)
			a := proofs[0]
			sameV, sameW := same(a.p.V, o.p.V), same(a.p.W, o.p.W)
			sameID := a.id == o.id
			above := a.id[:strings.LastIndex(a.id, ".")] == o.id[:strings.LastIndex(o.id, ".")] // the same vertices
			for i := 0; i < depth; i++ {
				m := fresh()
				m.p.RangeProofs[i] = o.p.RangeProofs[i]
				run(&m, "proofs", "RangeProofs", from, a.p.V[i].Equals(o.p.V[i]))
				m = fresh()
				m.p.V[i] = o.p.V[i]
				run(&m, "proofs", "V", from, a.p.V[i].Equals(o.p.V[i]))
				m = fresh()
				m.p.V[i], m.p.RangeProofs[i] = o.p.V[i], o.p.RangeProofs[i]
				run(&m, "proofs", "V and RangeProofs", from, a.p.V[i].Equals(o.p.V[i]))
			}
			m := fresh()
			m.p.SumArgumentProof = o.p.SumArgumentProof
			run(&m, "proofs", "SumArgumentProof", from, sameV)
			m = fresh()
			m.p.EqualityProof = o.p.EqualityProof
			run(&m, "proofs", "EqualityProof", from, sameV && above)
			m = fresh()
			m.p.W = o.p.W
			run(&m, "proofs", "W", from, sameW)
			m = fresh()
			m.p.V, m.p.RangeProofs, m.p.SumArgumentProof, m.p.EqualityProof = o.p.V, o.p.RangeProofs, o.p.SumArgumentProof, o.p.EqualityProof
			run(&m, "proofs", "all but digests and openings", from, sameV && above)
			m = fresh()
			m.p.W, m.p.Digests, m.p.PointProofΣ, m.p.PointProofπ = o.p.W, o.p.Digests, o.p.PointProofΣ, o.p.PointProofπ
			run(&m, "proofs", "all of the digests", from, sameW && above)
			m = fresh()
			m.p.PointProofΣ, m.p.PointProofπ = o.p.PointProofΣ, o.p.PointProofπ
			run(&m, "proofs", "aggregate", from, sameW && above)
			m = fresh()
			m.p.LiabilityProof = o.p.LiabilityProof
			run(&m, "proofs", "LiabilityProof", from, a.p.V[depth-1].Equals(o.p.V[depth-1]) && sameID)
		}
	case "nodes":
		// sub-proofs and lists in the place of others of their type
		m := made{proofs[0].id, *(deepCopy(&proofs[0].p).(*pol.LiabilityProof)), proofs[0].V, proofs[0].W}
		ns := nodes(&m.p)
		before := map[string]string{}
		for _, l := range leaves(&m.p) {
			before[l.Path] = leafHex(l)
		}
		k := 0
		for i := range ns {
			for j := range ns {
				if i == j || ns[i].v.Type() != ns[j].v.Type() {
					continue
				}
				k++
				if k%parts != part {
					continue
				}
				old := reflect.New(ns[i].v.Type()).Elem()
				old.Set(ns[i].v)
				ns[i].v.Set(ns[j].v)
				now := leaves(&m.p)
				excused := len(now) == len(before)
				for _, l := range now {
					if before[l.Path] != leafHex(l) && !inertPath(l.Path, depth) {
						excused = false
					}
				}
				ok, pn := check(&m)
				ns[i].v.Set(old)
				emit("node", ns[i].path, "is "+ascii.Replace(ns[j].path), excused, ok, pn)
			}
		}
		if ok, _ := check(&m); !ok {
			fatal("tampering was not undone")
		}
	case "lengths":
		at := &attacker{}
		for k, what := range lengthKinds {
			if k%parts != part {
				continue
			}
			m := made{proofs[0].id, *(deepCopy(&proofs[0].p).(*pol.LiabilityProof)), proofs[0].V, proofs[0].W}
			at.lengthen(&m.p, nil, what)
			ok, pn := check(&m)
			rec.Emit(Event{"ev": "length", "what": what, "ok": ok, "panic": pn})
		}
	}
}
