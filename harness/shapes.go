package main

import (
	mrand "math/rand"
	"reflect"
	"strings"

	"pol/bp"
	"pol/common"
	"pol/poe"
	"pol/pol"
	"pol/sum"

	math "github.com/IBM/mathlib"
)

func init() { kinds["shapes"] = runShapes }

// A list somewhere in a proof.
type proofList struct {
	where string
	v     reflect.Value
}

// listsOf finds the lists of a proof (a pointer), those in lists included.
func listsOf(v reflect.Value, where string, out *[]proofList) {
	v = exposed(v)
	switch v.Type() {
	case tG1, tG2, tGt, tZr:
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			listsOf(v.Elem(), where, out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			listsOf(v.Field(i), where+"/"+fieldName(v.Type().Field(i)), out)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		*out = append(*out, proofList{where, v})
		for i := 0; i < v.Len(); i++ {
			listsOf(v.Index(i), where+"["+itoa(i)+"]", out)
		}
	}
}

// resized gives the list another length; what is added are entries it has.
func resized(v reflect.Value, n int, how string, rng *mrand.Rand) reflect.Value {
	res := reflect.MakeSlice(v.Type(), 0, n)
	at := 0
	if how == "front" && n < v.Len() {
		at = v.Len() - n
	}
	for i := 0; i < n; i++ {
		k := at + i
		if how == "front" && n > v.Len() {
			k = i - (n - v.Len())
		}
		if k < 0 || k >= v.Len() {
			if v.Len() == 0 {
				x := reflect.New(v.Type().Elem()).Elem()
				switch t := x.Addr().Interface().(type) {
				case **math.G1:
					*t = curve.GenG1.Copy()
				case **math.Zr:
					*t = curve.NewZrFromInt(1)
				case *[3]*math.G1:
					*t = [3]*math.G1{curve.GenG1.Copy(), curve.GenG1.Copy(), curve.GenG1.Copy()}
				}
				res = reflect.Append(res, x)
				continue
			}
			k = rng.Intn(v.Len())
			if how == "last" {
				k = v.Len() - 1
			}
		}
		res = reflect.Append(res, v.Index(k))
	}
	return res
}

type shaped struct {
	what   string
	proof  interface{} // a pointer
	verify func(interface{}) error
}

type reduction struct{ Δ [][3]*math.G1 }

func runShapes(rec *Recorder, s *Scenario) {
	rec.Emit(Event{"ev": "begin"})
	rng := mrand.New(mrand.NewSource(int64(s.Int("seed", 1))))
	x := shapedProof(s, rng)
	var err error
	if x.proof != nil {
		if pn := try(func() { err = x.verify(deepCopy(x.proof)) }); pn != nil || err != nil {
			x.proof = nil
		}
	}
	if x.proof == nil {
		rec.Emit(Event{"ev": "unbuilt", "what": x.what})
		return
	}
	show := func(change func(ls []proofList) map[int]int, how string) {
		q := deepCopy(x.proof)
		var ls []proofList
		listsOf(reflect.ValueOf(q).Elem(), "", &ls)
		to := change(ls)
		lists := []Event{}
		// inner lists first: outer ones are rebuilt
		for i := len(ls) - 1; i >= 0; i-- {
			n, ok := to[i]
			if !ok || n < 0 || n == ls[i].v.Len() {
				continue
			}
			lists = append(lists, Event{"list": ascii.Replace(ls[i].where), "want": ls[i].v.Len(), "got": n})
			ls[i].v.Set(resized(ls[i].v, n, how, rng))
		}
		if len(lists) == 0 {
			return
		}
		ok := false
		pn := try(func() { ok = x.verify(q) == nil })
		e := Event{"ev": "shape", "what": x.what, "lists": lists, "how": how, "par": s.Par, "ok": ok && pn == nil, "panic": pn != nil}
		if pn != nil {
			e["text"] = ascii.Replace(panicText(pn))
		}
		rec.Emit(e)
	}
	var all []proofList
	listsOf(reflect.ValueOf(x.proof).Elem(), "", &all)
	hows := []string{"back", "front", "last"}
	chosen := rng.Intn(1000)
	for i, l := range all {
		i, n := i, l.v.Len()
		// one of the range proofs will do
		if k := s.Int("depth", 0); k > 0 && strings.Contains(l.where, "[") && !strings.Contains(l.where, "["+itoa(chosen%k)+"]") {
			continue
		}
		for _, k := range []int{0, 1, n / 2, n - 2, n - 1, n + 1, n + 2, 2 * n, n + 1 + rng.Intn(5)} {
			k := k
			show(func([]proofList) map[int]int { return map[int]int{i: k} }, hows[rng.Intn(len(hows))])
		}
	}
	// several lists at once, by the same number of entries
	for k := 0; k < s.Int("joint", 20); k++ {
		by := []int{-2, -1, -1, 1, 1, 2}[rng.Intn(6)]
		top := k%2 == 0
		show(func(ls []proofList) map[int]int {
			to := map[int]int{}
			for i, l := range ls {
				if (!top || strings.Count(l.where, "/") == 1) && (k%4 == 0 || rng.Intn(2) == 0) {
					to[i] = l.v.Len() + by
				}
			}
			return to
		}, hows[rng.Intn(len(hows))])
	}
}

// shapedProof makes an honest proof of the kind asked for.
func shapedProof(s *Scenario, rng *mrand.Rand) (x shaped) {
	x.what = s.Str("what", "liability")
	n, m := s.Int("n", 4), s.Int("m", 2)
	rnd := func() *math.Zr { return common.RandVec(1)[0] }
	defer func() {
		if e := recover(); e != nil {
			x.proof = nil
		}
	}()
	switch x.what {
	case "liability":
		fan, depth := s.Int("fan", 3), s.Int("depth", 2)
		p := smallParams(fan, depth)
		ls := pol.NewLiabilitySet(p, &RecDB{m: map[string][]byte{}}, parseDotted)
		path := make([]uint16, depth)
		for i := range path {
			path[i] = uint16(rng.Intn(fan))
		}
		id := dotted(path)
		ls.Set(id, rng.Int63())
		V, W := ls.Root()
		_, lp, _, _ := ls.ProveLiability(id)
		x.proof = &lp
		x.verify = func(q interface{}) error {
			_, err := q.(*pol.LiabilityProof).Verify(p, id, V, W, parseDotted)
			return err
		}
	case "range":
		p := rangePP(n)
		v := make(common.Vec, n)
		for i := range v {
			v[i] = curve.NewZrFromInt(rng.Int63())
		}
		r := rnd()
		V := pedersen(p.F, p.Gs, v, r)
		x.proof = bp.ProveRange(p, V, v, r)
		x.verify = func(q interface{}) error { return bp.VerifyRange(p, q.(*bp.RangeProof), V) }
	case "sum":
		p := sumPP(n)
		v := make(common.Vec, n)
		total := int64(0)
		for i := range v[:n-1] {
			k := rng.Int63n(1 << 40)
			total += k
			v[i] = curve.NewZrFromInt(k)
		}
		v[n-1] = curve.NewZrFromInt(total)
		r := rnd()
		V := pedersen(p.F, p.Gs, v, r)
		a, proof := sum.NewArgument(p, V, v, r)
		x.proof = proof
		x.verify = func(q interface{}) error { return q.(*sum.Proof).Verify(p, a) }
	case "equal":
		p := poePP(n, m)
		e := &poe.Equalities{PP: p, RO: poe.RO}
		var vs, ws []common.Vec
		for k := 0; k < m; k++ {
			v, w := common.RandVec(n), common.RandVec(n)
			i, j := rng.Intn(n-1), rng.Intn(n-1)
			w[j] = v[i]
			vs, ws = append(vs, v), append(ws, w)
			e.I, e.J = append(e.I, i), append(e.J, j)
			e.V = append(e.V, common.G1v(p.PP.G1s[:n]).MulV(v).Sum())
			e.W = append(e.W, common.G1v(p.PP.G1s[:n]).MulV(w).Sum())
		}
		x.proof = e.Prove(vs, ws)
		x.verify = func(q interface{}) error { return e.Verify(q.(*poe.AggregatedProof)) }
	case "ipa":
		p := ipaPP(n)
		x.proof = bp.NewInnerProdArgument(p, common.RandVec(n), common.RandVec(n)).Prove()
		x.verify = func(q interface{}) error { return q.(*bp.InnerProductProof).Verify(p) }
	case "reduce":
		p := ipaPP(n)
		v := common.RandVec(n)
		V := common.G1v(p.G).MulV(v).Sum()
		delta, _, final := bp.IterativeReduce(p, v, V)
		x.proof = &reduction{delta}
		x.verify = func(q interface{}) error {
			_, _, err := bp.IterativeVerify(p, V, q.(*reduction).Δ, final)
			return err
		}
	}
	return x
}
