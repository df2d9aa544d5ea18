package main

import (
	"fmt"
	"math/big"
	mrand "math/rand"
	"reflect"

	"pol/common"

	math "github.com/IBM/mathlib"
)

func init() { kinds["algebra"] = runAlgebra }

const unknown = 987654321 // a result that is none of the small numbers

// algebra calls the operations of the vector algebra with operands that stand
// for small numbers and recognizes small numbers in the results.
type algebra struct {
	*Recorder
	rng   *mrand.Rand
	unit  *big.Int // scalars are multiples of it
	g     *math.G1 // group elements are multiples of these
	h     *math.G2
	logs1 map[string]int
	logs2 map[string]int
	logsT map[string]int
}

const span = 1200

func newAlgebra(rec *Recorder, seed int64) *algebra {
	a := &algebra{Recorder: rec, rng: mrand.New(mrand.NewSource(seed)), logs1: map[string]int{}, logs2: map[string]int{}, logsT: map[string]int{}}
	units := []*big.Int{big.NewInt(1), big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), 64), new(big.Int).Rand(a.rng, order), new(big.Int).Sub(order, big.NewInt(2))}
	a.unit = units[a.rng.Intn(len(units))]
	a.g = curve.GenG1.Mul(zrOf(big.NewInt(1 + a.rng.Int63())))
	a.h = curve.GenG2.Mul(zrOf(big.NewInt(1 + a.rng.Int63())))
	zero1, zero2 := a.g.Copy(), a.h.Copy()
	zero1.Sub(a.g)
	zero2.Sub(a.h)
	up1, down1, up2, down2 := zero1.Copy(), zero1.Copy(), zero2.Copy(), zero2.Copy()
	e := curve.FExp(curve.Pairing(a.h, a.g))
	inv := curve.FExp(curve.Pairing(a.h, minusG1(a.g)))
	upT, downT := curve.FExp(curve.Pairing(a.h, a.g)), curve.FExp(curve.Pairing(a.h, minusG1(a.g)))
	one := curve.FExp(curve.Pairing(a.h, a.g))
	one.Mul(inv)
	a.logsT[string(one.Bytes())] = 0
	for k := 0; k <= span; k++ {
		a.logs1[string(up1.Bytes())] = k
		a.logs1[string(down1.Bytes())] = -k
		up1.Add(a.g)
		down1.Sub(a.g)
		if k <= 300 {
			a.logs2[string(up2.Bytes())] = k
			a.logs2[string(down2.Bytes())] = -k
			up2.Add(a.h)
			down2.Sub(a.h)
		}
		if k > 0 && k <= 600 {
			a.logsT[string(upT.Bytes())] = k
			a.logsT[string(downT.Bytes())] = -k
			upT.Mul(e)
			downT.Mul(inv)
		}
	}
	return a
}

func minusG1(g *math.G1) *math.G1 {
	x := g.Copy()
	x.Sub(g)
	x.Sub(g)
	return x
}

// scalar makes a scalar that stands for n, in some representation.
func (a *algebra) scalar(n int, unit *big.Int) *math.Zr {
	x := new(big.Int).Mul(big.NewInt(int64(n)), unit)
	return rawZr(x.Mod(x, order), []string{"", "neg", "big"}[a.rng.Intn(3)])
}

func (a *algebra) vec(ns []int, unit *big.Int) common.Vec {
	// part of a longer vector, the rest of which is nobody's business
	res := make(common.Vec, len(ns)+a.rng.Intn(2)*3)
	for i := range res {
		n := i
		if i < len(ns) {
			n = ns[i]
		}
		res[i] = a.scalar(n, unit)
	}
	return res[:len(ns)]
}

func (a *algebra) g1v(ns []int) common.G1v {
	res := make(common.G1v, len(ns)+a.rng.Intn(2)*3)
	for i := range res {
		n := i
		if i < len(ns) {
			n = ns[i]
		}
		res[i] = a.g.Mul(zrOf(new(big.Int).Mod(big.NewInt(int64(n)), order)))
	}
	return res[:len(ns)]
}

func (a *algebra) g2v(ns []int) common.G2v {
	res := make(common.G2v, len(ns)+a.rng.Intn(2)*3)
	for i := range res {
		n := i
		if i < len(ns) {
			n = ns[i]
		}
		res[i] = a.h.Mul(zrOf(new(big.Int).Mod(big.NewInt(int64(n)), order)))
	}
	return res[:len(ns)]
}

// numbers recognizes what a result stands for.  Its scalars are multiples of
// the given power of the unit.
func (a *algebra) numbers(x interface{}, degree int, unit *big.Int) []int {
	f := big.NewInt(1)
	for i := 0; i < degree; i++ {
		f.Mod(f.Mul(f, unit), order)
	}
	f.ModInverse(f, order)
	res := []int{}
	look := func(m map[string]int, b []byte) {
		if n, ok := m[string(b)]; ok {
			res = append(res, n)
		} else {
			res = append(res, unknown)
		}
	}
	switch t := x.(type) {
	case *math.Zr:
		return a.numbers(common.Vec{t}, degree, unit)
	case []*math.Zr:
		return a.numbers(common.Vec(t), degree, unit)
	case *math.G1:
		return a.numbers(common.G1v{t}, degree, unit)
	case *math.G2:
		return a.numbers(common.G2v{t}, degree, unit)
	case common.Vec:
		for _, z := range t {
			n := residue(z)
			n.Mod(n.Mul(n, f), order)
			if n.Cmp(half) > 0 {
				n.Sub(n, order)
			}
			if n.BitLen() < 29 {
				res = append(res, int(n.Int64()))
			} else {
				res = append(res, unknown)
			}
		}
	case common.G1v:
		for _, g := range t {
			look(a.logs1, g.Mul(zrOf(f)).Bytes())
		}
	case common.G2v:
		for _, g := range t {
			look(a.logs2, g.Mul(zrOf(f)).Bytes())
		}
	case *math.Gt:
		look(a.logsT, t.Bytes())
	default:
		return []int{unknown}
	}
	return res
}

var half = new(big.Int).Rsh(bigOf(curve.GroupOrder), 1)

func (a *algebra) print(xs ...interface{}) string {
	s := ""
	for _, x := range xs {
		switch t := x.(type) {
		case common.Vec:
			for _, z := range t {
				s += residue(z).Text(16) + ","
			}
		case common.G1v:
			s += fmt.Sprintf("%x;", t.Bytes())
		case common.G2v:
			s += fmt.Sprintf("%x;", t.Bytes())
		case []*math.G1:
			s += fmt.Sprintf("%x;", common.G1v(t).Bytes())
		case []*math.Zr:
			s += a.print(common.Vec(t))
		case *math.Zr:
			s += residue(t).Text(16) + ";"
		case []uint8:
			s += fmt.Sprintf("%x;", t)
		}
	}
	return s
}

// method calls a method by name; ok is false if there is none like that.
func method(recv interface{}, name string, args ...interface{}) (res interface{}, panicked, ok bool) {
	m := reflect.ValueOf(recv).MethodByName(name)
	if !m.IsValid() || m.Type().NumIn() != len(args) || m.Type().IsVariadic() {
		return nil, false, false
	}
	in := make([]reflect.Value, len(args))
	for i, x := range args {
		v := reflect.ValueOf(x)
		if !v.Type().ConvertibleTo(m.Type().In(i)) {
			return nil, false, false
		}
		in[i] = v.Convert(m.Type().In(i))
	}
	var out []reflect.Value
	panicked = try(func() { out = m.Call(in) }) != nil
	if len(out) == 1 {
		res = out[0].Interface()
	}
	return res, panicked, true
}

func runAlgebra(rec *Recorder, s *Scenario) {
	a := newAlgebra(rec, int64(s.Int("seed", 1)))
	rec.Emit(Event{"ev": "begin"})
	one := big.NewInt(1)
	var cases []struct {
		A    []int `json:"a"`
		B    []int `json:"b"`
		X    int   `json:"x"`
		Bits []int `json:"bits"`
		Ones []int `json:"ones"`
		Len  int   `json:"len"`
	}
	s.Get("cases", &cases)
	nums := func(x []int) []int {
		if x == nil {
			return []int{}
		}
		return x
	}
	for _, c := range cases {
		v, w, x := a.vec(c.A, a.unit), a.vec(c.B, a.unit), a.scalar(c.X, a.unit)
		v1, x1 := a.vec(c.A, one), a.scalar(c.X, one)
		g, g2, h, h2 := a.g1v(c.A), a.g1v(c.B), a.g2v(c.A), a.g2v(c.B)
		// every call gets the same operands, which must stay what they are
		state := func() string {
			return a.print(v[:cap(v)], w[:cap(w)], x, v1[:cap(v1)], x1, g[:cap(g)], g2[:cap(g2)], h[:cap(h)], h2[:cap(h2)])
		}
		before := state()
		// and results stay what they were when they were returned
		var results []interface{}
		var printed []string
		call := func(op string, degree int, unit *big.Int, na, nb []int, nx int, f func() (interface{}, bool, bool)) {
			r, panicked, ok := f()
			if !ok {
				rec.Emit(Event{"ev": "unbuilt", "what": op})
				return
			}
			e := Event{"ev": "call", "op": op, "a": nums(na), "b": nums(nb), "x": nx, "panic": panicked, "res": []int{}}
			if !panicked {
				e["res"] = a.numbers(r, degree, unit)
			}
			e["intact"] = state() == before
			rec.Emit(e)
			if !panicked {
				results, printed = append(results, r), append(printed, a.print(r))
			}
		}
		m := func(op string, degree int, recv interface{}, name string, args ...interface{}) {
			call(op, degree, a.unit, c.A, c.B, c.X, func() (interface{}, bool, bool) { return method(recv, name, args...) })
		}
		m("Vec.Add", 1, v, "Add", w)
		m("Vec.Sub", 1, v, "Sub", w)
		m("Vec.Mul", 2, v, "Mul", x)
		m("Vec.HadamardProd", 2, v, "HadamardProd", w)
		m("Vec.InnerProd", 2, v, "InnerProd", w)
		m("Vec.Reverse", 1, v, "Reverse")
		m("Vec.Concat", 1, v, "Concat", w)
		if len(v)%2 == 0 {
			m("Vec.Evens", 1, v, "Evens")
			m("Vec.Odds", 1, v, "Odds")
		}
		m("Vec.Exp", 1, v, "Exp", []*math.G1(g2))
		m("G1v.Add", 0, g, "Add", g2)
		m("G1v.HadamardProd", 0, g, "HadamardProd", g2)
		m("G1v.Neg", 0, g, "Neg")
		m("G1v.Mul", 1, g, "Mul", x)
		m("G1v.MulV", 1, g, "MulV", w)
		m("G1v.Sum", 0, g, "Sum")
		if len(v) <= 4 {
			m("G2v.Add", 0, h, "Add", h2)
			m("G2v.Mul", 1, h, "Mul", x)
			m("G2v.Mulv", 1, h, "Mulv", []*math.Zr(w))
			m("G2v.Sum", 0, h, "Sum")
		}
		if len(v) <= 4 || len(v) >= 30 && len(v) <= 300 {
			m("G1v.InnerProd", 0, g, "InnerProd", h2)
		}
		k := len(c.Bits)
		call("G1v.Duplicate", 0, one, c.A[:1], nil, k, func() (interface{}, bool, bool) { return method(g[:1], "Duplicate", k) })
		call("G2v.Duplicate", 0, one, c.A[:1], nil, k, func() (interface{}, bool, bool) { return method(h[:1], "Duplicate", k) })
		bits := make([]uint8, len(c.Bits))
		for i, b := range c.Bits {
			bits[i] = uint8(b)
		}
		call("Vec.PowBitVec", 0, one, c.A, c.Bits, 0, func() (interface{}, bool, bool) { return method(v1, "PowBitVec", bits) })
		if len(v) <= 6 {
			call("Vec.Product", 0, one, c.A, nil, 0, func() (interface{}, bool, bool) { return method(v1, "Product") })
			call("PowerSeries", 0, one, nil, []int{len(v)}, c.X, func() (r interface{}, p, ok bool) {
				p = try(func() { r = common.PowerSeries(len(v), x1) }) != nil
				return r, p, true
			})
		}
		call("NegZr", 1, a.unit, nil, nil, c.X, func() (r interface{}, p, ok bool) {
			p = try(func() { r = common.NegZr(x) }) != nil
			return r, p, true
		})
		call("IntToZr", 0, one, nil, nil, c.X, func() (r interface{}, p, ok bool) {
			p = try(func() { r = common.IntToZr(c.X) }) != nil
			return r, p, true
		})
		call("Pow2", 0, one, nil, nil, len(v)%17, func() (r interface{}, p, ok bool) {
			p = try(func() { r = common.Pow2(len(v) % 17) }) != nil
			return r, p, true
		})
		for i, r := range results {
			if a.print(r) != printed[i] {
				rec.Emit(Event{"ev": "changed", "what": fmt.Sprintf("result %d", i)})
			}
		}
		z := append(common.Vec{}, v...)
		call("Vec.Zero", 0, one, c.A, nil, 0, func() (interface{}, bool, bool) {
			_, p, ok := method(z, "Zero")
			return z, p, ok
		})
		// binary digits
		n := new(big.Int)
		for _, i := range c.Ones {
			n.SetBit(n, i, 1)
		}
		for _, name := range []string{"Bits", "BitsBigEndian"} {
			f := map[string]func(*math.Zr, int) []uint8{"Bits": common.Bits, "BitsBigEndian": common.BitsBigEndian}[name]
			y := curve.NewZrFromBytes(n.Bytes())
			var r []uint8
			p := try(func() { r = f(y, c.Len) }) != nil
			res := make([]int, len(r))
			for i := range r {
				res[i] = int(r[i])
			}
			rec.Emit(Event{"ev": "call", "op": name, "a": nums(c.Ones), "b": []int{}, "x": c.Len, "panic": p, "res": res, "intact": residue(y).Cmp(n) == 0 && state() == before})
		}
		// operands that do not fit together
		short := len(v) - 1
		misfit := func(op string, recv interface{}, name string, args ...interface{}) {
			if _, p, ok := method(recv, name, args...); ok {
				rec.Emit(Event{"ev": "misfit", "op": op, "panic": p})
			}
		}
		for _, name := range []string{"Add", "Sub", "InnerProd", "HadamardProd"} {
			misfit("Vec."+name, v, name, w[:short])
			misfit("Vec."+name, v[:short], name, w)
		}
		misfit("Vec.Exp", v[:short], "Exp", []*math.G1(g))
		misfit("Vec.Exp", v, "Exp", []*math.G1(g[:short]))
		misfit("G1v.MulV", g, "MulV", w[:short])
		misfit("G1v.MulV", g[:short], "MulV", w)
		misfit("G1v.InnerProd", g, "InnerProd", h[:short])
		misfit("G1v.InnerProd", g[:short], "InnerProd", h)
		if len(v)%2 == 1 {
			misfit("Vec.Evens", v, "Evens")
			misfit("Vec.Odds", v, "Odds")
		}
	}
	if s.Int("powers", 0) > 0 {
		yes := []int{}
		for n := 0; n < 1<<16; n++ {
			if common.IsPowerOfTwo(uint16(n)) {
				yes = append(yes, n)
			}
		}
		rec.Emit(Event{"ev": "powers", "yes": yes})
		// digests
		seen := []string{}
		same, reduced := true, true
		show := func(d []byte) {
			e := append([]byte{}, d...)
			x, y := common.FieldElementFromBytes(d), common.FieldElementFromBytes(e)
			same = same && bigOf(x).Cmp(bigOf(y)) == 0 && string(d) == string(e)
			reduced = reduced && bigOf(x).Sign() >= 0 && bigOf(x).Cmp(order) < 0
			seen = append(seen, residue(x).Text(36))
		}
		d := make([]byte, 32)
		a.rng.Read(d)
		show(d)
		for i := range d { // neighbours
			for k := 0; k < 8; k++ {
				e := append([]byte{}, d...)
				e[i] ^= 1 << uint(k)
				show(e)
			}
		}
		for k := 0; k < 40; k++ {
			e := make([]byte, 32)
			a.rng.Read(e)
			show(e)
		}
		rec.Emit(Event{"ev": "scalars", "same": same, "reduced": reduced, "list": seen})
	}
}
