package main

import (
	"bytes"
	"encoding/asn1"
	"encoding/binary"
	"encoding/json"
	"math/big"
	"sort"
	"strconv"
	"sync"

	"pol/common"
	"pol/pol"
	"pol/pp"
	"pol/sparse"
	"pol/verkle"

	math "github.com/IBM/mathlib"
)

func init() { kinds["tree"] = runTree }

// dbFault is what the injected database failure panics with.
type dbFault struct{}

// RecDB is a database that records every write and can fail at a chosen one.
type RecDB struct {
	mu     sync.Mutex
	m      map[string][]byte
	onPut  func(key string, val []byte, mode string)
	armed  bool
	left   int
	mode   string
	failed bool
}

func (d *RecDB) Get(key []byte) []byte {
	d.mu.Lock()
	defer d.mu.Unlock()
	v, ok := d.m[string(key)]
	if !ok {
		return nil
	}
	return append([]byte(nil), v...)
}

func (d *RecDB) Put(key []byte, val []byte) {
	d.mu.Lock()
	defer d.mu.Unlock()
	k, v := string(key), append([]byte(nil), val...)
	if d.armed {
		if d.left == 0 {
			d.armed, d.failed = false, true
			if d.mode == "after" {
				d.m[k] = v
			}
			if d.onPut != nil {
				d.onPut(k, v, d.mode)
			}
			panic(dbFault{})
		}
		d.left--
	}
	d.m[k] = v
	if d.onPut != nil {
		d.onPut(k, v, "ok")
	}
}

// tree is the part of a liability set or a verkle tree the scenarios use.
type tree struct {
	s      *Scenario
	rec    *Recorder
	fan    int
	depth  int
	p      *pol.PublicParams
	id2p   func(string) []uint16
	ls     *pol.LiabilitySet
	vt     *verkle.Tree
	db     *RecDB
	roots  []root
	tots   []totProof
	proofs []liabProof
	puts   string // which writes are recorded: all, root, none
	params *pol.PublicParams
}

type root struct{ V, W *math.G1 }

type totProof struct {
	p    pol.TotalProof
	root root
}

type liabProof struct {
	id     string
	amount int64
	p      pol.LiabilityProof
	root   root
}

func (t *tree) vertexEvent(val []byte) Event {
	v := &verkle.Vertex{}
	if p := try(func() { v.FromBytes(val) }); p != nil {
		return Event{"unreadable": panicText(p)}
	}
	return t.describe(v, val)
}

func (t *tree) describe(v *verkle.Vertex, raw []byte) Event {
	e := Event{}
	vals := [][]interface{}{}
	m := make([]*big.Int, t.fan+2)
	all := v.Values(t.fan + 1)
	for i := 0; i < t.fan; i++ {
		m[i] = residue(all[i])
		if m[i].Sign() != 0 {
			vals = append(vals, []interface{}{i, limbs(m[i])})
		}
	}
	m[t.fan] = residue(all[t.fan])
	m[t.fan+1] = residue(v.BlindingFactor)

	digs := [][]interface{}{}
	d := make([]*big.Int, t.fan+2)
	for i := range d {
		d[i] = new(big.Int)
	}
	stray := 0
	var slots []int
	for s := range v.Digests {
		slots = append(slots, int(s))
	}
	sort.Ints(slots)
	for _, s := range slots {
		if s >= t.fan {
			stray++
			continue
		}
		d[s] = residue(v.Digests[uint16(s)])
		if d[s].Sign() != 0 {
			digs = append(digs, []interface{}{s, zrHex(v.Digests[uint16(s)])})
		}
	}
	e["vals"] = vals
	e["sum"] = limbs(m[t.fan])
	e["digs"] = digs
	e["stray"] = stray
	e["self"] = zrHex(v.Digest())
	e["nonce"] = zrHex(v.BlindingFactor)
	e["vok"] = opens(t.p.PPPP, v.V, m)
	e["wok"] = v.W == nil && len(digs) == 0 || v.W != nil && opens(t.p.PPPP, v.W, d)
	e["V"] = g1Hex(v.V)
	e["W"] = g1Hex(v.W)
	// the commitment without the blinding factor
	m[t.fan+1] = new(big.Int)
	e["bare"] = opens(t.p.PPPP, v.V, m)
	e["h"] = shortHash(raw)
	if raw != nil {
		e["rt"] = t.roundTrip(v)
	}
	return e
}

// roundTrip encodes a vertex, decodes it and compares.
func (t *tree) roundTrip(v *verkle.Vertex) bool {
	ok := true
	if p := try(func() {
		w := &verkle.Vertex{}
		w.FromBytes(v.Bytes())
		ok = sameVertex(v, w, t.fan)
	}); p != nil {
		return false
	}
	return ok
}

func sameVertex(v, w *verkle.Vertex, fan int) bool {
	a, b := v.Values(fan+1), w.Values(fan+1)
	for i := range a {
		if residue(a[i]).Cmp(residue(b[i])) != 0 {
			return false
		}
	}
	if residue(v.BlindingFactor).Cmp(residue(w.BlindingFactor)) != 0 || g1Hex(v.V) != g1Hex(w.V) || g1Hex(v.W) != g1Hex(w.W) {
		return false
	}
	for _, pair := range [][2]*verkle.Vertex{{v, w}, {w, v}} {
		for s, d := range pair[0].Digests {
			if x, ok := pair[1].Digests[s]; !ok || zrHex(x) != zrHex(d) {
				return false
			}
		}
	}
	return true
}

func runTree(rec *Recorder, s *Scenario) {
	t := &tree{s: s, rec: rec, fan: s.Int("fan", 3), depth: s.Int("depth", 2), puts: s.Str("puts", "all")}
	ids := s.Str("ids", "dotted")
	t.id2p = idMap(ids, t.fan)
	switch s.Str("params", "tree") {
	case "tree":
		t.p = treeParams(t.fan)
	case "full":
		t.p = smallParams(t.fan, t.depth)
	case "real":
		g := realParams(t.fan, ids == "dense")
		t.p, t.id2p = g.pp, g.id2path
	}
	t.db = &RecDB{m: map[string][]byte{}}
	t.db.onPut = func(key string, val []byte, mode string) {
		if t.puts == "none" || (t.puts == "root" && key != "") {
			return
		}
		kp, ok := keyPath(key)
		rec.Emit(Event{"ev": "put", "key": kp, "keyok": ok, "mode": mode, "v": t.vertexEvent(val)})
	}
	rec.Emit(Event{"ev": "new", "fan": t.fan, "depth": t.depth, "ids": ids, "impl": s.Str("impl", "set")})
	if s.Str("impl", "set") == "tree" {
		t.vt = verkle.NewVerkleTree(uint16(t.fan), t.id2p, t.db)
		t.p = &pol.PublicParams{Fanout: t.fan, PPPP: t.vt.PP}
	} else {
		t.ls = pol.NewLiabilitySet(t.p, t.db, t.id2p)
	}
	for _, raw := range s.Ops {
		var op []string
		if err := json.Unmarshal(raw, &op); err != nil {
			fatal("scenario %d: op %s: %v", s.Sid, raw, err)
		}
		t.do(op)
	}
}

func (t *tree) path(id string) []int {
	var p []uint16
	if e := try(func() { p = t.id2p(id) }); e != nil {
		fatal("scenario %d: id %s refused: %v", t.s.Sid, id, e)
	}
	return ints(p)
}

func (t *tree) set(id string, amount int64) (p interface{}) {
	return try(func() {
		if t.ls != nil {
			t.ls.Set(id, amount)
		} else {
			t.vt.Put(id, amount)
		}
	})
}

func (t *tree) get(id string) (n int64, ok bool, p interface{}) {
	p = try(func() {
		if t.ls != nil {
			n, ok = t.ls.Get(id)
		} else {
			n, _, ok = t.vt.Get(id)
		}
	})
	return
}

func i64(s string) int64 {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		fatal("bad amount %s", s)
	}
	return n
}

func amountOf(n int64) interface{} {
	if n < 0 {
		return []int{-1} // no amount at all
	}
	return limbs64(n)
}

func (t *tree) do(op []string) {
	emit := t.rec.Emit
	switch op[0] {
	case "set": // set id amount [fail-at mode]
		amount := i64(op[2])
		emit(Event{"ev": "set", "path": t.path(op[1]), "amount": limbs64(amount)})
		if len(op) == 5 {
			k, _ := strconv.Atoi(op[3])
			t.db.armed, t.db.left, t.db.mode, t.db.failed = true, k, op[4], false
		}
		p := t.set(op[1], amount)
		t.db.armed = false
		_, injected := p.(dbFault)
		switch {
		case p == nil && len(op) == 5 && t.db.failed:
			// the failure of the database went unnoticed
			emit(Event{"ev": "swallowed"})
		case p == nil:
			emit(Event{"ev": "setend"})
		case injected:
			emit(Event{"ev": "setabort"})
		default:
			emit(Event{"ev": "setpanic", "text": panicText(p)})
		}
	case "neg":
		p := t.set(op[1], i64(op[2]))
		emit(Event{"ev": "neg", "path": t.path(op[1]), "refused": p != nil})
	case "get":
		n, ok, p := t.get(op[1])
		emit(Event{"ev": "get", "path": t.path(op[1]), "ok": ok, "amount": amountOf(n), "panic": p != nil})
	case "root":
		V, W, p := t.root()
		emit(Event{"ev": "root", "none": V == nil && W == nil, "V": g1Hex(V), "W": g1Hex(W), "panic": p != nil})
	case "tot":
		t.tot()
	case "verifytot":
		t.verifyTot()
		t.forgeTot()
	case "prove":
		t.prove(op[1])
	case "verify":
		t.verify()
	case "dump":
		t.dump()
	case "vertices":
		t.vertices(op[1])
	case "walk": // every key of the database, to be compared with the store
		keys := []interface{}{}
		for k := range t.db.m {
			kp, ok := keyPath(k)
			if !ok {
				kp = []int{-1}
			}
			keys = append(keys, []interface{}{kp, shortHash(t.db.m[k])})
		}
		emit(Event{"ev": "walk", "items": keys})
	default:
		fatal("unknown op %v", op)
	}
}

func (t *tree) root() (V, W *math.G1, p interface{}) {
	p = try(func() { V, W = t.ls.Root() })
	if p == nil && V != nil {
		r := root{V.Copy(), nil}
		if W != nil {
			r.W = W.Copy()
		}
		if n := len(t.roots); n == 0 || g1Hex(t.roots[n-1].V) != g1Hex(V) || g1Hex(t.roots[n-1].W) != g1Hex(W) {
			t.roots = append(t.roots, r)
		}
	}
	return
}

// tot asks for the total and its proof, and keeps it.
func (t *tree) tot() {
	V, W, _ := t.root()
	var tp pol.TotalProof
	p := try(func() { tp = t.ls.ProveTot() })
	t.rec.Emit(Event{"ev": "tot", "sum": amountOf(int64(tp.Sum)), "panic": p != nil, "V": g1Hex(V)})
	if p == nil && V != nil {
		t.tots = append(t.tots, totProof{tp, root{V, W}})
	}
}

// verifyTot presents every total proof made so far with several totals
// against every root seen so far.
func (t *tree) verifyTot() {
	pick := t.tots
	if len(pick) > 4 {
		pick = append(append([]totProof{}, pick[:2]...), pick[len(pick)-2:]...)
	}
	for i, tp := range pick {
		s := tp.p.Sum
		claims := []int{s}
		for _, x := range []int{-s, s + 1, s - 1, 0, 1, -1, s ^ 1<<32, s + 1<<31, -s - 1, s << 1} {
			claims = append(claims, x)
		}
		for _, r := range t.roots {
			for k, claim := range claims {
				if g1Hex(r.V) != g1Hex(tp.root.V) && k > 1 {
					break
				}
				q := tp.p
				q.Sum = claim
				if q.LiabilityProof != nil {
					q.LiabilityProof = q.LiabilityProof.Copy()
				}
				ok := false
				p := try(func() { ok = q.Verify(t.p, r.V.Copy()) == nil })
				t.rec.Emit(Event{"ev": "vtot", "i": i, "madeV": g1Hex(tp.root.V), "made": amountOf(int64(s)),
					"V": g1Hex(r.V), "neg": claim < 0, "claim": limbs(new(big.Int).Abs(big.NewInt(int64(claim)))), "ok": ok, "panic": p != nil})
			}
		}
	}
}

// forgeTot claims totals of the current root with proofs that open nothing:
// plain group elements, and openings of other slots of the root vertex.
func (t *tree) forgeTot() {
	V, _, _ := t.root()
	if V == nil {
		return
	}
	show := func(how string, el *math.G1, claims ...int64) {
		for _, c := range claims {
			ok := false
			p := try(func() {
				ok = pol.TotalProof{LiabilityProof: el.Copy(), Sum: int(c)}.Verify(t.p, V.Copy()) == nil
			})
			t.rec.Emit(Event{"ev": "ftot", "how": how, "neg": c < 0, "claim": limbs(new(big.Int).Abs(big.NewInt(c))), "ok": ok, "panic": p != nil})
		}
	}
	all := []int64{0, 1, -1, 1 << 32, 1<<63 - 1}
	show("zero", identity(), all...)
	show("generator", curve.GenG1, all...)
	show("V", V, all...)
	show("-V", negG1(V), all...)
	for _, tp := range t.tots {
		if tp.p.LiabilityProof != nil {
			show("negated", negG1(tp.p.LiabilityProof), all[:3]...)
			show("earlier", tp.p.LiabilityProof, int64(tp.p.Sum), 0)
		}
	}
	v := &verkle.Vertex{}
	if try(func() { v.FromBytes(t.db.Get(nil)) }) != nil || t.p.PPPP == nil {
		return
	}
	for i := 0; i < t.p.Fanout && i < 5; i++ {
		var m *math.Zr
		var el *math.G1
		p := try(func() {
			vals := make(common.Vec, t.p.PPPP.N)
			copy(vals, v.Values(t.p.PPPP.N-1))
			vals[len(vals)-1] = v.BlindingFactor
			m, el = pp.Open(t.p.PPPP, i, vals)
		})
		if p == nil && residue(m).IsInt64() {
			show("opening of a slot", el, residue(m).Int64())
		}
	}
}

func (t *tree) prove(id string) {
	V, W, _ := t.root()
	var n int64
	var lp pol.LiabilityProof
	var ok bool
	p := try(func() { n, lp, _, ok = t.ls.ProveLiability(id) })
	t.rec.Emit(Event{"ev": "prove", "path": t.path(id), "ok": ok, "amount": amountOf(n), "panic": p != nil, "V": g1Hex(V), "W": g1Hex(W),
		"claimed": amountOf(int64(lp.LiabilityProof.Sum)), "par": pol.ParallelismEnabled})
	if p == nil && ok {
		t.proofs = append(t.proofs, liabProof{id, n, lp, root{V, W}})
		t.check(len(t.proofs)-1, id, V, W)
	}
}

func (t *tree) check(i int, id string, V, W *math.G1) {
	lp := t.proofs[i]
	res, txt := false, ""
	p := try(func() {
		_, err := lp.p.Verify(t.p, id, V, W, t.id2p)
		res = err == nil
		if err != nil {
			txt = err.Error()
		}
	})
	t.rec.Emit(Event{"ev": "verify", "made": t.path(lp.id), "madeV": g1Hex(lp.root.V), "madeW": g1Hex(lp.root.W), "path": t.path(id), "V": g1Hex(V), "W": g1Hex(W),
		"amount": amountOf(lp.amount), "ok": res, "panic": p != nil, "err": txt, "par": pol.ParallelismEnabled})
}

// verify presents the last proof against all roots seen, and all proofs
// against the current root.
func (t *tree) verify() {
	if len(t.proofs) == 0 {
		return
	}
	last := len(t.proofs) - 1
	for _, r := range t.roots {
		t.check(last, t.proofs[last].id, r.V, r.W)
	}
	V, W, _ := t.root()
	for i := range t.proofs[:last] {
		t.check(i, t.proofs[i].id, V, W)
	}
}

// dump serializes the tree and parses what was written.
func (t *tree) dump() {
	items := []interface{}{}
	buf := &bytes.Buffer{}
	bad := ""
	p := try(func() { t.vt.Serialize(buf) })
	if p == nil {
		bad = parseDump(buf.Bytes(), func(path []int, b []byte) {
			h := ""
			if len(b) > 0 {
				h = shortHash(b)
			}
			items = append(items, []interface{}{path, h})
		})
	}
	t.rec.Emit(Event{"ev": "dump", "items": items, "bad": bad, "panic": p != nil})
}

// parseDump reads what Serialize wrote: records, each after a header of 32
// bytes that starts with its length.
func parseDump(b []byte, each func(path []int, vertex []byte)) string {
	for len(b) > 0 {
		if len(b) < 32 {
			return "short header"
		}
		n := int(binary.BigEndian.Uint32(b))
		if len(b)-32 < n {
			return "short record"
		}
		rv := sparse.RawVertex{}
		rest, err := asn1.Unmarshal(b[32:32+n], &rv)
		if err != nil || len(rest) != 0 {
			return "record does not parse"
		}
		kp, ok := keyPath(rv.Path)
		if !ok {
			return "path does not parse"
		}
		each(kp, rv.Vertex)
		b = b[32+n:]
	}
	return ""
}

// vertices reads the vertices on the path of an id through the tree.
func (t *tree) vertices(id string) {
	var n int64
	var vs []*verkle.Vertex
	var ok bool
	p := try(func() { n, vs, ok = t.vt.Get(id) })
	out := []interface{}{}
	if p == nil {
		for _, v := range vs {
			out = append(out, t.describe(v, nil))
		}
	}
	t.rec.Emit(Event{"ev": "vertices", "path": t.path(id), "ok": ok, "amount": amountOf(n), "panic": p != nil, "vs": out})
}
