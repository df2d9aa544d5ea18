package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"

	"pol/sparse"
)

func init() { kinds["ptree"] = runPathTree }

// token is what the tree stores; every call of the user's function makes one.
type token struct{ n int }

func tokenOf(x interface{}) int {
	switch t := x.(type) {
	case nil:
		return -1
	case *token:
		if t == nil {
			return -1
		}
		return t.n
	case int:
		return t
	}
	return -2
}

// payload is what a token is written as: its number and then a pattern, of
// a length that depends on the token.
func payload(tok, size int) []byte {
	if tok < 0 {
		return nil
	}
	n := 8
	switch tok % 4 {
	case 1:
		n += tok % size
	case 2:
		n += size - 1
	case 3:
		n += size
	}
	b := make([]byte, n)
	binary.BigEndian.PutUint64(b, uint64(tok))
	for i := 8; i < n; i++ {
		b[i] = byte(i*7 + i>>8 + tok)
	}
	return b
}

// dumpPathTree serializes the tree and parses what was written.
func dumpPathTree(rec *Recorder, t *sparse.Tree, size int) {
	if t.Root == nil {
		return
	}
	items := []interface{}{}
	buf := &bytes.Buffer{}
	p := try(func() {
		t.Root.Serialize(buf, "", func(x interface{}) []byte { return payload(tokenOf(x), size) })
	})
	bad := ""
	if p == nil {
		bad = parseDump(buf.Bytes(), func(path []int, b []byte) {
			tok := -1
			if len(b) > 0 {
				tok = -9
				if len(b) >= 8 && bytes.Equal(b, payload(int(binary.BigEndian.Uint64(b[:8])), size)) {
					tok = int(binary.BigEndian.Uint64(b[:8]))
				}
			}
			items = append(items, []interface{}{path, tok})
		})
	}
	rec.Emit(Event{"ev": "dump", "items": items, "bad": bad, "panic": p != nil})
}

// runPathTree inserts and looks up in a path tree and records every call of
// the user's function.
func runPathTree(rec *Recorder, s *Scenario) {
	fan := s.Int("fan", 2)
	next := 0
	mode := s.Str("mode", "tokens")
	scribble := s.Int("scribble", 0) > 0 // the function overwrites the list it is given
	fresh := func() interface{} {
		next++
		switch mode {
		case "ints":
			return next
		case "nils": // some vertices have no data
			if next%5 == 0 {
				return nil
			}
		case "same": // many vertices have the same data
			return next % 3
		}
		return &token{next}
	}
	id2path := parseDotted
	t := &sparse.Tree{FanOut: fan, ID2Path: id2path}
	t.UpdateInnerVertex = func(key string, node interface{}, kids []interface{}, leaves bool, changed int) interface{} {
		ks := make([]int, len(kids))
		for i, k := range kids {
			ks[i] = tokenOf(k)
		}
		r := fresh()
		if scribble {
			for i := range kids {
				kids[i] = &token{-7}
			}
		}
		rec.Emit(Event{"ev": "call", "key": key, "prev": tokenOf(node), "kids": ks, "leaves": leaves, "changed": changed, "tok": tokenOf(r)})
		return r
	}
	rec.Emit(Event{"ev": "ptree", "fan": fan})
	// what earlier lookups returned
	type answer struct {
		path  []int
		then  []int
		above []interface{}
	}
	var kept []answer
	tokens := func(above []interface{}) []int {
		as := []int{}
		for _, v := range above {
			sv, isV := v.(*sparse.Vertex)
			if !isV || sv == nil {
				as = append(as, -3)
				continue
			}
			as = append(as, tokenOf(sv.Data))
		}
		return as
	}
	for _, raw := range s.Ops {
		var op []string
		if err := json.Unmarshal(raw, &op); err != nil {
			fatal("op %s: %v", raw, err)
		}
		switch op[0] {
		case "dump":
			dumpPathTree(rec, t, s.Int("size", 3))
			continue
		}
		p := ints(id2path(op[1]))
		switch op[0] {
		case "put":
			x := fresh()
			if x == nil {
				x = &token{next}
			}
			rec.Emit(Event{"ev": "insert", "path": p, "tok": tokenOf(x)})
			pn := try(func() { t.Put(op[1], x) })
			e := Event{"ev": "inserted", "panic": pn != nil}
			if pn != nil {
				e["text"] = fmt.Sprint(panicText(pn))
			}
			rec.Emit(e)
		case "get":
			var x interface{}
			var above []interface{}
			var ok bool
			pn := try(func() { x, above, ok = t.Get(op[1]) })
			e := Event{"ev": "lookup", "path": p, "found": ok, "panic": pn != nil, "tok": tokenOf(x), "above": []int{}}
			if ok {
				as := tokens(above)
				e["above"] = as
				kept = append(kept, answer{p, as, above})
			}
			rec.Emit(e)
		}
	}
	for _, k := range kept {
		rec.Emit(Event{"ev": "kept", "path": k.path, "then": k.then, "now": tokens(k.above)})
	}
}
