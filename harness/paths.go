package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"strconv"
	"sync"
	"time"

	"pol/sparse"
)

func init() {
	kinds["paths"] = runPaths
	kinds["fanouts"] = runFanouts
}

const patience = 8 * time.Second

// timed runs f; it gives up on it if f does not come back.
func timed(f func()) (p interface{}, hang bool) {
	done := make(chan interface{}, 1)
	go func() {
		var e interface{}
		defer func() { done <- e }()
		e = try(f)
	}()
	select {
	case p = <-done:
		return p, false
	case <-time.After(patience):
		return nil, true
	}
}

func codes(s string) []int {
	res := make([]int, len(s))
	for i := 0; i < len(s); i++ {
		res[i] = int(s[i])
	}
	return res
}

func mapper(typ string, fan int) func(string) []uint16 {
	if typ == "dense" {
		return sparse.DigitPath(uint16(fan))
	}
	return sparse.HexId2PathForFanOut(uint16(fan))
}

func advertised(typ string, fan int) (n int, p interface{}, hang bool) {
	p, hang = timed(func() {
		if typ == "dense" {
			n = sparse.DigitPathLen(uint16(fan))
		} else {
			n = sparse.ExpectedHexPathLengthByFanOut[uint16(fan)]
		}
	})
	return
}

// hashChain lists an id and its successive hashes up to the first whose
// number has n digits; the specification checks that it stops in the right place.
func hashChain(id string, fan, n int) (res [][]int) {
	lo := new(big.Int).Exp(big.NewInt(int64(fan)), big.NewInt(int64(n-1)), nil)
	hi := new(big.Int).Mul(lo, big.NewInt(int64(fan)))
	s := id
	for k := 0; k < 200; k++ {
		res = append(res, codes(s))
		x, ok := new(big.Int).SetString(s, 16)
		if !ok || x.Sign() < 0 || (x.Cmp(lo) >= 0 && x.Cmp(hi) < 0) {
			return
		}
		h := sha256.Sum256([]byte(s))
		s = hex.EncodeToString(h[:])
	}
	return
}

// runPaths maps ids to paths.
func runPaths(rec *Recorder, s *Scenario) {
	fan, typ := s.Int("fan", 3), s.Str("type", "dense")
	n, pn, hang := advertised(typ, fan)
	var f, g func(string) []uint16
	var pf interface{}
	if !hang && pn == nil {
		pf, hang = timed(func() { f, g = mapper(typ, fan), mapper(typ, fan) })
	}
	rec.Emit(Event{"ev": "paths", "type": typ, "fan": fan, "made": pn == nil && pf == nil && !hang, "hang": hang, "len": n})
	if pn != nil || pf != nil || hang {
		return
	}
	type kept struct {
		id   string
		path []uint16
		copy []uint16
	}
	var all []kept
	stop := false
	one := func(id string) {
		var p []uint16
		pn, hang := timed(func() { p = f(id) })
		e := Event{"ev": "path", "codes": codes(id), "refused": pn != nil, "hang": hang, "path": ints(p), "chain": [][]int{}}
		if typ == "hex" {
			e["chain"] = hashChain(id, fan, n)
		}
		rec.Emit(e)
		if hang {
			stop = true
			return
		}
		if pn == nil {
			all = append(all, kept{id, p, append([]uint16{}, p...)})
		}
	}
	for _, raw := range s.Ops {
		var op []json.RawMessage
		if err := json.Unmarshal(raw, &op); err != nil {
			fatal("op %s: %v", raw, err)
		}
		var what, id string
		json.Unmarshal(op[0], &what)
		switch what {
		case "id":
			json.Unmarshal(op[1], &id)
			one(id)
		case "bytes": // an id that is not a readable string
			var b []int
			json.Unmarshal(op[1], &b)
			x := make([]byte, len(b))
			for i := range b {
				x[i] = byte(b[i])
			}
			one(string(x))
		case "run":
			var from, count int
			json.Unmarshal(op[1], &from)
			json.Unmarshal(op[2], &count)
			rec.Emit(digitRun(f, fan, from, count))
		}
		if stop {
			return
		}
	}
	// the same ids once more: in another order, with another mapping, at the same time
	same := func(a, b []uint16) bool { return fmt.Sprint(a) == fmt.Sprint(b) }
	diff := make([]string, len(all))
	var wg sync.WaitGroup
	for w := 0; w < 4; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := w; i < len(all); i += 4 {
				k := all[len(all)-1-i]
				var p, q []uint16
				e := try(func() { p = f(k.id) })
				if e == nil {
					e = try(func() { q = g(k.id) })
				}
				if e != nil || !same(p, k.copy) || !same(q, k.copy) {
					diff[i] = k.id
				}
			}
		}(w)
	}
	wg.Wait()
	for i, k := range all {
		if !same(k.path, k.copy) {
			diff[i] = k.id
		}
	}
	for i, d := range diff {
		if d != "" || i == 0 {
			rec.Emit(Event{"ev": "again", "codes": codes(d), "differs": d != ""})
			if d != "" {
				return
			}
		}
	}
}

// digitRun maps consecutive nine-digit ids and sums up what it saw: whether
// every path is the successor of the one before (in either digit order), or
// else how many paths occurred twice.
func digitRun(f func(string) []uint16, fan, from, count int) Event {
	var first, last []uint16
	lsd, msd := true, true
	bad := -1
	n := 0
	get := func(id int) (p []uint16) {
		s := strconv.Itoa(id)
		s = "000000000"[:9-len(s)] + s
		if e := try(func() { p = f(s) }); e != nil {
			return nil
		}
		return
	}
	seen := map[string]bool{}
	dups := 0
	for id := from; id < from+count; id++ {
		p := get(id)
		if id == from {
			first = append([]uint16{}, p...)
			n = len(p)
		}
		if len(p) != n || len(p) == 0 {
			bad = id
			break
		}
		for _, x := range p {
			if int(x) >= fan {
				bad = id
			}
		}
		if bad >= 0 {
			break
		}
		if id > from {
			lsd = lsd && follows(last, p, fan, false)
			msd = msd && follows(last, p, fan, true)
			if !lsd && !msd {
				break
			}
		}
		last = append(last[:0], p...)
	}
	if bad < 0 && !lsd && !msd {
		// some other order: count the paths
		cap := count
		if cap > 1<<20 {
			cap = 1 << 20
		}
		for id := from; id < from+cap; id++ {
			p := get(id)
			k := fmt.Sprint(p)
			if seen[k] {
				dups++
			}
			seen[k] = true
			if len(p) != n {
				bad = id
				break
			}
			last = append(last[:0], p...)
		}
	}
	order := "other"
	if lsd {
		order = "lsd"
	} else if msd {
		order = "msd"
	}
	return Event{"ev": "run", "from": from, "count": count, "first": ints(first), "last": ints(last), "order": order, "dups": dups, "bad": bad}
}

// follows tells whether q is the successor of p in a counter to the given base.
func follows(p, q []uint16, fan int, reverse bool) bool {
	carry := true
	for i := range p {
		k := i
		if reverse {
			k = len(p) - 1 - i
		}
		x := int(p[k])
		if carry {
			if x++; x == fan {
				x = 0
			} else {
				carry = false
			}
		}
		if int(q[k]) != x {
			return false
		}
	}
	return !carry
}

// runFanouts asks for mappings for every fan-out in a range.
func runFanouts(rec *Recorder, s *Scenario) {
	typ := s.Str("type", "dense")
	step := s.Int("step", 1)
	hangs := 0
	for fan := s.Int("from", 0); fan <= s.Int("to", 65535); fan += step {
		made := false
		var p []uint16
		var n int
		id := "123456789"
		if typ == "hex" {
			id = s.Str("id", "c0ffee")
		}
		pn, hang := timed(func() { p = mapper(typ, fan)(id); made = true })
		if !hang {
			n, _, hang = advertised(typ, fan)
		}
		chain := [][]int{}
		if typ == "hex" && made {
			chain = hashChain(id, fan, n)
		}
		if pn != nil && !hang && !supported(typ, fan) && fan > 3 {
			continue // refused; nothing to tell
		}
		rec.Emit(Event{"ev": "fanout", "type": typ, "fan": fan, "made": made && pn == nil, "hang": hang, "path": ints(p), "len": n, "codes": codes(id), "chain": chain})
		if hang {
			if hangs++; hangs > 1 {
				return
			}
		}
	}
	rec.Emit(Event{"ev": "fanoutsend"})
}

func supported(typ string, fan int) bool {
	if typ == "dense" {
		return fan > 2 && fan < 1<<15 && isPow2(fan+1)
	}
	_, ok := sparse.ExpectedHexPathLengthByFanOut[uint16(fan)]
	return ok
}
