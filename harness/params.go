package main

import (
	"fmt"

	"pol/bp"
	"pol/common"
	"pol/poe"
	"pol/pol"
	"pol/pp"
	"pol/sparse"
	"pol/sum"
)

var ppCache = map[string]*pol.PublicParams{}

// smallParams builds public parameters for trees of any depth, the way
// GeneratePublicParams does for the depths it supports.
func smallParams(fan, depth int) *pol.PublicParams {
	k := fmt.Sprintf("%d/%d", fan, depth)
	if p, ok := ppCache[k]; ok {
		return p
	}
	p := newSmallParams(fan, depth)
	ppCache[k] = p
	return p
}

func newSmallParams(fan, depth int) *pol.PublicParams {
	m := depth - 1
	for !isPow2(m) {
		m++
	}
	poePP := poe.NewPublicParams(fan+2, m)
	n := fan + 1
	p := &pol.PublicParams{
		Fanout: fan,
		PPPP:   poePP.PP,
		SAPP:   sum.NewPublicParams(n),
		RPPP:   bp.NewRangeProofPublicParams(n),
		POEPP:  poePP,
	}
	p.SAPP.F = p.PPPP.G1s[n]
	p.SAPP.Gs = make(common.G1v, n)
	copy(p.SAPP.Gs, p.PPPP.G1s)
	p.RPPP.Gs = p.SAPP.Gs
	p.RPPP.F = p.SAPP.F
	return p
}

// treeParams are enough for everything but proofs.
func treeParams(fan int) *pol.PublicParams {
	k := fmt.Sprintf("tree%d", fan)
	if p, ok := ppCache[k]; ok {
		return p
	}
	p := &pol.PublicParams{Fanout: fan, PPPP: pp.NewPublicParams(fan + 2)}
	ppCache[k] = p
	return p
}

type genParams struct {
	id2path func(string) []uint16
	pp      *pol.PublicParams
}

var genCache = map[string]genParams{}

// realParams are the ones GeneratePublicParams makes.
func realParams(fan int, dense bool) genParams {
	k := fmt.Sprintf("%d/%v", fan, dense)
	if g, ok := genCache[k]; ok {
		return g
	}
	tt := pol.Sparse
	if dense {
		tt = pol.TreeType(pol.Dense)
	}
	id2path, p := pol.GeneratePublicParams(uint16(fan), tt)
	g := genParams{id2path, p}
	genCache[k] = g
	return g
}

func idMap(ids string, fan int) func(string) []uint16 {
	switch ids {
	case "dense":
		return sparse.DigitPath(uint16(fan))
	case "sparse":
		return sparse.HexId2PathForFanOut(uint16(fan))
	}
	return parseDotted
}
