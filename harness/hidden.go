package main

import (
	"fmt"
	"math/big"

	"pol/common"
)

// hiddenErrors looks for errors that the given ways of weighing them all miss:
// a vector other than zero that is orthogonal to every sample.
func hiddenErrors(m int, sample func() (common.Vec, error)) (common.Vec, error) {
	var rows [][]*big.Int
	for k := 0; k <= m; k++ {
		w, err := sample()
		if err != nil {
			return nil, err
		}
		if len(w) != m {
			return nil, fmt.Errorf("%d weights for %d", len(w), m)
		}
		row := make([]*big.Int, m)
		for i := range w {
			row[i] = residue(w[i])
		}
		rows = append(rows, row)
	}
	// reduced row echelon form
	var pivots []int
	rank := 0
	for col := 0; col < m && rank < len(rows); col++ {
		at := -1
		for r := rank; r < len(rows); r++ {
			if rows[r][col].Sign() != 0 {
				at = r
				break
			}
		}
		if at < 0 {
			continue
		}
		rows[rank], rows[at] = rows[at], rows[rank]
		f := new(big.Int).ModInverse(rows[rank][col], order)
		for c := range rows[rank] {
			rows[rank][c] = new(big.Int).Mod(new(big.Int).Mul(rows[rank][c], f), order)
		}
		for r := range rows {
			if r == rank || rows[r][col].Sign() == 0 {
				continue
			}
			f := rows[r][col]
			for c := range rows[r] {
				x := new(big.Int).Sub(rows[r][c], new(big.Int).Mul(f, rows[rank][c]))
				rows[r][c] = x.Mod(x, order)
			}
		}
		pivots = append(pivots, col)
		rank++
	}
	if rank == m {
		return nil, nil
	}
	// a random combination of all of them
	e := common.RandVec(m)
	for k, col := range pivots {
		x := new(big.Int)
		for c := col + 1; c < m; c++ {
			if rows[k][c].Sign() != 0 {
				x.Sub(x, new(big.Int).Mul(rows[k][c], residue(e[c])))
			}
		}
		e[col] = zrOf(x.Mod(x, order))
	}
	return e, nil
}
