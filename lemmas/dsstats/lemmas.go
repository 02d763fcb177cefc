package dsstats

import "github.com/qri-io/dataset/dsio"

// Lemmas over the contracts of this package: each body only calls functions of the package.

// a column of numbers written to a new accumulator
func lemmaNumbers(acc *numericAcc, vs []float64) {
	for _, v := range vs {
		acc.Write(dsio.Entry{Value: v})
	}
	acc.Close()
}

// a column of truth values written to a new accumulator
func lemmaBools(acc *boolAcc, vs []bool) {
	for _, v := range vs {
		acc.Write(dsio.Entry{Value: v})
	}
}
