// Package sort models the functions of sort that need reflection.
package sort

import "github.com/sira-serverless-ir-arch/goirlib/zzverif/sym"

func Slice(x any, less func(i, j int) bool) { SliceStable(x, less) }

func SliceStable(x any, less func(i, j int) bool) {
	n := sym.LenOf(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			sym.SwapOf(x, j, j-1)
		}
	}
}

func SliceIsSorted(x any, less func(i, j int) bool) bool {
	for i := sym.LenOf(x) - 1; i > 0; i-- {
		if less(i, i-1) {
			return false
		}
	}
	return true
}
