package main

import (
	"math/bits"

	"pgregory.net/rapid"
)

// uni draws uniformly from 0..n-1 (rapid's own ranges prefer small values) and shrinks towards 0.
func uni(t *rapid.T, n int) int {
	if n <= 1 {
		return 0
	}
	k := bits.Len(uint(n-1)) + 5
	v := 0
	for i := 0; i < k; i++ {
		v <<= 1
		if rapid.Bool().Draw(t, "b") {
			v |= 1
		}
	}
	return v * n >> k
}

// oneIn is true with a probability of 1/n and shrinks to false.
func oneIn(t *rapid.T, n int) bool { return uni(t, n) == n-1 }

func pick[T any](t *rapid.T, s []T) T { return s[uni(t, len(s))] }
