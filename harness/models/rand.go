package models

import "github.com/unsafe-risk/utilx/zzverif/sym"

// ---- math/rand: an arbitrary value in range for every draw

//sym:model math/rand.Shuffle
func randShuffle(n int, swap func(i, j int)) {
	if n < 0 {
		panic("invalid argument to Shuffle")
	}
	for i := n - 1; i > 0; i-- {
		swap(i, sym.Choose("rand", i+1))
	}
}

//sym:model math/rand.Intn
func randIntn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return sym.Choose("rand", n)
}

//sym:model math/rand.Int63n
func randInt63n(n int64) int64 { return int64(randIntn(int(n))) }

//sym:model math/rand.Int31n
func randInt31n(n int32) int32 { return int32(randIntn(int(n))) }

//sym:model math/rand.Perm
func randPerm(n int) []int {
	p := make([]int, n)
	for i := 0; i < n; i++ {
		j := sym.Choose("rand", i+1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}

//sym:model math/rand/v2.IntN
func randIntN(n int) int { return randIntn(n) }

//sym:model math/rand/v2.Perm
func randPermV2(n int) []int { return randPerm(n) }

//sym:model math/rand/v2.Shuffle
func randShuffleV2(n int, swap func(i, j int)) { randShuffle(n, swap) }
