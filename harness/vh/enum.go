package vh

// Seqs calls f with every sequence over {0..k-1} of length lo..hi, shortest first.
// The slice is reused.
func Seqs(k, lo, hi int, f func(ix []int)) {
	for n := lo; n <= hi; n++ {
		ix := make([]int, n)
		if k == 0 && n > 0 {
			return
		}
		for {
			f(ix)
			i := n - 1
			for ; i >= 0; i-- {
				ix[i]++
				if ix[i] < k {
					break
				}
				ix[i] = 0
			}
			if i < 0 {
				break
			}
		}
	}
}

// Product calls f with every index vector below dims (last index fastest).
func Product(dims []int, f func(ix []int)) {
	for _, d := range dims {
		if d == 0 {
			return
		}
	}
	ix := make([]int, len(dims))
	for {
		f(ix)
		i := len(dims) - 1
		for ; i >= 0; i-- {
			ix[i]++
			if ix[i] < dims[i] {
				break
			}
			ix[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

// Subsets calls f with every subset of {0..n-1} of size at most max, smallest first.
func Subsets(n, max int, f func(s []int)) {
	var rec func(start, left int, cur []int)
	rec = func(start, left int, cur []int) {
		if left == 0 {
			f(cur)
			return
		}
		for i := start; i <= n-left; i++ {
			rec(i+1, left-1, append(cur, i))
		}
	}
	for k := 0; k <= max && k <= n; k++ {
		rec(0, k, nil)
	}
}

// Perms calls f with every permutation of s (s itself is permuted in place).
func Perms(s []int, f func(p []int)) {
	var rec func(i int)
	rec = func(i int) {
		if i == len(s) {
			f(s)
			return
		}
		for j := i; j < len(s); j++ {
			s[i], s[j] = s[j], s[i]
			rec(i + 1)
			s[i], s[j] = s[j], s[i]
		}
	}
	rec(0)
}

// Pumped calls f with every word of one or two of {0..k-1} repeated up to each
// of the given lengths: histories long enough to fill, wrap around or wear out.
func Pumped(k int, lengths []int, f func(ix []int)) {
	for _, n := range lengths {
		for a := 0; a < k; a++ {
			for b := 0; b < k; b++ {
				ix := make([]int, n)
				for i := range ix {
					ix[i] = []int{a, b}[i%2]
				}
				f(ix)
			}
		}
	}
}
