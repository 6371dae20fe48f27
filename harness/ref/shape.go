package ref

import "math/rand/v2"

// Shape makes a set of n things as sets of pieces are: none, all, a few, all
// but a few, runs of any length, whole groups of 8, 32 or 64, or at random.
func Shape(r *rand.Rand, n int) []bool {
	s := make([]bool, n)
	if n == 0 {
		return s
	}
	set := func(v bool) {
		for i := range s {
			s[i] = v
		}
	}
	switch r.IntN(9) {
	case 0:
		set(true)
	case 1: // none
	case 2, 3: // a few, or all but a few
		v := r.IntN(2) == 0
		set(v)
		for k := r.IntN(4); k >= 0; k-- {
			s[r.IntN(n)] = !v
		}
	case 4, 5: // runs
		long := []int{3, 20, 100, 300}[r.IntN(4)]
		v := r.IntN(2) == 0
		for i := 0; i < n; v = !v {
			for k := r.IntN(long); k >= 0 && i < n; k-- {
				s[i] = v
				i++
			}
		}
	case 6, 7: // groups
		g := []int{8, 16, 32, 64}[r.IntN(4)]
		for i := 0; i < n; i += g {
			v, one := r.IntN(3) == 0, i+r.IntN(g)
			edge := []int{i, i + g - 1, one, -1}[r.IntN(4)]
			for k := i; k < i+g && k < n; k++ {
				s[k] = v != (k == edge)
			}
		}
	default:
		p := r.IntN(11)
		for i := range s {
			s[i] = r.IntN(10) < p
		}
	}
	return s
}
