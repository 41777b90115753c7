package pbt

import "time"

// Shrink minimises a failing draw sequence. better is called on each improvement.
func Shrink(p *Prop, seed int64, idx int, thorough bool, draws []uint64, budget time.Duration, better func([]uint64, Outcome)) ([]uint64, Outcome) {
	deadline := time.Now().Add(budget)
	best := append([]uint64(nil), draws...)
	bestO := RunCase(p, seed, idx, thorough, best, true)
	if !bestO.Failed {
		return best, bestO
	}
	// Drop the unused tail and normalise out-of-range values.
	best = append([]uint64(nil), strip(bestO.Draws)...)
	seen := map[uint64]bool{}
	try := func(c []uint64) bool {
		if time.Now().After(deadline) {
			return false
		}
		h := hashDraws(c, "") ^ uint64(len(c))
		if seen[h] {
			return false
		}
		seen[h] = true
		o := RunCase(p, seed, idx, thorough, c, true)
		if !o.Failed {
			return false
		}
		// Accept what was actually used if it is simpler.
		d := strip(o.Draws)
		if !simpler(d, best) {
			return false
		}
		best = append([]uint64(nil), d...)
		bestO = o
		if better != nil {
			better(best, bestO)
		}
		return true
	}
	for round := 0; round < 30; round++ {
		improved := false
		// Delete blocks.
		for size := len(best) / 2; size >= 1; size = size * 2 / 3 {
			for i := len(best) - size; i >= 0; {
				if i+size > len(best) {
					i = len(best) - size
					if i < 0 {
						break
					}
				}
				c := append(append([]uint64(nil), best[:i]...), best[i+size:]...)
				if try(c) {
					improved = true
				}
				if time.Now().After(deadline) {
					return best, bestO
				}
				if size > 8 {
					i -= size / 2
				} else {
					i--
				}
			}
			if size == 1 {
				break
			}
		}
		// Zero blocks.
		for _, size := range []int{32, 8, 2, 1} {
			for i := 0; i+size <= len(best); i += size {
				c := append([]uint64(nil), best...)
				ch := false
				for j := i; j < i+size; j++ {
					if c[j] != 0 {
						ch = true
					}
					c[j] = 0
				}
				if ch && try(c) {
					improved = true
				}
			}
		}
		// Lower single values; also lower a value and delete what follows (list lengths).
		for i := 0; i < len(best); i++ {
			for lo, hi := uint64(0), uint64(0); i < len(best); {
				hi = best[i]
				if hi <= lo {
					break
				}
				m := lo + (hi-lo)/2
				c := append([]uint64(nil), best...)
				c[i] = m
				if try(c) {
					improved = true
					continue
				}
				lo = m + 1
				if time.Now().After(deadline) {
					return best, bestO
				}
			}
			if i < len(best) && best[i] > 0 && best[i] < 1000 {
				for del := 1; del <= 8 && i+1+del <= len(best); del++ {
					c := append([]uint64(nil), best[:i+1]...)
					c[i]--
					c = append(c, best[i+1+del:]...)
					if try(c) {
						improved = true
						break
					}
				}
			}
		}
		if !improved || time.Now().After(deadline) {
			break
		}
	}
	return best, bestO
}

func simpler(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// strip removes trailing zeros: a replay draws zeros past its end.
func strip(d []uint64) []uint64 {
	for len(d) > 0 && d[len(d)-1] == 0 {
		d = d[:len(d)-1]
	}
	return d
}
