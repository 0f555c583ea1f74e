package main

import "time"

// shrink reduces tapes while test still fails; save is called for every
// improvement. test returns the tapes the run really consumed.
func shrink(t map[string][]uint32, test func(map[string][]uint32) (map[string][]uint32, bool), save func(map[string][]uint32), deadline time.Time) {
	cur := t
	late := func() bool { return time.Now().After(deadline) }
	clone := func() map[string][]uint32 {
		m := map[string][]uint32{}
		for k, v := range cur {
			m[k] = append([]uint32(nil), v...)
		}
		return m
	}
	size := func(m map[string][]uint32) (n int, sum uint64) {
		for _, v := range m {
			n += len(v)
			for _, x := range v {
				sum += uint64(x)
				if x != 0 {
					n += 2
				}
			}
		}
		return
	}
	try := func(m map[string][]uint32) bool {
		if late() {
			return false
		}
		used, ok := test(m)
		if !ok {
			return false
		}
		// trailing zeros say nothing: an exhausted tape yields zeros
		for k, v := range used {
			for len(v) > 0 && v[len(v)-1] == 0 {
				v = v[:len(v)-1]
			}
			used[k] = v
		}
		an, as := size(used)
		bn, bs := size(cur)
		if an > bn || (an == bn && as >= bs) {
			// no progress: but accept the first normalisation
			return false
		}
		cur = used
		save(cur)
		return true
	}
	try(clone())
	for round := 0; round < 6 && !late(); round++ {
		progress := false
		for _, k := range sortedKeys(cur) {
			if len(cur[k]) == 0 {
				continue
			}
			m := clone()
			m[k] = nil
			if try(m) {
				progress = true
				continue
			}
			// truncate
			for n := len(cur[k]) / 2; n >= 1 && !late(); {
				if n > len(cur[k]) {
					n = len(cur[k])
				}
				m := clone()
				m[k] = m[k][:len(m[k])-n]
				if try(m) {
					progress = true
				} else {
					n /= 2
				}
				if len(cur[k]) == 0 {
					break
				}
			}
			// delete and zero chunks
			for sz := len(cur[k]) / 2; sz >= 1 && !late(); sz /= 2 {
				for at := 0; at < len(cur[k]) && !late(); {
					end := at + sz
					if end > len(cur[k]) {
						end = len(cur[k])
					}
					m := clone()
					m[k] = append(m[k][:at:at], m[k][end:]...)
					if try(m) {
						progress = true
						continue
					}
					nz := false
					m = clone()
					for i := at; i < end && i < len(m[k]); i++ {
						if m[k][i] != 0 {
							nz = true
							m[k][i] = 0
						}
					}
					if nz && try(m) {
						progress = true
					}
					at += sz
				}
				if sz > 64 && len(cur[k]) > 5000 {
					sz /= 4
				}
			}
			// smaller values
			if len(cur[k]) < 400 {
				for i := 0; i < len(cur[k]) && !late(); i++ {
					for _, d := range []uint32{1, cur[k][i] / 2, cur[k][i] - 1} {
						if i < len(cur[k]) && d < cur[k][i] && cur[k][i] > 1 {
							m := clone()
							m[k][i] = d
							if try(m) {
								progress = true
								break
							}
						}
					}
				}
			}
		}
		if !progress {
			break
		}
	}
}
