package main

import (
	"os"

	"github.com/davidkleiven/gopf/pf"
)

func init() { props["C23"] = c23 }

func c23(t *T) {
	// one iterator prints what it visits
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	dims := [][]int{{1, 1}, {2, 2}, {4, 4}, {3, 5}, {2, 6}, {1, 7}, {8, 1}, {2, 2, 2}, {3, 2, 4}, {4, 1, 3}, {1, 1, 2}, {5, 3, 3}, {4, 4, 4}, {1500, 1}, {1, 1201}, {1200, 1, 1}, {1, 1, 2000}, {1, 900, 1}}
	k := 0
	t.part("iterators", func() {
		t.loop(80, func() {
			k++
			s := t.space(9, 5)
			if k <= len(dims) {
				s = spaceOf(dims[k-1])
			}
			t.at("dims=%v", s.d)
			conj := make([]int, s.n)
			for i := range conj {
				x := coordsOf(s.d, i)
				for a := range x {
					x[a] = (s.d[a] - x[a]) % s.d[a]
				}
				conj[i] = layout(s.d, x)
			}
			for _, which := range []string{"unique", "real"} {
				var next func() int
				if which == "unique" {
					it := pf.UniqueFreqIterator{Freq: s.ft.Freq, End: s.n}
					next = it.Next
				} else {
					it := pf.RealAmplitudeIterator{Freq: s.ft.Freq, End: s.n}
					next = it.Next
				}
				seen := make([]int, s.n)
				last := -1
				for c := 0; ; c++ {
					i := next()
					if i == -1 {
						break
					}
					if !t.ok(i >= 0 && i < s.n && c <= s.n, "%s: node %d at call %d", which, i, c) {
						return
					}
					t.ok(i > last, "%s: node %d after %d", which, i, last)
					last = i
					seen[i]++
				}
				t.ok(next() == -1, "%s: continues after the end", which)
				for i := range seen {
					if which == "unique" && i != conj[i] {
						t.ok(seen[i]+seen[conj[i]] == 1, "unique: nodes %d and %d of opposite frequency visited %d times", i, conj[i], seen[i]+seen[conj[i]])
					} else if i == conj[i] {
						t.ok(seen[i] == 1, "%s: self-conjugate node %d visited %d times", which, i, seen[i])
					} else {
						t.ok(seen[i] == 0, "real: node %d with a complex amplitude visited", i)
					}
				}
			}
		})
	})
}
