package main

import (
	"fmt"
	"io/ioutil"
	"log"
	"os"
	"path/filepath"
	"strings"

	"github.com/davidkleiven/gopf/cmd"
)

func init() {
	props["C31"] = c31
}

func c31(t *T) {
	t.part("heat map", func() {
		t.loop(300, func() {
			nx, ny := t.n(1, 8), t.n(1, 8)
			t.at("table %dx%d in random order", nx, ny)
			rows := make([]cmd.DataRow, nx*ny)
			want := make([]float64, nx*ny)
			for k, i := range t.rng.Perm(nx * ny) {
				want[i] = t.f()
				rows[k] = cmd.DataRow{X: i / ny, Y: i % ny, Value: want[i]}
			}
			h := cmd.NewHeatMapData(rows)
			c, r := h.Dims()
			if !t.ok(c == nx && r == ny, "Dims: %d x %d", c, r) {
				return
			}
			for i, w := range want {
				x, y := i/ny, i%ny
				t.ok(h.Z(x, y) == w, "Z(%d,%d) is %v, not %v", x, y, h.Z(x, y), w)
				t.ok(h.X(x) == float64(x) && h.Y(y) == float64(y), "position of (%d,%d)", x, y)
			}
		})
	})
	t.part("line plot", func() {
		dir, err := ioutil.TempDir("", "gopf-verif")
		if err != nil {
			return
		}
		defer os.RemoveAll(dir)
		log.SetOutput(ioutil.Discard)
		defer log.SetOutput(os.Stderr)
		old := os.Args
		defer func() { os.Args = old }()
		csv := filepath.Join(dir, "in.csv")
		out := filepath.Join(dir, "plot.svg")
		all := []string{"fconc", "feta", "fpot", "ftemp"}
		text := "X,Y,Z," + strings.Join(all, ",") + "\n"
		for i := 0; i < 9; i++ {
			text += fmt.Sprintf("%d,%d,0,%d,%d,%d,%d\n", i/3, i%3, i, 2*i, 3-i, i*i)
		}
		ioutil.WriteFile(csv, []byte(text), 0644)
		t.loop(12, func() {
			n := t.n(0, 4)
			want := []string{}
			for _, k := range t.rng.Perm(4)[:n] {
				want = append(want, all[k])
			}
			os.Remove(out)
			os.Args = []string{"gopf", "lineplot", "-f", csv, "-d", strings.Join(want, ","), "-o", out, "-x", "-1", "-y", "1", "-z", "0"}
			t.at("%s", strings.Join(os.Args[3:], " "))
			cmd.Execute()
			svg, err := ioutil.ReadFile(out)
			if !t.ok(err == nil, "lineplot: no plot") {
				return
			}
			for _, f := range all {
				has := n == 0
				for _, w := range want {
					has = has || w == f
				}
				t.ok(strings.Contains(string(svg), f) == has, "lineplot: field %s in the plot: %v", f, !has)
			}
		})
	})
}
