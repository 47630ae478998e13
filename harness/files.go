package main

import (
	"fmt"
	"io/ioutil"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
)

func init() {
	props["C32"] = c32
}

func c32(t *T) {
	dir, err := ioutil.TempDir("", "gopf-verif")
	if err != nil {
		return
	}
	defer os.RemoveAll(dir)
	fields := func(N, n int) []pf.Field {
		res := make([]pf.Field, n)
		for i := range res {
			res[i] = pf.NewField(fmt.Sprintf("f%c", 'a'+(i*7+3)%26), N, nil)
			copy(res[i].Data, t.cs(N))
			switch t.n(0, 3) {
			case 0: // small integers
				for j := range res[i].Data {
					res[i].Data[j] = complex(float64(t.n(-3, 3)), t.f())
				}
			case 1: // largest value zero
				for j := range res[i].Data {
					res[i].Data[j] = complex(-float64(t.n(0, 4)), 0)
				}
			}
		}
		return res
	}
	t.part("binary", func() {
		t.loop(100, func() {
			n := t.n(0, 40)
			x := t.fs(n)
			f := filepath.Join(dir, "a.bin")
			t.at("n=%d", n)
			pf.SaveFloat64(f, x)
			y := pf.LoadFloat64(f)
			t.ok(len(y) == n, "LoadFloat64: %d values of %d", len(y), n)
			for i := range y {
				t.ok(i < n && y[i] == x[i], "LoadFloat64: value %d is %v not %v", i, y[i], x[i])
			}
		})
	})
	t.part("writers", func() {
		t.loop(40, func() {
			nx, ny, n, epoch := t.n(1, 6), t.n(1, 6), t.n(1, 4), t.n(0, 30)
			N := nx * ny
			t.at("%dx%d fields=%d epoch=%d", nx, ny, n, epoch)
			fs := fields(N, n)
			s := pf.Solver{Model: &pf.Model{Fields: fs}}
			fl := pf.NewFloat64IO(filepath.Join(dir, "run"))
			fl.SaveFields(&s, epoch)
			ui := pf.NewUint8IO(filepath.Join(dir, "img"))
			ui.SaveFields(&s, epoch)
			names := make([]string, n)
			for k, f := range fs {
				names[k] = f.Name
				name := filepath.Join(dir, fmt.Sprintf("run_%s_%d.bin", f.Name, epoch))
				if _, err := os.Stat(name); err != nil {
					t.ok(false, "Float64IO: no file for field %s", f.Name)
					continue
				}
				y := pf.LoadFloat64(name)
				t.ok(len(y) == N, "Float64IO: field %s has %d of %d values", f.Name, len(y), N)
				for i := range y {
					t.ok(i < N && y[i] == real(f.Data[i]), "Float64IO: field %s node %d", f.Name, i)
				}
				lo, hi := math.Inf(1), math.Inf(-1)
				for _, c := range f.Data {
					lo, hi = math.Min(lo, real(c)), math.Max(hi, real(c))
				}
				if hi-lo < 1e-9 {
					hi = lo + 1
				}
				b, err := ioutil.ReadFile(filepath.Join(dir, fmt.Sprintf("img_%s_%d.bin", f.Name, epoch)))
				t.ok(err == nil && len(b) == N, "Uint8IO: file of field %s", f.Name)
				for i := range b {
					w := 255 * (real(f.Data[i]) - lo) / (hi - lo)
					t.ok(math.Abs(float64(b[i])+0.5-w) < 0.5+1e-6, "Uint8IO: field %s node %d is %d, not %v", f.Name, i, b[i], w)
				}
				os.Remove(name)
			}
			x := pf.CreateXDMF(names, "run", 3, []int{nx, ny})
			t.ok(x.Domain.Topology.Dimensions == fmt.Sprintf("%d %d", nx, ny), "CreateXDMF: dimensions %s", x.Domain.Topology.Dimensions)
			t.ok(len(x.Domain.Grid.Grids) == 3, "CreateXDMF: steps")
			for i, g := range x.Domain.Grid.Grids {
				t.ok(len(g.Attributes) == n, "CreateXDMF: fields at step %d", i)
				for j, a := range g.Attributes {
					t.ok(j < n && a.Name == names[j] && a.DataItem.Value == fmt.Sprintf("run_%s_%d.bin", names[j], i), "CreateXDMF: step %d field %d is %s", i, j, a.DataItem.Value)
				}
			}
		})
	})
	t.part("csv", func() {
		t.loop(60, func() {
			dom := []int{t.n(1, 6), t.n(1, 6)}
			if t.n(0, 1) == 1 {
				dom = append(dom, t.n(1, 4))
			}
			N := pfutil.ProdInt(dom)
			n := t.n(1, 4)
			t.at("domain=%v fields=%d", dom, n)
			fs := fields(N, n)
			s := pf.Solver{Model: &pf.Model{Fields: fs}}
			io := pf.CsvIO{Prefix: filepath.Join(dir, "tab"), DomainSize: dom}
			io.SaveFields(&s, 5)
			f := filepath.Join(dir, "tab_5.csv")
			raw, err := ioutil.ReadFile(f)
			t.ok(err == nil, "CsvIO: no file")
			want := "X,Y,Z"
			for _, f := range fs {
				want += "," + f.Name
			}
			want += "\n"
			for i := 0; i < N; i++ {
				pos := []int{i / dom[1] % dom[0], i % dom[1], i / (dom[0] * dom[1])}
				want += fmt.Sprintf("%d,%d,%d", pos[0], pos[1], pos[2])
				for _, f := range fs {
					want += fmt.Sprintf(",%f", real(f.Data[i]))
				}
				want += "\n"
			}
			got, exp := strings.Split(string(raw), "\n"), strings.Split(want, "\n")
			t.ok(len(got) == len(exp), "SaveCsv: %d lines instead of %d", len(got)-1, len(exp)-1)
			for i := 0; i < len(got) && i < len(exp); i++ {
				if !t.ok(got[i] == exp[i], "SaveCsv: line %d is %q, not %q", i, got[i], exp[i]) {
					break
				}
			}
			r := pf.LoadCSV(f)
			t.ok(len(r) == n, "LoadCSV: %d fields of %d", len(r), n)
			for k := range r {
				t.ok(r[k].Name == fs[k].Name && len(r[k].Data) == N, "LoadCSV: column %d is %s with %d rows", k, r[k].Name, len(r[k].Data))
				for i := range r[k].Data {
					d := r[k].Data[i]
					t.ok(i < N && math.Abs(real(d)-real(fs[k].Data[i])) < 1e-6 && imag(d) == 0, "LoadCSV: field %d node %d: %v for %v", k, i, d, fs[k].Data[i])
				}
			}
			os.Remove(f)
			t.ok(panics(func() {
				pf.SaveCsv(f, []pf.CsvData{{Name: "a", Data: &pfutil.RealPartSlice{Data: fs[0].Data}}}, []int{N + 1})
			}), "SaveCsv: accepted a domain of %d nodes for %d", N+1, N)
		})
	})
}
