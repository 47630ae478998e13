package main

import (
	"database/sql"
	"fmt"
	"io/ioutil"
	"log"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/davidkleiven/gopf/cmd"
	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	_ "github.com/mattn/go-sqlite3"
)

func init() {
	props["C33"] = c33
}

func table(db *sql.DB, query string, n int) [][]string {
	res := [][]string{}
	rows, err := db.Query(query)
	if err != nil {
		return res
	}
	defer rows.Close()
	for rows.Next() {
		x := make([]sql.NullString, n)
		p := make([]interface{}, n)
		for i := range x {
			p[i] = &x[i]
		}
		rows.Scan(p...)
		r := make([]string, n)
		for i := range x {
			r[i] = x[i].String
		}
		res = append(res, r)
	}
	return res
}

func c33(t *T) {
	dir, err := ioutil.TempDir("", "gopf-verif")
	if err != nil {
		return
	}
	defer os.RemoveAll(dir)
	log.SetOutput(ioutil.Discard)
	defer log.SetOutput(os.Stderr)
	old, stdout := os.Args, os.Stdout
	defer func() { os.Args, os.Stdout = old, stdout }()
	num := 0
	t.part("save and load", func() {
		t.loop(6, func() {
			num++
			name := filepath.Join(dir, fmt.Sprintf("%d.db", num))
			db, err := sql.Open("sqlite3", name)
			if err != nil {
				return
			}
			defer db.Close()
			db.Exec("PRAGMA synchronous=OFF")
			dom := []int{t.n(2, 4), t.n(1, 4)}
			if t.n(0, 1) == 1 {
				dom = append(dom, t.n(1, 3))
			}
			N := pfutil.ProdInt(dom)
			nf, minsteps := t.n(1, 3), t.n(1, 3)
			t.at("domain=%v fields=%d steps>=%d", dom, nf, minsteps)
			names := []string{"gamma", "beta", "alpha"}[:nf]
			type run struct {
				val   map[string][][]complex128
				attr  map[string]float64
				ts    map[string][]float64
				id    int
				steps int
			}
			runs := make([]run, 2)
			for r := range runs {
				f := pf.FieldDB{DB: db, DomainSize: dom}
				steps := minsteps + t.n(0, 2)
				runs[r].steps = steps
				runs[r].val = make(map[string][][]complex128)
				runs[r].ts = make(map[string][]float64)
				for s := 0; s < steps; s++ {
					fs := make([]pf.Field, nf)
					pt := make(map[string]float64)
					for i, n := range names {
						fs[i] = pf.NewField(n, N, nil)
						copy(fs[i].Data, t.cs(N))
						runs[r].val[n] = append(runs[r].val[n], fs[i].Data)
						pt["peak"+n] = t.f()
						runs[r].ts["peak"+n] = append(runs[r].ts["peak"+n], pt["peak"+n])
					}
					f.SaveFields(&pf.Solver{Model: &pf.Model{Fields: fs}}, 3*s)
					f.TimeSeries(pt, s)
				}
				runs[r].attr = map[string]float64{"dt": t.f(), "width": t.f()}
				f.SetAttr(runs[r].attr)
				f.SetTextAttr(map[string]string{"scheme": fmt.Sprintf("rk%d", r)})
				f.Comment(fmt.Sprintf("run\n%d", r))
			}
			ids := table(db, "SELECT simID FROM simIDs ORDER BY rowid", 1)
			if !t.ok(len(ids) == 2, "%d simulations of 2", len(ids)) {
				return
			}
			pos := table(db, "SELECT X,Y,Z FROM positions ORDER BY id", 3)
			t.ok(len(pos) == N, "%d positions of %d", len(pos), N)
			for i, p := range pos {
				q := append(pfutil.Pos(dom, i), 0)[:3]
				t.ok(strings.Join(p, ",") == fmt.Sprintf("%d,%d,%d", q[0], q[1], q[2]), "position of node %d: %v", i, p)
			}
			for r := range runs {
				fmt.Sscan(ids[r][0], &runs[r].id)
				id, steps := runs[r].id, runs[r].steps
				f := pf.FieldDB{DB: db, DomainSize: dom}
				for s := 0; s <= steps; s++ {
					var got []pf.Field
					step := s
					if s == steps {
						got, step = f.LoadLast(id), steps-1
					} else {
						got = f.Load(id, 3*s)
					}
					if !t.ok(len(got) == nf, "Load: %d fields of %d", len(got), nf) {
						continue
					}
					for i, g := range got {
						w := names[nf-1-i]
						if !t.ok(g.Name == w && len(g.Data) == N, "Load: field %d is %s with %d nodes", i, g.Name, len(g.Data)) {
							continue
						}
						for k, x := range runs[r].val[w][step] {
							t.ok(g.Data[k] == complex(real(x), 0), "Load: simulation %d step %d field %s node %d: %v for %v", r, step, w, k, g.Data[k], x)
						}
					}
				}
				at := table(db, fmt.Sprintf("SELECT key,value FROM simAttributes WHERE simID=%d", id), 2)
				t.ok(len(at) == 2, "SetAttr: %d rows of 2", len(at))
				for _, a := range at {
					var x float64
					fmt.Sscan(a[1], &x)
					t.ok(near(x, runs[r].attr[a[0]]), "SetAttr: %s is %s", a[0], a[1])
				}
				tx := table(db, fmt.Sprintf("SELECT key,value FROM simTextAttributes WHERE simID=%d", id), 2)
				t.ok(len(tx) == 1 && tx[0][0] == "scheme" && tx[0][1] == fmt.Sprintf("rk%d", r), "SetTextAttr: %v", tx)
				co := table(db, fmt.Sprintf("SELECT value FROM comments WHERE simID=%d", id), 1)
				t.ok(len(co) == 1 && co[0][0] == fmt.Sprintf("run %d", r), "Comment: %v", co)
				// exports
				csv := filepath.Join(dir, "out.csv")
				if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
					os.Stdout = null
				}
				read := func(args ...string) [][]string {
					os.Remove(csv)
					os.Args = append([]string{"gopf", "db", "export", name, "-i", fmt.Sprint(id), "-o", csv}, args...)
					cmd.Execute()
					raw, _ := ioutil.ReadFile(csv)
					res := [][]string{}
					for _, l := range strings.Split(strings.TrimSpace(string(raw)), "\n") {
						res = append(res, strings.Split(l, ","))
					}
					return res
				}
				num := func(s string) float64 {
					x := math.NaN()
					fmt.Sscan(s, &x)
					return x
				}
				step := t.n(0, steps-1)
				tab := read("-t", "fd", "-s", fmt.Sprint(3*step))
				if t.ok(len(tab) == N+1, "export: %d lines for %d nodes", len(tab), N) {
					for k := range tab[1:] {
						if !t.ok(len(tab[k+1]) == 3+nf, "export: %v", tab[k+1]) {
							continue
						}
						q := append(pfutil.Pos(dom, k), 0)[:3]
						for j := range q {
							t.ok(tab[k+1][j] == fmt.Sprint(q[j]), "export: position of node %d: %v", k, tab[k+1])
						}
						for j := 3; j < 3+nf; j++ {
							v, ok := runs[r].val[tab[0][j]]
							t.ok(ok && math.Abs(real(v[step][k])-num(tab[k+1][j])) < 1e-5, "export: step %d node %d field %s: %s", step, k, tab[0][j], tab[k+1][j])
						}
					}
				}
				tab = read("-t", "ts", "-s", "0")
				if t.ok(len(tab) == steps+1, "export: %d lines for %d steps", len(tab), steps) {
					for k := range tab[1:] {
						found := 0
						for j, key := range tab[0] {
							if v, ok := runs[r].ts[key]; ok {
								found++
								t.ok(math.Abs(v[k]-num(tab[k+1][j])) < 1e-5, "export: step %d of %s: %s", k, key, tab[k+1][j])
							}
						}
						t.ok(found == nf, "export: %d series of %d", found, nf)
					}
				}
				os.Stdout = stdout
			}
			big := append([]int{}, dom...)
			axis := t.n(0, len(dom)-1)
			big[axis]++
			other := pf.FieldDB{DB: db, DomainSize: big}
			t.ok(panics(func() {
				other.SaveFields(&pf.Solver{Model: &pf.Model{Fields: []pf.Field{pf.NewField("x", pfutil.ProdInt(big), nil)}}}, 0)
			}), "SaveFields: accepted another domain")
		})
	})
}
