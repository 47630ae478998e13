// ssadump builds the SSA form of every package of the module in the current
// directory (excluding tests and examples) and writes it as JSON. It is the
// mechanical extraction step of gowp: nothing is dropped except debug refs.
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type J = map[string]interface{}

var (
	typeIDs  = map[string]int{}
	typeList []interface{}
	fset     *token.FileSet
	prog     *ssa.Program
	queue    []*ssa.Function
	seen     = map[*ssa.Function]bool{}
)

func q(p *types.Package) string { return p.Path() }

func typeID(t types.Type) int {
	t = types.Unalias(t)
	key := types.TypeString(t, q)
	if id, ok := typeIDs[key]; ok {
		return id
	}
	id := len(typeList)
	typeIDs[key] = id
	typeList = append(typeList, nil)
	j := J{"s": key}
	switch tt := t.(type) {
	case *types.Basic:
		j["k"] = "basic"
		j["name"] = tt.Name()
	case *types.Named:
		j["k"] = "named"
		j["name"] = key
		j["u"] = typeID(tt.Underlying())
	case *types.Pointer:
		j["k"] = "ptr"
		j["e"] = typeID(tt.Elem())
	case *types.Slice:
		j["k"] = "slice"
		j["e"] = typeID(tt.Elem())
	case *types.Array:
		j["k"] = "array"
		j["e"] = typeID(tt.Elem())
		j["n"] = tt.Len()
	case *types.Map:
		j["k"] = "map"
		j["key"] = typeID(tt.Key())
		j["e"] = typeID(tt.Elem())
	case *types.Struct:
		j["k"] = "struct"
		var fs []interface{}
		for i := 0; i < tt.NumFields(); i++ {
			fs = append(fs, []interface{}{tt.Field(i).Name(), typeID(tt.Field(i).Type())})
		}
		j["f"] = fs
	case *types.Signature:
		j["k"] = "func"
		j["params"] = tupleTypes(tt.Params())
		j["results"] = tupleTypes(tt.Results())
	case *types.Interface:
		j["k"] = "iface"
		var ms []string
		for i := 0; i < tt.NumMethods(); i++ {
			ms = append(ms, tt.Method(i).Name())
		}
		j["m"] = ms
	case *types.Tuple:
		j["k"] = "tuple"
		j["ts"] = tupleTypes(tt)
	case *types.Chan:
		j["k"] = "chan"
		j["e"] = typeID(tt.Elem())
	default:
		j["k"] = "other"
	}
	typeList[id] = j
	return id
}

func tupleTypes(t *types.Tuple) []int {
	r := []int{}
	for i := 0; i < t.Len(); i++ {
		r = append(r, typeID(t.At(i).Type()))
	}
	return r
}

func enqueue(f *ssa.Function) {
	if f == nil || seen[f] {
		return
	}
	seen[f] = true
	queue = append(queue, f)
}

func fname(f *ssa.Function) string { return f.RelString(nil) }

func constJ(c *ssa.Const) J {
	j := J{"k": "const", "t": typeID(c.Type())}
	if c.Value == nil {
		j["nil"] = true
		return j
	}
	switch c.Value.Kind() {
	case constant.Bool:
		j["b"] = constant.BoolVal(c.Value)
	case constant.String:
		j["s"] = constant.StringVal(c.Value)
	case constant.Int:
		j["n"] = c.Value.ExactString()
	case constant.Float:
		j["n"] = c.Value.ExactString()
	case constant.Complex:
		j["re"] = constant.Real(c.Value).ExactString()
		j["im"] = constant.Imag(c.Value).ExactString()
	}
	return j
}

func val(v ssa.Value) interface{} {
	switch x := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		return constJ(x)
	case *ssa.Function:
		enqueue(x)
		return J{"k": "fn", "name": fname(x), "t": typeID(x.Type())}
	case *ssa.Builtin:
		return J{"k": "builtin", "name": x.Name()}
	case *ssa.Global:
		return J{"k": "global", "name": x.RelString(nil), "t": typeID(x.Type())}
	default:
		return J{"k": "reg", "name": v.Name()}
	}
}

func vals(vs []ssa.Value) []interface{} {
	r := []interface{}{}
	for _, v := range vs {
		r = append(r, val(v))
	}
	return r
}

func callJ(j J, c *ssa.CallCommon) {
	if c.IsInvoke() {
		j["invoke"] = c.Method.Name()
		j["recv"] = val(c.Value)
		j["itype"] = typeID(c.Value.Type())
	} else {
		j["fn"] = val(c.Value)
	}
	j["args"] = vals(c.Args)
}

func instrJ(in ssa.Instruction) J {
	j := J{}
	if p := in.Pos(); p.IsValid() {
		ps := fset.Position(p)
		j["pos"] = fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
	}
	if v, ok := in.(ssa.Value); ok {
		j["r"] = v.Name()
		j["t"] = typeID(v.Type())
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Alloc:
		j["op"] = "alloc"
		j["e"] = typeID(x.Type().Underlying().(*types.Pointer).Elem())
		j["c"] = x.Comment
	case *ssa.Phi:
		j["op"] = "phi"
		j["edges"] = vals(x.Edges)
		j["c"] = x.Comment
	case *ssa.Call:
		j["op"] = "call"
		callJ(j, &x.Call)
	case *ssa.Go:
		j["op"] = "go"
		callJ(j, &x.Call)
	case *ssa.Defer:
		j["op"] = "defer"
		callJ(j, &x.Call)
	case *ssa.RunDefers:
		j["op"] = "rundefers"
	case *ssa.BinOp:
		j["op"] = "binop"
		j["tok"] = x.Op.String()
		j["x"] = val(x.X)
		j["y"] = val(x.Y)
		j["xt"] = typeID(x.X.Type())
	case *ssa.UnOp:
		j["op"] = "unop"
		j["tok"] = x.Op.String()
		j["x"] = val(x.X)
		j["ok"] = x.CommaOk
	case *ssa.ChangeType:
		j["op"] = "changetype"
		j["x"] = val(x.X)
	case *ssa.Convert:
		j["op"] = "convert"
		j["x"] = val(x.X)
		j["xt"] = typeID(x.X.Type())
	case *ssa.ChangeInterface:
		j["op"] = "changeiface"
		j["x"] = val(x.X)
	case *ssa.MakeInterface:
		j["op"] = "makeiface"
		j["x"] = val(x.X)
		j["xt"] = typeID(x.X.Type())
		registerMethods(x.X.Type())
	case *ssa.MakeClosure:
		j["op"] = "closure"
		j["fn"] = val(x.Fn)
		j["b"] = vals(x.Bindings)
	case *ssa.MakeMap:
		j["op"] = "makemap"
	case *ssa.MakeChan:
		j["op"] = "makechan"
	case *ssa.MakeSlice:
		j["op"] = "makeslice"
		j["len"] = val(x.Len)
		j["cap"] = val(x.Cap)
	case *ssa.Slice:
		j["op"] = "slice"
		j["x"] = val(x.X)
		j["xt"] = typeID(x.X.Type())
		j["lo"] = val(x.Low)
		j["hi"] = val(x.High)
		j["max"] = val(x.Max)
	case *ssa.SliceToArrayPointer:
		j["op"] = "slice2arr"
	case *ssa.FieldAddr:
		j["op"] = "fieldaddr"
		j["x"] = val(x.X)
		st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		j["f"] = st.Field(x.Field).Name()
	case *ssa.Field:
		j["op"] = "field"
		j["x"] = val(x.X)
		j["f"] = x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name()
	case *ssa.IndexAddr:
		j["op"] = "indexaddr"
		j["x"] = val(x.X)
		j["xt"] = typeID(x.X.Type())
		j["i"] = val(x.Index)
	case *ssa.Index:
		j["op"] = "index"
		j["x"] = val(x.X)
		j["xt"] = typeID(x.X.Type())
		j["i"] = val(x.Index)
	case *ssa.Lookup:
		j["op"] = "lookup"
		j["x"] = val(x.X)
		j["xt"] = typeID(x.X.Type())
		j["i"] = val(x.Index)
		j["ok"] = x.CommaOk
	case *ssa.Select:
		j["op"] = "select"
	case *ssa.Range:
		j["op"] = "range"
		j["x"] = val(x.X)
		j["xt"] = typeID(x.X.Type())
	case *ssa.Next:
		j["op"] = "next"
		j["x"] = val(x.Iter)
		j["str"] = x.IsString
	case *ssa.TypeAssert:
		j["op"] = "typeassert"
		j["x"] = val(x.X)
		j["at"] = typeID(x.AssertedType)
		j["ok"] = x.CommaOk
	case *ssa.Extract:
		j["op"] = "extract"
		j["x"] = val(x.Tuple)
		j["i"] = x.Index
	case *ssa.Jump:
		j["op"] = "jump"
	case *ssa.If:
		j["op"] = "if"
		j["x"] = val(x.Cond)
	case *ssa.Return:
		j["op"] = "return"
		j["xs"] = vals(x.Results)
	case *ssa.Panic:
		j["op"] = "panic"
		j["x"] = val(x.X)
	case *ssa.Send:
		j["op"] = "send"
	case *ssa.Store:
		j["op"] = "store"
		j["a"] = val(x.Addr)
		j["x"] = val(x.Val)
		j["xt"] = typeID(x.Val.Type())
	case *ssa.MapUpdate:
		j["op"] = "mapupdate"
		j["m"] = val(x.Map)
		j["key"] = val(x.Key)
		j["x"] = val(x.Value)
	case *ssa.MultiConvert:
		j["op"] = "multiconvert"
	default:
		j["op"] = "unknown"
		j["s"] = fmt.Sprintf("%T", in)
	}
	return j
}

func fnJ(f *ssa.Function) J {
	j := J{"name": fname(f), "sig": typeID(f.Signature), "synthetic": f.Synthetic}
	if f.Pkg != nil {
		j["pkg"] = f.Pkg.Pkg.Path()
	}
	if f.Object() != nil {
		j["exported"] = f.Object().Exported()
	}
	ps := []interface{}{}
	for _, p := range f.Params {
		ps = append(ps, []interface{}{p.Name(), typeID(p.Type())})
	}
	j["params"] = ps
	fv := []interface{}{}
	for _, p := range f.FreeVars {
		fv = append(fv, []interface{}{p.Name(), typeID(p.Type())})
	}
	j["freevars"] = fv
	if f.Pos().IsValid() {
		ps := fset.Position(f.Pos())
		j["pos"] = fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
	}
	if f.Blocks == nil {
		return j
	}
	bs := []interface{}{}
	for _, b := range f.Blocks {
		ins := []interface{}{}
		for _, in := range b.Instrs {
			if ij := instrJ(in); ij != nil {
				ins = append(ins, ij)
			}
		}
		succ := []int{}
		for _, s := range b.Succs {
			succ = append(succ, s.Index)
		}
		pred := []int{}
		for _, s := range b.Preds {
			pred = append(pred, s.Index)
		}
		idom := -1
		if b.Idom() != nil {
			idom = b.Idom().Index
		}
		bs = append(bs, J{"i": ins, "succ": succ, "pred": pred, "idom": idom, "c": b.Comment})
	}
	j["blocks"] = bs
	if f.Recover != nil {
		j["recover"] = f.Recover.Index
	}
	return j
}

var methods = map[string]map[string]string{}

func registerMethods(t types.Type) {
	t = types.Unalias(t)
	key := types.TypeString(t, q)
	if _, ok := methods[key]; ok {
		return
	}
	mm := map[string]string{}
	methods[key] = mm
	typeID(t)
	if types.IsInterface(t) {
		return
	}
	ms := prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		fn := prog.MethodValue(ms.At(i))
		if fn != nil {
			mm[ms.At(i).Obj().Name()] = fname(fn)
			if fn.Pkg != nil || fn.Synthetic != "" {
				enqueue(fn)
			}
		}
	}
}

func main() {
	dir, out := os.Args[1], os.Args[2]
	cfg := &packages.Config{
		Dir: dir,
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedExportFile | packages.NeedDeps,
	}
	// without NeedDeps syntax, dependencies come from export data
	cfg.Mode &^= packages.NeedDeps
	pats := os.Args[3:]
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if packages.PrintErrors(pkgs) > 0 {
		os.Exit(2)
	}
	fset = pkgs[0].Fset
	p, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog = p
	prog.Build()
	for _, sp := range spkgs {
		if sp == nil {
			continue
		}
		names := []string{}
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				enqueue(m)
			case *ssa.Type:
				registerMethods(m.Type())
				registerMethods(types.NewPointer(m.Type()))
			}
		}
	}
	fns := J{}
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		for _, a := range f.AnonFuncs {
			enqueue(a)
		}
		fns[fname(f)] = fnJ(f)
	}
	for k := range fns {
		_ = strings.HasPrefix(k, "")
	}
	res := J{"types": typeList, "fns": fns, "methods": methods}
	w, err := os.Create(out)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	enc := json.NewEncoder(w)
	if err := enc.Encode(res); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	w.Close()
}
