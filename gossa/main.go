// Command gossa prints the go/ssa form of the packages under /repo (and of the
// contract packages of /verif) as JSON, for the verification condition
// generator in /verif/vc. It is run on every check, on the current sources.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type M = map[string]interface{}

type exp struct {
	prog   *ssa.Program
	types  map[string]int
	tlist  []M
	funcs  map[string]M
	queue  []*ssa.Function
	seen   map[*ssa.Function]bool
	prefix []string
	names  map[*ssa.Function]string
	globs  map[string]M
	met    map[string]string
}

func (e *exp) typ(t types.Type) int {
	t = types.Unalias(t)
	key := types.TypeString(t, nil)
	if n, ok := t.(*types.Named); ok {
		// local types of different functions may share a name
		if n.Obj().Pkg() != nil && n.Obj().Parent() != n.Obj().Pkg().Scope() {
			key = fmt.Sprintf("%s@%d", key, n.Obj().Pos())
		}
	}
	if i, ok := e.types[key]; ok {
		return i
	}
	i := len(e.tlist)
	e.types[key] = i
	m := M{"str": key}
	e.tlist = append(e.tlist, m)
	switch u := t.(type) {
	case *types.Named:
		m["kind"] = "named"
		m["name"] = u.Obj().Name()
		if u.Obj().Pkg() != nil {
			m["pkg"] = u.Obj().Pkg().Path()
		}
		m["under"] = e.typ(u.Underlying())
	case *types.TypeParam:
		m["kind"] = "typeparam"
	case *types.Basic:
		m["kind"] = "basic"
		m["name"] = u.Name()
		m["info"] = int(u.Info())
	case *types.Pointer:
		m["kind"] = "pointer"
		m["elem"] = e.typ(u.Elem())
	case *types.Slice:
		m["kind"] = "slice"
		m["elem"] = e.typ(u.Elem())
	case *types.Array:
		m["kind"] = "array"
		m["elem"] = e.typ(u.Elem())
		m["len"] = u.Len()
	case *types.Map:
		m["kind"] = "map"
		m["key"] = e.typ(u.Key())
		m["elem"] = e.typ(u.Elem())
	case *types.Chan:
		m["kind"] = "chan"
		m["elem"] = e.typ(u.Elem())
	case *types.Struct:
		m["kind"] = "struct"
		fs := []M{}
		for j := 0; j < u.NumFields(); j++ {
			f := u.Field(j)
			fs = append(fs, M{"name": f.Name(), "type": e.typ(f.Type()), "embedded": f.Embedded(), "tag": u.Tag(j)})
		}
		m["fields"] = fs
	case *types.Interface:
		m["kind"] = "interface"
		ms := []string{}
		for j := 0; j < u.NumMethods(); j++ {
			ms = append(ms, u.Method(j).Name())
		}
		m["methods"] = ms
	case *types.Signature:
		m["kind"] = "func"
		ps, rs := []int{}, []int{}
		for j := 0; j < u.Params().Len(); j++ {
			ps = append(ps, e.typ(u.Params().At(j).Type()))
		}
		for j := 0; j < u.Results().Len(); j++ {
			rs = append(rs, e.typ(u.Results().At(j).Type()))
		}
		m["params"] = ps
		m["results"] = rs
		m["variadic"] = u.Variadic()
	case *types.Tuple:
		m["kind"] = "tuple"
		fs := []int{}
		for j := 0; j < u.Len(); j++ {
			fs = append(fs, e.typ(u.At(j).Type()))
		}
		m["elems"] = fs
	default:
		m["kind"] = "opaque"
	}
	return i
}

func (e *exp) fname(f *ssa.Function) string {
	if n, ok := e.names[f]; ok {
		return n
	}
	n := f.String()
	e.names[f] = n
	return n
}

func (e *exp) want(f *ssa.Function) bool {
	g := f
	for g.Parent() != nil {
		g = g.Parent()
	}
	if o := g.Origin(); o != nil {
		g = o
	}
	if g.Pkg == nil {
		// wrappers, bound methods, thunks
		return g.Synthetic != "" && f.Blocks != nil && wantStr(f.String(), e.prefix)
	}
	p := g.Pkg.Pkg.Path()
	for _, x := range e.prefix {
		if p == x || strings.HasPrefix(p, x+"/") {
			return true
		}
	}
	return false
}

func wantStr(s string, prefix []string) bool {
	for _, x := range prefix {
		if strings.Contains(s, x) {
			return true
		}
	}
	return false
}

func (e *exp) add(f *ssa.Function) string {
	n := e.fname(f)
	if !e.seen[f] {
		e.seen[f] = true
		if e.want(f) {
			e.queue = append(e.queue, f)
		}
	}
	return n
}

func (e *exp) val(v ssa.Value) M {
	switch x := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		m := M{"k": "const", "type": e.typ(x.Type())}
		if x.Value == nil {
			m["nil"] = true
		} else {
			switch x.Value.Kind() {
			case constant.Bool:
				m["bool"] = constant.BoolVal(x.Value)
			case constant.String:
				m["strb"] = []byte(constant.StringVal(x.Value))
			case constant.Int:
				m["int"] = x.Value.ExactString()
			case constant.Float:
				m["float"] = x.Value.ExactString()
			default:
				m["other"] = x.Value.ExactString()
			}
		}
		return m
	case *ssa.Function:
		return M{"k": "func", "name": e.add(x), "type": e.typ(x.Type())}
	case *ssa.Builtin:
		return M{"k": "builtin", "name": x.Name()}
	case *ssa.Global:
		name := x.String()
		if _, ok := e.globs[name]; !ok {
			e.globs[name] = M{"type": e.typ(x.Type())}
		}
		return M{"k": "global", "name": name, "type": e.typ(x.Type())}
	case *ssa.Parameter:
		return M{"k": "var", "name": x.Name()}
	case *ssa.FreeVar:
		return M{"k": "free", "name": x.Name()}
	default:
		return M{"k": "var", "name": v.Name()}
	}
}

func (e *exp) vals(vs []ssa.Value) []M {
	r := []M{}
	for _, v := range vs {
		r = append(r, e.val(v))
	}
	return r
}

func (e *exp) call(c *ssa.CallCommon) M {
	m := M{"args": e.vals(c.Args)}
	if c.IsInvoke() {
		m["invoke"] = c.Method.Name()
		m["recv"] = e.val(c.Value)
		m["recvtype"] = e.typ(c.Value.Type())
	} else {
		m["fn"] = e.val(c.Value)
		if f := c.StaticCallee(); f != nil {
			m["static"] = e.fname(f)
			if f.Pkg != nil {
				m["pkg"] = f.Pkg.Pkg.Path()
			}
			if o := f.Origin(); o != nil {
				m["origin"] = o.String()
			}
		}
	}
	m["sig"] = e.typ(c.Signature())
	return m
}

func (e *exp) fn(f *ssa.Function) {
	name := e.fname(f)
	m := M{"name": name, "sig": e.typ(f.Signature)}
	if f.Pkg != nil {
		m["pkg"] = f.Pkg.Pkg.Path()
	}
	if f.Parent() != nil {
		m["parent"] = e.fname(f.Parent())
	}
	if o := f.Origin(); o != nil {
		m["origin"] = o.String()
	}
	m["synthetic"] = f.Synthetic
	pos := e.prog.Fset.Position(f.Pos())
	m["file"] = pos.Filename
	m["line"] = pos.Line
	ps := []M{}
	for _, p := range f.Params {
		ps = append(ps, M{"name": p.Name(), "type": e.typ(p.Type())})
	}
	m["params"] = ps
	fv := []M{}
	for _, p := range f.FreeVars {
		fv = append(fv, M{"name": p.Name(), "type": e.typ(p.Type())})
	}
	m["freevars"] = fv
	rs := []int{}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		rs = append(rs, e.typ(f.Signature.Results().At(i).Type()))
	}
	m["results"] = rs
	if f.Recover != nil {
		m["recover"] = f.Recover.Index
	}
	bs := []M{}
	for _, b := range f.Blocks {
		is := []M{}
		for _, in := range b.Instrs {
			x := e.instr(in)
			if x == nil {
				continue
			}
			if v, ok := in.(ssa.Value); ok {
				x["name"] = v.Name()
				x["type"] = e.typ(v.Type())
			}
			if in.Pos().IsValid() {
				x["line"] = e.prog.Fset.Position(in.Pos()).Line
			}
			is = append(is, x)
		}
		su, pr := []int{}, []int{}
		for _, s := range b.Succs {
			su = append(su, s.Index)
		}
		for _, s := range b.Preds {
			pr = append(pr, s.Index)
		}
		bs = append(bs, M{"index": b.Index, "comment": b.Comment, "instrs": is, "succs": su, "preds": pr})
	}
	m["blocks"] = bs
	e.funcs[name] = m
}

func (e *exp) instr(in ssa.Instruction) M {
	switch x := in.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Alloc:
		return M{"op": "Alloc", "heap": x.Heap, "elem": e.typ(x.Type().Underlying().(*types.Pointer).Elem())}
	case *ssa.BinOp:
		return M{"op": "BinOp", "tok": x.Op.String(), "x": e.val(x.X), "y": e.val(x.Y), "xt": e.typ(x.X.Type()), "yt": e.typ(x.Y.Type())}
	case *ssa.UnOp:
		return M{"op": "UnOp", "tok": x.Op.String(), "x": e.val(x.X), "xt": e.typ(x.X.Type()), "commaok": x.CommaOk}
	case *ssa.Call:
		m := e.call(&x.Call)
		m["op"] = "Call"
		return m
	case *ssa.Defer:
		m := e.call(&x.Call)
		m["op"] = "Defer"
		return m
	case *ssa.Go:
		m := e.call(&x.Call)
		m["op"] = "Go"
		return m
	case *ssa.ChangeInterface:
		return M{"op": "ChangeInterface", "x": e.val(x.X)}
	case *ssa.ChangeType:
		return M{"op": "ChangeType", "x": e.val(x.X), "xt": e.typ(x.X.Type())}
	case *ssa.Convert:
		return M{"op": "Convert", "x": e.val(x.X), "xt": e.typ(x.X.Type())}
	case *ssa.MultiConvert:
		return M{"op": "Convert", "x": e.val(x.X), "xt": e.typ(x.X.Type())}
	case *ssa.MakeInterface:
		return M{"op": "MakeInterface", "x": e.val(x.X), "xt": e.typ(x.X.Type())}
	case *ssa.MakeClosure:
		return M{"op": "MakeClosure", "fn": e.val(x.Fn), "bind": e.vals(x.Bindings)}
	case *ssa.MakeMap:
		return M{"op": "MakeMap"}
	case *ssa.MakeSlice:
		return M{"op": "MakeSlice", "len": e.val(x.Len), "cap": e.val(x.Cap)}
	case *ssa.MakeChan:
		return M{"op": "MakeChan"}
	case *ssa.Slice:
		return M{"op": "Slice", "x": e.val(x.X), "lo": e.val(x.Low), "hi": e.val(x.High), "max": e.val(x.Max), "xt": e.typ(x.X.Type())}
	case *ssa.FieldAddr:
		return M{"op": "FieldAddr", "x": e.val(x.X), "field": x.Field}
	case *ssa.Field:
		return M{"op": "Field", "x": e.val(x.X), "field": x.Field}
	case *ssa.IndexAddr:
		return M{"op": "IndexAddr", "x": e.val(x.X), "i": e.val(x.Index), "xt": e.typ(x.X.Type())}
	case *ssa.Index:
		return M{"op": "Index", "x": e.val(x.X), "i": e.val(x.Index), "xt": e.typ(x.X.Type())}
	case *ssa.Lookup:
		return M{"op": "Lookup", "x": e.val(x.X), "i": e.val(x.Index), "commaok": x.CommaOk, "xt": e.typ(x.X.Type())}
	case *ssa.Range:
		return M{"op": "Range", "x": e.val(x.X), "xt": e.typ(x.X.Type())}
	case *ssa.Next:
		return M{"op": "Next", "x": e.val(x.Iter), "isstring": x.IsString}
	case *ssa.TypeAssert:
		return M{"op": "TypeAssert", "x": e.val(x.X), "at": e.typ(x.AssertedType), "commaok": x.CommaOk}
	case *ssa.Extract:
		return M{"op": "Extract", "x": e.val(x.Tuple), "i": x.Index}
	case *ssa.Phi:
		return M{"op": "Phi", "edges": e.vals(x.Edges), "comment": x.Comment}
	case *ssa.Store:
		return M{"op": "Store", "addr": e.val(x.Addr), "val": e.val(x.Val)}
	case *ssa.MapUpdate:
		return M{"op": "MapUpdate", "m": e.val(x.Map), "key": e.val(x.Key), "val": e.val(x.Value)}
	case *ssa.Send:
		return M{"op": "Send"}
	case *ssa.Select:
		return M{"op": "Select"}
	case *ssa.If:
		return M{"op": "If", "cond": e.val(x.Cond)}
	case *ssa.Jump:
		return M{"op": "Jump"}
	case *ssa.Return:
		return M{"op": "Return", "results": e.vals(x.Results)}
	case *ssa.Panic:
		return M{"op": "Panic", "x": e.val(x.X)}
	case *ssa.RunDefers:
		return M{"op": "RunDefers"}
	default:
		return M{"op": "Unsupported", "what": fmt.Sprintf("%T", in)}
	}
}

func main() {
	dir := flag.String("dir", ".", "module directory to load from")
	prefix := flag.String("prefix", "", "comma separated import path prefixes whose functions are exported")
	out := flag.String("o", "", "output file")
	flag.Parse()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: *dir, Env: os.Environ(),
	}
	pkgs, err := packages.Load(cfg, flag.Args()...)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if packages.PrintErrors(pkgs) > 0 {
		os.Exit(3)
	}
	e := &exp{types: map[string]int{}, funcs: map[string]M{}, seen: map[*ssa.Function]bool{},
		prefix: strings.Split(*prefix, ","), names: map[*ssa.Function]string{}, globs: map[string]M{}, met: map[string]string{}}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	e.prog = prog
	for _, p := range prog.AllPackages() {
		for _, x := range e.prefix {
			if p.Pkg.Path() == x || strings.HasPrefix(p.Pkg.Path(), x+"/") {
				p.Build()
				break
			}
		}
	}
	pk := []string{}
	for _, p := range prog.AllPackages() {
		ok := false
		for _, x := range e.prefix {
			if p.Pkg.Path() == x || strings.HasPrefix(p.Pkg.Path(), x+"/") {
				ok = true
			}
		}
		if !ok {
			continue
		}
		pk = append(pk, p.Pkg.Path())
		names := []string{}
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch x := p.Members[n].(type) {
			case *ssa.Function:
				if x.TypeParams().Len() == 0 {
					e.add(x)
				}
			case *ssa.Global:
				e.val(x)
			case *ssa.Type:
				if _, ok := x.Type().Underlying().(*types.Interface); ok {
					continue
				}
				if nt, ok := x.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := prog.MethodValue(ms.At(i))
						if f == nil {
							continue
						}
						e.met[fmt.Sprintf("%d.%s", e.typ(t), f.Name())] = e.fname(f)
						e.add(f)
					}
				}
			}
		}
	}
	for len(e.queue) > 0 {
		f := e.queue[0]
		e.queue = e.queue[1:]
		if f.Blocks == nil {
			continue
		}
		e.fn(f)
	}
	w := os.Stdout
	if *out != "" {
		w, err = os.Create(*out)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		defer w.Close()
	}
	sort.Strings(pk)
	json.NewEncoder(w).Encode(M{"types": e.tlist, "funcs": e.funcs, "globals": e.globs, "methods": e.met, "packages": pk})
}
