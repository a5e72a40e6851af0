package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	repo     string
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package // by package name
	byPath   map[string]*ssa.Package
	funcs    map[string]*ssa.Function // canonical name -> function
	types    map[string]types.Type    // "pkg.Name" -> type
	gconst   map[*ssa.Global]*globalInfo
	errID    map[string]int
	errWraps map[string]string
	nfuncs   int
}

type globalInfo struct {
	immutable bool
	stores    []*ssa.Store
}

func loadProgram(repo string, patterns []string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps*0,
		Dir: repo,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOTOOLCHAIN=local", "GOPROXY=off", "CGO_ENABLED=1"),
	}
	initial, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	for _, p := range initial {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("load %s: %v", p.PkgPath, e)
		}
	}
	prog, pkgs := ssautil.Packages(initial, ssa.InstantiateGenerics)
	P := &Program{repo: repo, prog: prog, pkgs: map[string]*ssa.Package{}, byPath: map[string]*ssa.Package{}, funcs: map[string]*ssa.Function{}, types: map[string]types.Type{}, gconst: map[*ssa.Global]*globalInfo{}, errID: map[string]int{}, errWraps: map[string]string{}}
	for i, p := range pkgs {
		if p == nil {
			return nil, fmt.Errorf("no ssa for %s", initial[i].PkgPath)
		}
		p.Build()
		P.byPath[p.Pkg.Path()] = p
		if _, dup := P.pkgs[p.Pkg.Name()]; !dup {
			P.pkgs[p.Pkg.Name()] = p
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Synthetic != "" && !strings.HasPrefix(fn.Synthetic, "package init") && fn.Blocks == nil {
			continue
		}
		n := canonFunc(fn)
		if old, ok := P.funcs[n]; ok && old.Blocks != nil {
			if fn.Blocks == nil || fn.Synthetic != "" {
				continue
			}
		}
		P.funcs[n] = fn
		if fn.Blocks != nil {
			P.nfuncs++
		}
	}
	// types reachable from all packages (imports included)
	seen := map[*types.Package]bool{}
	var addPkg func(tp *types.Package)
	addPkg = func(tp *types.Package) {
		if seen[tp] {
			return
		}
		seen[tp] = true
		sc := tp.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
				k := tp.Name() + "." + n
				if _, dup := P.types[k]; !dup || P.byPath[tp.Path()] != nil {
					P.types[k] = tn.Type()
				}
			}
		}
		for _, im := range tp.Imports() {
			addPkg(im)
		}
	}
	for _, p := range pkgs {
		addPkg(p.Pkg)
	}
	P.scanGlobals()
	return P, nil
}

func pkgNameOf(p *types.Package) string {
	if p == nil {
		return "_"
	}
	return p.Name()
}

func qual(p *types.Package) string { return pkgNameOf(p) }

var typeKeyCache sync.Map
var reByte = regexp.MustCompile(`\bbyte\b`)
var reRune = regexp.MustCompile(`\brune\b`)
var reAny = regexp.MustCompile(`\bany\b`)

// typeKey: canonical type text (byte is uint8, rune is int32, any is interface{}).
func typeKey(t types.Type) string {
	if s, ok := typeKeyCache.Load(t); ok {
		return s.(string)
	}
	s := types.TypeString(types.Unalias(t), qual)
	s = reByte.ReplaceAllString(s, "uint8")
	s = reRune.ReplaceAllString(s, "int32")
	s = reAny.ReplaceAllString(s, "interface{}")
	typeKeyCache.Store(t, s)
	return s
}

// canonFunc gives pkg.Func, pkg.(*T).M or pkg.T.M
func canonFunc(fn *ssa.Function) string {
	if fn.Parent() != nil {
		// anonymous
		nm := fn.Name()
		if i := strings.LastIndex(nm, "$"); i >= 0 {
			return canonFunc(fn.Parent()) + nm[i:]
		}
		return canonFunc(fn.Parent()) + "$" + nm
	}
	if recv := fn.Signature.Recv(); recv != nil {
		return methodKey(recv.Type(), fn.Name())
	}
	pk := fn.Pkg
	if pk != nil {
		return pk.Pkg.Name() + "." + fn.Name()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Name() + "." + fn.Name()
	}
	return fn.Name()
}

func methodKey(recv types.Type, name string) string {
	ptr := false
	t := recv
	if p, ok := t.(*types.Pointer); ok {
		ptr = true
		t = p.Elem()
	}
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		pk := pkgNameOf(n.Obj().Pkg())
		if ptr {
			return pk + ".(*" + n.Obj().Name() + ")." + name
		}
		return pk + "." + n.Obj().Name() + "." + name
	}
	return typeKey(recv) + "." + name
}

// globalsOf yields the package variables a function uses, itself or through the functions of its package it calls.
func globalsOf(fn *ssa.Function) map[*ssa.Global]bool {
	r, seen := map[*ssa.Global]bool{}, map[*ssa.Function]bool{}
	var walk func(*ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] || f.Pkg != fn.Pkg {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						walk(g)
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						r[g] = true
					}
				}
			}
		}
	}
	walk(fn)
	return r
}

// initsOf yields the init functions of a package that use a variable the function uses.
func (P *Program) initsOf(fn *ssa.Function) []*ssa.Function {
	var r []*ssa.Function
	gs := globalsOf(fn)
	for n := 1; ; n++ {
		in := P.funcs[fmt.Sprintf("%s.init#%d", fn.Pkg.Pkg.Name(), n)]
		if in == nil {
			return r
		}
		for g := range globalsOf(in) {
			if gs[g] {
				r = append(r, in)
				break
			}
		}
	}
}

// scanGlobals decides which package variables are assigned only in package initialisers.
func (P *Program) scanGlobals() {
	for _, p := range P.byPath {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				P.gconst[g] = &globalInfo{immutable: true}
			}
		}
	}
	for fn := range ssautil.AllFunctions(P.prog) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					gi := P.gconst[g]
					if gi == nil {
						continue
					}
					switch i := in.(type) {
					case *ssa.UnOp:
						// load
					case *ssa.Store:
						if i.Addr == g && fn.Synthetic == "package initializer" {
							gi.stores = append(gi.stores, i)
						} else {
							gi.immutable = false
						}
					case *ssa.DebugRef:
					case *ssa.FieldAddr, *ssa.IndexAddr:
						// may be written through: conservative unless only loaded
						if v, ok := in.(ssa.Value); ok && v.Referrers() != nil {
							for _, r := range *v.Referrers() {
								if _, isLoad := r.(*ssa.UnOp); !isLoad {
									if st, isSt := r.(*ssa.Store); isSt && fn.Synthetic == "package initializer" && st.Addr == v {
										continue
									}
									gi.immutable = false
								}
							}
						}
					default:
						gi.immutable = false
					}
				}
			}
		}
	}
	// error identities and wrapping
	id := 1
	for g, gi := range P.gconst {
		if gi.immutable && typeKey(g.Type().(*types.Pointer).Elem()) == "error" {
			id++
			_ = id
			P.errID[globKey(g)] = 0
		}
		_ = gi
	}
	keys := make([]string, 0)
	for k := range P.errID {
		keys = append(keys, k)
	}
	sortStrings(keys)
	for i, k := range keys {
		P.errID[k] = i + 1
	}
	for g, gi := range P.gconst {
		if _, ok := P.errID[globKey(g)]; !ok {
			continue
		}
		for _, s := range gi.stores {
			if c, ok := s.Val.(*ssa.Call); ok {
				if sc := c.Common().StaticCallee(); sc != nil && canonFunc(sc) == "fmt.Errorf" {
					// find wrapped global: look at the variadic slice stores
					for _, a := range c.Common().Args {
						if w := findWrapped(a); w != "" {
							P.errWraps[globKey(g)] = w
						}
					}
				}
			}
		}
	}
}

func findWrapped(a ssa.Value) string {
	sl, ok := a.(*ssa.Slice)
	if !ok {
		return ""
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return ""
	}
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok || ia.Referrers() == nil {
			continue
		}
		for _, rr := range *ia.Referrers() {
			st, ok := rr.(*ssa.Store)
			if !ok {
				continue
			}
			v := st.Val
			if ci, ok := v.(*ssa.ChangeInterface); ok {
				v = ci.X
			}
			if u, ok := v.(*ssa.UnOp); ok {
				if g, ok := u.X.(*ssa.Global); ok {
					return globKey(g)
				}
			}
		}
	}
	return ""
}

func globKey(g *ssa.Global) string { return g.Pkg.Pkg.Name() + "." + g.Name() }

func relPos(repo, file string) string {
	if r, err := filepath.Rel(repo, file); err == nil && !strings.HasPrefix(r, "..") {
		return r
	}
	return filepath.Base(file)
}
