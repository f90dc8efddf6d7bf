package main

// Loading: go/packages + go/ssa over /repo's working tree on every run. Lemma
// files from /verif/lemmas are placed in their packages through an overlay, so
// that nothing is written into /repo.

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/prospik/libsignal-protocol-go/"

type Program struct {
	prog     *ssa.Program
	pkgs     []*packages.Package
	ssapkgs  map[string]*ssa.Package
	funcs    map[string]*ssa.Function // "chain.(*Key).NextKey"
	fnID     map[*ssa.Function]int
	fnByID   map[int]*ssa.Function
	typeID   map[string]int
	typeByID map[int]types.Type
	globID   map[*ssa.Global]int
	constG   map[*ssa.Global]bool // only stored by the package initialiser
	spec     *Spec
	dropped  map[string]string // lemma files that no longer type-check
	repo     string
	mu       sync.Mutex
	ext      map[string]int
	dbgLoop  bool
	rands    sync.Map
	extName  map[int]string
}

func shortPkg(p *types.Package) string {
	if p == nil {
		return ""
	}
	s := strings.TrimPrefix(p.Path(), modPath)
	if s == p.Path() {
		return p.Path()
	}
	return s
}

// short names: the last path element, except where it is ambiguous.
func pkgAlias(path string) string {
	switch path {
	case "state/record":
		return "record"
	case "groups/state/record":
		return "grecord"
	case "groups/state/store":
		return "gstore"
	case "groups/ratchet":
		return "gratchet"
	case "keys/session":
		return "ksession"
	}
	if i := strings.LastIndexByte(path, '/'); i >= 0 {
		return path[i+1:]
	}
	return path
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		s := shortPkg(p)
		if s == p.Path() {
			return p.Path()
		}
		return pkgAlias(s)
	})
}

func funcName(f *ssa.Function) string {
	if f == nil {
		return "<nil>"
	}
	pk := ""
	if f.Pkg != nil {
		pk = shortPkg(f.Pkg.Pkg)
		if pk != f.Pkg.Pkg.Path() {
			pk = pkgAlias(pk)
		}
	}
	if recv := f.Signature.Recv(); recv != nil {
		t := recv.Type()
		star := ""
		if p, ok := t.(*types.Pointer); ok {
			star = "*"
			t = p.Elem()
		}
		n := "?"
		if nt, ok := t.(*types.Named); ok {
			n = nt.Obj().Name()
			if pk == "" && nt.Obj().Pkg() != nil {
				pk = nt.Obj().Pkg().Path()
			}
		}
		return fmt.Sprintf("%s.(%s%s).%s", pk, star, n, f.Name())
	}
	return pk + "." + f.Name()
}

func load(repo, lemmaDir string) (*Program, error) {
	overlay := map[string][]byte{}
	lemmaOf := map[string]string{}
	filepath.Walk(lemmaDir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(lemmaDir, p)
			b, e := os.ReadFile(p)
			if e == nil {
				dst := filepath.Join(repo, rel)
				overlay[dst] = b
				lemmaOf[dst] = rel
			}
		}
		return nil
	})
	dropped := map[string]string{}
	var pkgs []*packages.Package
	for {
		cfg := &packages.Config{
			Mode:    packages.LoadSyntax | packages.NeedModule,
			Dir:     repo,
			Overlay: overlay,
			Env:     os.Environ(),
		}
		var err error
		pkgs, err = packages.Load(cfg, "./...")
		if err != nil {
			return nil, err
		}
		retry := false
		var bad []string
		for _, p := range pkgs {
			for _, e := range p.Errors {
				if strings.Contains(p.PkgPath, "/tests") {
					continue
				}
				bad = append(bad, e.Error())
				file := strings.SplitN(e.Pos, ":", 2)[0]
				if rel, ok := lemmaOf[file]; ok && overlay[file] != nil {
					dropped[rel] = e.Error()
					delete(overlay, file)
					retry = true
				}
			}
		}
		if retry {
			continue
		}
		if len(bad) > 0 {
			return nil, fmt.Errorf("repository does not type-check: %s", strings.Join(bad, "; "))
		}
		break
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	// all imported packages (types only) must exist as SSA packages
	var fset = pkgs[0].Fset
	prog := ssa.NewProgram(fset, ssa.GlobalDebug)
	created := map[*types.Package]bool{}
	P := &Program{prog: prog, pkgs: pkgs, ssapkgs: map[string]*ssa.Package{}, funcs: map[string]*ssa.Function{},
		fnID: map[*ssa.Function]int{}, fnByID: map[int]*ssa.Function{}, typeID: map[string]int{}, typeByID: map[int]types.Type{},
		globID: map[*ssa.Global]int{}, constG: map[*ssa.Global]bool{}, dropped: dropped, repo: repo, ext: map[string]int{}, extName: map[int]string{}}
	initial := map[*types.Package]*packages.Package{}
	for _, p := range pkgs {
		initial[p.Types] = p
	}
	var create func(tp *types.Package)
	create = func(tp *types.Package) {
		if created[tp] {
			return
		}
		created[tp] = true
		for _, im := range tp.Imports() {
			create(im)
		}
		if p, ok := initial[tp]; ok {
			sp := prog.CreatePackage(tp, p.Syntax, p.TypesInfo, true)
			P.ssapkgs[tp.Path()] = sp
		} else {
			prog.CreatePackage(tp, nil, nil, true)
		}
	}
	for _, p := range pkgs {
		create(p.Types)
	}
	var all []*ssa.Function
	for _, p := range pkgs {
		if strings.HasSuffix(p.PkgPath, "/tests") {
			continue
		}
		sp := P.ssapkgs[p.Types.Path()]
		sp.Build()
	}
	add := func(f *ssa.Function) {
		if f == nil || f.Blocks == nil && f.Synthetic != "" {
			return
		}
		all = append(all, f)
	}
	for _, p := range pkgs {
		if strings.HasSuffix(p.PkgPath, "/tests") {
			continue
		}
		sp := P.ssapkgs[p.Types.Path()]
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				add(m)
				for _, a := range m.AnonFuncs {
					all = append(all, a)
				}
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						mf := prog.MethodValue(ms.At(i))
						if mf != nil && mf.Pkg == sp && mf.Synthetic == "" {
							add(mf)
							for _, a := range mf.AnonFuncs {
								all = append(all, a)
							}
						}
					}
				}
			case *ssa.Global:
				P.globID[m] = 0
			}
		}
	}
	sort.Slice(all, func(i, j int) bool { return funcName(all[i])+all[i].String() < funcName(all[j])+all[j].String() })
	id := 1
	for _, f := range all {
		if _, ok := P.fnID[f]; ok {
			continue
		}
		P.fnID[f] = id
		P.fnByID[id] = f
		id++
		P.funcs[funcName(f)] = f
	}
	var gs []*ssa.Global
	for g := range P.globID {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	for i, g := range gs {
		P.globID[g] = i + 1
		P.constG[g] = true
	}
	// a global is constant when nothing but the initialiser mentions it except to load it
	for f := range P.fnID {
		if f.Name() == "init" && f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if u, ok := in.(*ssa.UnOp); ok && u.X == g {
						continue
					}
					P.constG[g] = false
				}
			}
		}
	}
	return P, nil
}

// typeID numbers concrete types (for interface tags).
func (P *Program) tagOf(t types.Type) int {
	n := typeName(t)
	P.mu.Lock()
	defer P.mu.Unlock()
	if id, ok := P.typeID[n]; ok {
		return id
	}
	id := len(P.typeID) + 1
	P.typeID[n] = id
	P.typeByID[id] = t
	return id
}
