package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Contract is the specification of one function (or of one client program).
type Contract struct {
	name   string
	target *ssa.Function
	key    string
	client bool
	pre    *ssa.Function
	post   *ssa.Function
	invs   []*ssa.Function
	seqs   []*ssa.Function
	accs   []*ssa.Function
	gen    bool
	use    *ssa.Function
	props  []string
	pkg    *ssa.Package
	inPkg  bool
	flags  map[string]string
	fact   *fact
}

// fact: a lemma about a specification function, proved by induction on its last
// integer parameter and then available wherever the function is applied.
type fact struct {
	fn    *ssa.Function // the lemma
	about *ssa.Function
	index int
	ct    *Contract
}

type World struct {
	prog      *ssa.Program
	pkgs      []*packages.Package
	spkgs     []*ssa.Package
	refTypes  map[types.Object]bool
	contracts map[string]*Contract
	facts     map[*ssa.Function][]*fact
	all       []*Contract
	clients   map[*ssa.Function]bool
	composites map[*ssa.Function][]*composite
	ctors      map[*ssa.Function]bool
	overlay   map[string]string // virtual -> real

	missing []missing

	mu    sync.Mutex
	loops map[*ssa.Function]*loopInfo
	rec   map[*ssa.Function]bool
	nm    map[*ssa.Function]bool
	heapU map[*ssa.Function][]heapUse
}

type missing struct {
	props []string
	why   string
}

var repoDir = envOr("VCG_REPO", "/repo")

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// contractFiles maps the virtual files inside /repo to the files under dir.
func contractFiles(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if strings.HasPrefix(rel, "inpkg/") {
			out[filepath.Join(repoDir, strings.TrimPrefix(rel, "inpkg/"))] = p
		} else {
			out[filepath.Join(repoDir, "zzverif", rel)] = p
		}
		return nil
	})
	return out
}

func loadWorld(contractsDir string) (*World, error) {
	w := &World{refTypes: map[types.Object]bool{}, contracts: map[string]*Contract{}, clients: map[*ssa.Function]bool{},
		loops: map[*ssa.Function]*loopInfo{}, rec: map[*ssa.Function]bool{}, nm: map[*ssa.Function]bool{}, heapU: map[*ssa.Function][]heapUse{}}
	w.overlay = contractFiles(contractsDir)
	ov := map[string][]byte{}
	dirs := map[string]bool{}
	for v, r := range w.overlay {
		b, err := os.ReadFile(r)
		if err != nil {
			return nil, err
		}
		ov[v] = b
		rel, _ := filepath.Rel(repoDir, filepath.Dir(v))
		dirs["./"+rel] = true
	}
	var pats []string
	for d := range dirs {
		pats = append(pats, d)
	}
	pats = append(pats, "./...")
	sort.Strings(pats)
	os.Setenv("PATH", "/usr/lib/go-1.22/bin:/usr/bin:/bin:/usr/local/bin")
	env := []string{}
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "GOFLAGS=") && !strings.HasPrefix(e, "GOTOOLCHAIN=") && !strings.HasPrefix(e, "GOROOT=") {
			env = append(env, e)
		}
	}
	env = append(env, "GOFLAGS=-mod=readonly -buildvcs=false", "GOPROXY=off", "GOTOOLCHAIN=local")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo,
		Dir:  repoDir, Overlay: ov, Env: env,
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	w.prog = prog
	w.pkgs = ps
	for _, p := range prog.AllPackages() {
		if strings.HasPrefix(p.Pkg.Path(), modPath) {
			p.Build()
			w.spkgs = append(w.spkgs, p)
		}
	}
	sort.Slice(w.spkgs, func(i, j int) bool { return w.spkgs[i].Pkg.Path() < w.spkgs[j].Pkg.Path() })
	w.findRefTypes()
	return w, w.findContracts()
}

// findRefTypes: structs whose pointers are stored inside slices or other structs live
// in a field-indexed heap; all other structs are separate objects.
func (w *World) findRefTypes() {
	mark := func(t types.Type) {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			if n := namedStruct(p.Elem()); n != nil && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) && scalarOnly(n, map[types.Type]bool{}) {
				w.refTypes[n.Origin().Obj()] = true
			}
		}
	}
	seen := map[types.Type]bool{}
	var visit func(t types.Type)
	visit = func(t types.Type) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch u := t.(type) {
		case *types.Alias:
			visit(types.Unalias(u))
			return
		case *types.Named:
			if u.Obj().Pkg() == nil || !strings.HasPrefix(u.Obj().Pkg().Path(), modPath) {
				return
			}
			visit(u.Underlying())
			// recursive fields
			if st, ok := u.Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					ft := st.Field(i).Type()
					if p, ok := ft.Underlying().(*types.Pointer); ok {
						if fn := namedStruct(p.Elem()); fn != nil && fn.Origin() == u.Origin() {
							mark(ft)
						}
					}
				}
			}
		case *types.Pointer:
			visit(u.Elem())
		case *types.Slice:
			mark(u.Elem())
			visit(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				visit(u.Field(i).Type())
			}
		case *types.Signature:
			for i := 0; i < u.Params().Len(); i++ {
				visit(u.Params().At(i).Type())
			}
			for i := 0; i < u.Results().Len(); i++ {
				visit(u.Results().At(i).Type())
			}
		}
	}
	for fn := range ssautil.AllFunctions(w.prog) {
		if !strings.HasPrefix(fnPkg(fn), modPath) {
			continue
		}
		visit(fn.Signature)
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if v, ok := ins.(ssa.Value); ok {
					visit(v.Type())
				}
			}
		}
	}
}

func scalarOnly(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return true
	}
	seen[t] = true
	if isTime(t) {
		return true
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if !scalarOnly(st.Field(i).Type(), seen) {
				return false
			}
		}
		return true
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return namedStruct(p.Elem()) != nil
	}
	return scalarSort(t) != nil
}

func (w *World) isRef(n *types.Named) bool { return w.refTypes[n.Origin().Obj()] }

func docOf(fn *ssa.Function) string {
	if d, ok := fn.Syntax().(*ast.FuncDecl); ok && d.Doc != nil {
		var s []string
		for _, c := range d.Doc.List {
			s = append(s, c.Text)
		}
		return strings.Join(s, "\n")
	}
	return ""
}

func directives(fn *ssa.Function) map[string]string {
	out := map[string]string{}
	for _, l := range strings.Split(docOf(fn), "\n") {
		l = strings.TrimSpace(strings.TrimPrefix(l, "//"))
		if strings.HasPrefix(l, "vcg:") {
			l = strings.TrimPrefix(l, "vcg:")
			k, v, _ := strings.Cut(l, " ")
			out[k] = strings.TrimSpace(v)
		}
	}
	return out
}

func (w *World) fileOf(fn *ssa.Function) string {
	f := fn
	if o := fn.Origin(); o != nil {
		f = o
	}
	return w.prog.Fset.Position(f.Pos()).Filename
}

func constStr(p *ssa.Package, name string) string {
	if m, ok := p.Members[name].(*ssa.NamedConst); ok {
		return constant.StringVal(m.Value.Value)
	}
	return ""
}

func boolOp(b *ssa.BinOp) (l, r ssa.Value, ok bool) {
	return b.X, b.Y, types.Identical(b.Type().Underlying(), types.Typ[types.Bool])
}

// findFacts collects the functions fact_<Function>_<tag> of the specification packages.
func (w *World) findFacts() error {
	w.facts = map[*ssa.Function][]*fact{}
	seen := map[*types.Package]bool{}
	var order []*ssa.Package
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, i := range p.Imports() {
			visit(i)
		}
		if strings.HasPrefix(p.Path(), specPath) {
			if sp := w.pkgByPath(p.Path()); sp != nil {
				order = append(order, sp)
			}
		}
	}
	for _, p := range w.spkgs {
		visit(p.Pkg)
	}
	n := 0
	for _, p := range order {
		var fs []*ssa.Function
		for name, m := range p.Members {
			if f, ok := m.(*ssa.Function); ok && isFact(name) {
				fs = append(fs, f)
			}
		}
		sort.Slice(fs, func(i, j int) bool {
			a, b := w.prog.Fset.Position(fs[i].Pos()), w.prog.Fset.Position(fs[j].Pos())
			if a.Filename != b.Filename {
				return a.Filename < b.Filename
			}
			return a.Line < b.Line
		})
		for _, f := range fs {
			parts := strings.Split(f.Name(), "_")
			about, _ := p.Members[parts[1]].(*ssa.Function)
			if about == nil {
				return fmt.Errorf("%s: no function %s", f, parts[1])
			}
			if f.Signature.Params().Len() != about.Signature.Params().Len() {
				return fmt.Errorf("%s: parameters differ from %s", f, parts[1])
			}
			n++
			ct := &Contract{name: strings.TrimPrefix(p.Pkg.Path(), modPath+"/zzverif/") + "." + f.Name(), target: f, key: f.String(), post: f, client: true, pkg: p, flags: directives(f)}
			ft := &fact{fn: f, about: about, index: n, ct: ct}
			ct.fact = ft
			if _, manual := ct.flags["manual"]; !manual {
				w.facts[about] = append(w.facts[about], ft)
			}
			w.contracts[ct.key] = ct
			w.all = append(w.all, ct)
		}
	}
	return nil
}

func (w *World) findContracts() error {
	if err := w.findFacts(); err != nil {
		return err
	}
	for _, p := range w.spkgs {
		ext := strings.HasPrefix(p.Pkg.Path(), specPath)
		if p.Pkg.Path() == specPath+"/spec" {
			continue
		}
		fns := map[string]*ssa.Function{}
		for n, m := range p.Members {
			f, ok := m.(*ssa.Function)
			if !ok || f.Synthetic != "" {
				continue
			}
			if ext || strings.HasPrefix(filepath.Base(w.fileOf(f)), "zz_verif") {
				fns[n] = f
			}
		}
		target := constStr(p, "Target")
		tp := p
		if ext && target != "" {
			tp = w.pkgByPath(modPath + "/" + target)
			if tp == nil {
				return fmt.Errorf("%s: no target package %s", p.Pkg.Path(), target)
			}
		}
		defProps := constStr(p, "Props")
		if !ext {
			defProps = constStr(p, "VerifProps")
		}
		var names []string
		for n := range fns {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			var base string
			var c *Contract
			if strings.HasPrefix(n, "client_") && !isAux(n) {
				base = n
				c = &Contract{name: strings.TrimPrefix(p.Pkg.Path(), modPath+"/") + "." + n, target: fns[n], client: true}
				w.clients[fns[n]] = true
				for _, a := range fns[n].AnonFuncs {
					w.clients[a] = true
				}
			} else if strings.HasSuffix(n, "_post") && !strings.HasPrefix(n, "client_") {
				base = strings.TrimSuffix(n, "_post")
				t := w.resolve(tp, base)
				if t == nil {
					// a removed function: an exported one is a violation, an internal
					// one is simply no longer there (callers are executed in line)
					ps := defProps
					if s, ok := directives(fns[n])["props"]; ok {
						ps = s
					}
					last := base[strings.LastIndex(base, "_")+1:]
					if ast.IsExported(last) && ast.IsExported(base) {
						w.missing = append(w.missing, missing{strings.Split(ps, ","), fmt.Sprintf("%s: the function %s under contract no longer exists", tp.Pkg.Path(), base)})
					}
					continue
				}
				c = &Contract{name: short(t.String()), target: t}
			} else {
				continue
			}
			c.key = c.target.String()
			c.pkg = p
			c.inPkg = !ext
			c.pre = fns[base+"_pre"]
			c.post = fns[base+"_post"]
			c.gen = fns[base+"_gen"] != nil
			if c.use = fns[base+"_use"]; c.use != nil {
				for _, b := range c.use.Blocks {
					for _, ins := range b.Instrs {
						switch i := ins.(type) {
						case *ssa.BinOp:
							if _, _, ok := boolOp(i); !ok {
								continue
							}
							return fmt.Errorf("%s: only lemmas may be combined", c.use)
						case *ssa.Call:
							if _, ok := i.Call.Value.(*ssa.Builtin); ok {
								continue
							}
							f := i.Call.StaticCallee()
							if f == nil || !isFact(f.Name()) && types.Identical(f.Signature.Results().At(0).Type(), types.Typ[types.Bool]) {
								return fmt.Errorf("%s: only lemmas may be used", c.use)
							}
						}
					}
				}
			}
			for _, m := range names {
				if strings.HasPrefix(m, base+"_inv") {
					c.invs = append(c.invs, fns[m])
				} else if strings.HasPrefix(m, base+"_seq") {
					c.seqs = append(c.seqs, fns[m])
				} else if strings.HasPrefix(m, base+"_acc") {
					c.accs = append(c.accs, fns[m])
				}
			}
			c.flags = map[string]string{}
			for _, f := range []*ssa.Function{c.pre, c.post, c.target} {
				if f != nil && (f != c.target || c.client) {
					for k, v := range directives(f) {
						c.flags[k] = v
					}
				}
			}
			ps := defProps
			if s, ok := c.flags["props"]; ok {
				ps = s
			}
			for _, s := range strings.Split(ps, ",") {
				if s = strings.TrimSpace(s); s != "" {
					c.props = append(c.props, s)
				}
			}
			if c.post == nil {
				return fmt.Errorf("%s: no postcondition", c.name)
			}
			w.all = append(w.all, c)
			if !c.client {
				if o := w.contracts[c.key]; o != nil {
					return fmt.Errorf("two contracts for %s", c.key)
				}
				w.contracts[c.key] = c
			}
		}
	}
	w.findComposites()
	return nil
}

func isAux(n string) bool {
	for _, s := range []string{"_pre", "_post", "_gen", "_use"} {
		if strings.HasSuffix(n, s) {
			return true
		}
	}
	for _, s := range []string{"_inv", "_seq", "_acc"} {
		if i := strings.LastIndex(n, s); i > 0 {
			rest := n[i+4:]
			ok := true
			for _, r := range rest {
				if r < '0' || r > '9' {
					ok = false
				}
			}
			if ok {
				return true
			}
		}
	}
	return false
}

func (w *World) pkgByPath(path string) *ssa.Package {
	for _, p := range w.spkgs {
		if p.Pkg.Path() == path {
			return p
		}
	}
	return nil
}

func (w *World) resolve(p *ssa.Package, name string) *ssa.Function {
	if f, ok := p.Members[name].(*ssa.Function); ok {
		return f
	}
	i := strings.Index(name, "_")
	if i <= 0 {
		return nil
	}
	tn, mn := name[:i], name[i+1:]
	t, ok := p.Members[tn].(*ssa.Type)
	if !ok {
		return nil
	}
	for _, ty := range []types.Type{types.NewPointer(t.Type()), t.Type()} {
		ms := w.prog.MethodSets.MethodSet(ty)
		for j := 0; j < ms.Len(); j++ {
			if ms.At(j).Obj().Name() == mn {
				f := w.prog.FuncValue(ms.At(j).Obj().(*types.Func))
				return f
			}
		}
	}
	return nil
}

func (w *World) loopsOf(fn *ssa.Function) *loopInfo {
	w.mu.Lock()
	defer w.mu.Unlock()
	if l, ok := w.loops[fn]; ok {
		return l
	}
	l := computeLoops(fn)
	w.loops[fn] = l
	return l
}

// recursive: does fn (a specification function) call itself directly?
func (w *World) recursive(fn *ssa.Function) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	if r, ok := w.rec[fn]; ok {
		return r
	}
	r := false
	var scan func(f *ssa.Function)
	scan = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					if c.Common().StaticCallee() == fn {
						r = true
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			scan(a)
		}
	}
	scan(fn)
	w.rec[fn] = r
	return r
}

func (w *World) named(fn *ssa.Function) bool {
	w.mu.Lock()
	if r, ok := w.nm[fn]; ok {
		w.mu.Unlock()
		return r
	}
	w.mu.Unlock()
	_, ok := directives(fn)["named"]
	if !ok {
		_, ok = directives(fn)["opaque"]
	}
	r := ok || w.recursive(fn)
	w.mu.Lock()
	w.nm[fn] = r
	w.mu.Unlock()
	return r
}

func (w *World) heapUses(fn *ssa.Function) []heapUse {
	w.mu.Lock()
	if r, ok := w.heapU[fn]; ok {
		w.mu.Unlock()
		return r
	}
	w.mu.Unlock()
	set := map[string]*Sort{}
	seen := map[*ssa.Function]bool{}
	var scan func(f *ssa.Function)
	scan = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch t := ins.(type) {
				case *ssa.FieldAddr:
					n := namedStruct(t.X.Type().Underlying().(*types.Pointer).Elem())
					if n != nil && w.isRef(n) {
						for _, l := range leaves(n) {
							if l.path[0] == t.Field {
								set[heapKey(n, l.path)] = l.sort
							}
						}
					}
				case ssa.CallInstruction:
					if c := t.Common().StaticCallee(); c != nil && strings.HasPrefix(fnPkg(c), modPath) {
						scan(c)
					}
				}
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && strings.HasPrefix(fnPkg(g), modPath) {
						scan(g)
					}
				}
			}
		}
	}
	scan(fn)
	var out []heapUse
	for _, k := range sortedKeys(set) {
		out = append(out, heapUse{k, set[k]})
	}
	w.mu.Lock()
	w.heapU[fn] = out
	w.mu.Unlock()
	return out
}
