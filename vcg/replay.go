package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Failure mirrors spec.Failure.
type Failure struct {
	Contract string   `json:"contract"`
	Reason   string   `json:"reason"`
	Args     []string `json:"args"`
	Results  []string `json:"results,omitempty"`
}

type replayOut struct {
	Failures []*Failure     `json:"failures"`
	Used     map[string]int `json:"used"`
	Log      string         `json:"-"`
}

// goExpr: the expression naming the target inside the contract package.
func (w *World) goExpr(ct *Contract, imp string) (string, bool) {
	fn := ct.target
	if ct.client {
		return fn.Name(), true
	}
	q := ""
	if !ct.inPkg {
		q = imp + "."
	}
	name := fn.Name()
	if o := fn.Origin(); o != nil {
		return "", false
	}
	if rv := fn.Signature.Recv(); rv != nil {
		t := rv.Type()
		if p, ok := t.(*types.Pointer); ok {
			n := p.Elem().(*types.Named)
			if n.TypeParams().Len() > 0 {
				return "", false
			}
			return "(*" + q + n.Obj().Name() + ")." + name, true
		}
		return q + t.(*types.Named).Obj().Name() + "." + name, true
	}
	return q + name, true
}

// replay executes the contracts against the real code on generated inputs.
func (w *World) replay(cts []*Contract, seed int64, n int, budget time.Duration) (*replayOut, error) {
	dir, err := os.MkdirTemp("", "vcgreplay")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	byPkg := map[*ssa.Package][]*Contract{}
	var runnable []*Contract
	for _, c := range cts {
		if c.fact == nil {
			runnable = append(runnable, c)
		}
	}
	cts = runnable
	var pkgs []*ssa.Package
	for _, c := range cts {
		if byPkg[c.pkg] == nil {
			pkgs = append(pkgs, c.pkg)
		}
		byPkg[c.pkg] = append(byPkg[c.pkg], c)
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].Pkg.Path() < pkgs[j].Pkg.Path() })
	ov := map[string]string{}
	for v, r := range w.overlay {
		ov[v] = r
	}
	var mainB, mainC strings.Builder
	shims := map[*ssa.Package]string{}
	nshim := 0
	for i, p := range pkgs {
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\nimport (\n\tzzspec \"%s/spec\"\n", p.Pkg.Name(), specPath)
		target := constStr(p, "Target")
		useT := false
		var body strings.Builder
		for _, c := range byPkg[p] {
			e, ok := w.goExpr(c, "zztarget")
			if !ok {
				continue
			}
			if fn := c.target; !c.client && !c.inPkg && fn.Object() != nil && !fn.Object().Exported() {
				// reached through an exported variable added next to it
				l, _ := w.goExpr(&Contract{target: fn, inPkg: true}, "")
				v := fmt.Sprintf("ZZShim%d", nshim)
				nshim++
				shims[fn.Pkg] += fmt.Sprintf("var %s = %s\n", v, l)
				e = "zztarget." + v
			}
			if strings.Contains(e, "zztarget.") {
				useT = true
			}
			nm := func(f *ssa.Function) string {
				if f == nil {
					return "nil"
				}
				return f.Name()
			}
			gen := "nil"
			if c.gen {
				gen = strings.TrimSuffix(c.post.Name(), "_post") + "_gen"
			}
			fmt.Fprintf(&body, "\t\t{Name: %q, Target: %s, Pre: %s, Post: %s, Gen: %s},\n", c.name, e, nm(c.pre), nm(c.post), gen)
		}
		if useT {
			fmt.Fprintf(&b, "\tzztarget \"%s/%s\"\n", modPath, target)
		}
		fmt.Fprintf(&b, ")\n\nfunc ZZReplay() []zzspec.Case {\n\treturn []zzspec.Case{\n%s\t}\n}\n", body.String())
		rel := strings.TrimPrefix(p.Pkg.Path(), modPath+"/")
		real := filepath.Join(dir, fmt.Sprintf("p%d.go", i))
		if err := os.WriteFile(real, []byte(b.String()), 0o644); err != nil {
			return nil, err
		}
		ov[filepath.Join(repoDir, rel, "zz_replay_gen.go")] = real
		fmt.Fprintf(&mainB, "\tp%d %q\n", i, p.Pkg.Path())
		fmt.Fprintf(&mainC, "\tcs = append(cs, p%d.ZZReplay()...)\n", i)
	}
	for p, t := range shims {
		real := filepath.Join(dir, fmt.Sprintf("shim%d.go", len(ov)))
		if err := os.WriteFile(real, []byte("package "+p.Pkg.Name()+"\n\n"+t), 0o644); err != nil {
			return nil, err
		}
		ov[filepath.Join(repoDir, strings.TrimPrefix(p.Pkg.Path(), modPath+"/"), "zz_shim_gen.go")] = real
	}
	mn := fmt.Sprintf(`package main

import (
	"encoding/json"
	"os"
	"strconv"
	"sync"
	"time"
	"%s/spec"
%s)

type out struct {
	Failures []*spec.Failure `+"`json:\"failures\"`"+`
	Used map[string]int `+"`json:\"used\"`"+`
}

func main() {
	var cs []spec.Case
%s	seed, _ := strconv.ParseInt(os.Args[1], 10, 64)
	n, _ := strconv.Atoi(os.Args[2])
	ms, _ := strconv.Atoi(os.Args[3])
	o := out{Used: map[string]int{}}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, c := range cs {
		c := c
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			f, used := spec.Replay(c, seed, n, time.Duration(ms)*time.Millisecond)
			mu.Lock()
			defer mu.Unlock()
			o.Used[c.Name] = used
			if f != nil {
				o.Failures = append(o.Failures, f)
			}
		}()
	}
	wg.Wait()
	b, err := json.Marshal(o)
	if err != nil {
		panic(err)
	}
	os.WriteFile(os.Args[4], b, 0o644)
	os.Exit(0)
}
`, specPath, mainB.String(), mainC.String())
	real := filepath.Join(dir, "main.go")
	if err := os.WriteFile(real, []byte(mn), 0o644); err != nil {
		return nil, err
	}
	ov[filepath.Join(repoDir, "zzverif/zzreplay/main.go")] = real
	oj, _ := json.Marshal(map[string]any{"Replace": ov})
	of := filepath.Join(dir, "overlay.json")
	os.WriteFile(of, oj, 0o644)
	bin := filepath.Join(dir, "replay.bin")
	cmd := exec.Command("go", "build", "-overlay", of, "-o", bin, "./zzverif/zzreplay")
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	if o, err := cmd.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("replay build: %v\n%s", err, o)
	}
	res := filepath.Join(dir, "out.json")
	run := exec.Command("timeout", fmt.Sprint(int(budget.Seconds())*((len(cts)+7)/8)+20), bin, fmt.Sprint(seed), fmt.Sprint(n), fmt.Sprint(budget.Milliseconds()), res)
	run.Dir = dir
	log, err := run.CombinedOutput()
	b, rerr := os.ReadFile(res)
	if rerr != nil {
		return nil, fmt.Errorf("replay run: %v\n%.4000s", err, log)
	}
	ro := &replayOut{}
	if err := json.Unmarshal(b, ro); err != nil {
		return nil, err
	}
	ro.Log = string(log)
	sort.Slice(ro.Failures, func(i, j int) bool { return ro.Failures[i].Contract < ro.Failures[j].Contract })
	return ro, nil
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "GOFLAGS=") && !strings.HasPrefix(e, "GOTOOLCHAIN=") && !strings.HasPrefix(e, "GOROOT=") && !strings.HasPrefix(e, "GOPROXY=") {
			env = append(env, e)
		}
	}
	return append(env, "GOFLAGS=-mod=readonly -buildvcs=false", "GOPROXY=off", "GOTOOLCHAIN=local")
}
