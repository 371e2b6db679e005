package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func goEnv() []string {
	env := os.Environ()
	env = append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GONOSUMDB=*", "GOSUMDB=off", "CGO_ENABLED=0")
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	return env
}

type loaded struct {
	eng *Engine
	ov  *Overlay
	fns map[string]*ssa.Function
}

// load builds SSA for the repository with the overlay; harness files that do
// not type-check against the current tree are excluded one by one.
func load(repo, verif, tags string, only func(*Harness) bool) (*loaded, error) {
	exclude := map[string]string{}
	for try := 0; ; try++ {
		ov, err := buildOverlay(repo, verif, exclude, only)
		if err != nil {
			return nil, err
		}
		cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedEmbedFiles, Dir: repo, Env: goEnv(), Overlay: ov.files}
		cfg.BuildFlags = []string{"-mod=mod"}
		if tags != "" {
			cfg.BuildFlags = append(cfg.BuildFlags, "-tags="+tags)
		}
		ps, err := packages.Load(cfg, modPath+"/zzreplay")
		if err != nil {
			return nil, err
		}
		bad := 0
		var other []string
		packages.Visit(ps, nil, func(p *packages.Package) {
			if !strings.HasPrefix(p.PkgPath, modPath) {
				return
			}
			for _, e := range p.Errors {
				f := e.Pos
				if i := strings.Index(f, ":"); i >= 0 {
					f = f[:i]
				}
				b := filepath.Base(f)
				rel, _ := filepath.Rel(repo, f)
				if strings.HasPrefix(b, "zz_") && b != "zz_register.go" {
					if _, ok := exclude[rel]; !ok {
						exclude[rel] = e.Msg
						bad++
					}
				} else if b != "zz_register.go" {
					other = append(other, e.Error())
				}
			}
		})
		if bad > 0 && try < 20 {
			continue
		}
		if len(other) > 0 {
			return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(other, "; "))
		}
		prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
		prog.Build()
		embeds := map[string][]string{}
		packages.Visit(ps, nil, func(p *packages.Package) {
			if strings.HasPrefix(p.PkgPath, modPath) && len(p.EmbedFiles) > 0 {
				embeds[p.PkgPath] = p.EmbedFiles
			}
		})
		eng, err := newEngine(prog, repo, embeds)
		if err != nil {
			return nil, err
		}
		ld := &loaded{eng: eng, ov: ov, fns: map[string]*ssa.Function{}}
		for _, h := range ov.harnesses {
			pkg := prog.ImportedPackage(h.Pkg)
			if pkg == nil {
				continue
			}
			if f := pkg.Func(h.Name); f != nil {
				ld.fns[h.Pkg+"."+h.Name] = f
			}
		}
		return ld, nil
	}
}

var initDeny = []string{"runtime", "reflect", "crypto", "net/http", "encoding/gob", "encoding/json", "encoding/xml", "html", "text/template", "compress",
	"go.uber.org/", "github.com/kkyr", "gopkg.in", "github.com/lib", "github.com/pelletier", "github.com/mitchellh", "mime", "vendor/", "log", "testing", "internal/godebug", "internal/cpu", "internal/poll", "internal/runtime", "internal/syscall", "math/big", "math/rand", "hash", "regexp", "encoding/asn1", "github.com/go-torrent", "net/textproto", "go/", "internal/bisect", "internal/reflectlite", "internal/abi", "unicode"}

func denied(p string) bool {
	for _, d := range initDeny {
		if p == d || strings.HasPrefix(p, d+"/") || strings.HasSuffix(d, "/") && strings.HasPrefix(p, d) || strings.HasPrefix(p, d) && strings.Contains(d, ".") {
			return !(p == "unicode/utf8")
		}
	}
	return false
}

func newEngine(prog *ssa.Program, repo string, embeds map[string][]string) (*Engine, error) {
	e := &Engine{prog: prog, globals: map[*ssa.Global]int{}, uniq: map[string]int{}, redirects: map[string]*ssa.Function{}, inited: map[*ssa.Package]bool{}, repoPath: repo}
	e.verbose = os.Getenv("GOSYM_TRACE") == "2"
	e.shimPkg = prog.ImportedPackage(modPath + "/zzvnd")
	if e.shimPkg == nil {
		return nil, fmt.Errorf("harness library missing")
	}
	e.rtErr = e.shimPkg.Type("RuntimeError").Type()
	for std, shim := range shimTable {
		f := e.shimPkg.Func(shim)
		if f == nil {
			return nil, fmt.Errorf("shim %s missing", shim)
		}
		e.redirects[std] = f
	}
	st := emptyState()
	m := &Machine{eng: e, st: st, nbase: 0, initMode: true}
	m.run = &Run{start: time.Now(), eng: e, notes: map[string]int{}, fails: map[string][]*Failure{}, lim: Limits{MaxSteps: 1 << 40, MaxSpins: 1 << 40, TimeMs: 1 << 40, MaxConc: 1 << 20, MaxDepth: 1 << 30}}
	for _, p := range prog.AllPackages() {
		for _, mem := range p.Members {
			if g, ok := mem.(*ssa.Global); ok {
				t := g.Type().Underlying().(*types.Pointer).Elem()
				var v Value
				func() {
					defer func() {
						if r := recover(); r != nil {
							v = Poison{fmt.Sprint(r)}
						}
					}()
					v = zero(t)
				}()
				if fs := embeds[p.Pkg.Path()]; fs != nil && t.String() == "embed.FS" {
					v = m.embedFS(filepath.Join(repo, strings.TrimPrefix(p.Pkg.Path(), modPath)), fs, t)
				}
				e.globals[g] = m.alloc(v, t).obj
			}
		}
	}
	main := prog.ImportedPackage(modPath + "/zzreplay")
	if main == nil {
		for _, p := range prog.AllPackages() {
			if p.Pkg.Path() == modPath+"/zzreplay" {
				main = p
			}
		}
	}
	if main == nil {
		return nil, fmt.Errorf("replay package missing")
	}
	g := &Gor{id: 0, vc: VC{0: 1}}
	st.gs = []*Gor{g}
	m.g = g
	m.pushFrame(&Closure{fn: main.Func("init")}, nil, fkRoot, nil)
	if err := m.runInit(); err != nil {
		return nil, err
	}
	e.base = st.objs
	return e, nil
}

// embedFS is the value the compiler gives an embed.FS variable.
func (m *Machine) embedFS(dir string, files []string, t types.Type) Value {
	data := map[string]string{}
	for _, f := range files {
		rel, err := filepath.Rel(dir, f)
		if err != nil || strings.HasPrefix(rel, "..") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			panic(engErr{err.Error()})
		}
		data[rel] = string(b)
		for d := filepath.Dir(rel); d != "."; d = filepath.Dir(d) {
			data[d+"/"] = ""
		}
	}
	var names []string
	for n := range data {
		names = append(names, n)
	}
	key := func(n string) (string, string) {
		n = strings.TrimSuffix(n, "/")
		return filepath.Dir(n), filepath.Base(n)
	}
	sort.Slice(names, func(i, j int) bool {
		a, b := key(names[i])
		c, d := key(names[j])
		return a < c || a == c && b < d
	})
	pt := t.Underlying().(*types.Struct).Field(0).Type().Underlying().(*types.Pointer) // *[]file
	ft := pt.Elem().Underlying().(*types.Slice).Elem()
	var es []Value
	for _, n := range names {
		v := zero(ft).(*Agg)
		v.elems[0], v.elems[1] = cstr(n), cstr(data[n])
		es = append(es, v)
	}
	sl := m.newSlice(es, ft)
	return &Agg{elems: []Value{m.alloc(sl, pt.Elem())}}
}

// runInit executes package initialisers concretely. An initialiser statement
// the engine cannot execute yields a poisoned value: any later use of it ends
// that path as unsupported.
func (m *Machine) runInit() error {
	trace := os.Getenv("GOSYM_INIT") != ""
	for m.g.status != gDone {
		err := m.initSlice()
		if err == "" {
			continue
		}
		if trace {
			fmt.Fprintln(os.Stderr, "init:", err)
		}
		// unwind to the innermost package initialiser
		k := len(m.g.frames) - 1
		for k >= 0 && m.g.frames[k].fi.fn.Synthetic != "package initializer" {
			k--
		}
		if k < 0 {
			return fmt.Errorf("initialisation failed: %s", err)
		}
		m.g.frames = m.g.frames[:k+1]
		m.g.panics = nil
		m.g.status = gRun
		fr := m.own()
		in := fr.block.Instrs[fr.ip]
		po := Poison{"initialiser failed: " + err}
		switch x := in.(type) {
		case *ssa.Store:
			func() {
				defer func() { recover() }()
				if p, ok := m.val(fr, x.Addr).(*Ptr); ok && p != nil {
					m.storeRaw(p, po)
				}
			}()
			fr.ip++
		case *ssa.If, *ssa.Jump, *ssa.Return:
			return fmt.Errorf("initialisation failed: %s", err)
		default:
			if v, ok := in.(ssa.Value); ok {
				fr.regs[fr.fi.idx[v]] = po
			}
			fr.ip++
		}
	}
	return nil
}

func (m *Machine) initSlice() (err string) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case engErr:
				err = x.msg
			case pathEnd:
				err = "path ended: " + x.why
			default:
				if os.Getenv("GOSYM_PANIC") != "" {
					panic(r)
				}
				err = fmt.Sprintf("engine panic: %v%s", r, m.where())
			}
		}
	}()
	n := 0
	for m.g.status == gRun {
		fr := m.frame()
		if c, ok := fr.block.Instrs[fr.ip].(*ssa.Call); ok && fr.fi.fn.Synthetic == "package initializer" && denied(fr.fi.fn.Pkg.Pkg.Path()) {
			// of these packages, only constant data and plain errors are
			// initialised; other initial values are poisoned
			f, _ := c.Call.Value.(*ssa.Function)
			switch {
			case f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "errors" && f.Name() == "New":
			case f != nil && f.Name() == "init" && f.Synthetic == "package initializer" && f.Pkg != fr.fi.fn.Pkg:
			default:
				fr = m.own()
				fr.regs[fr.fi.idx[c]] = Poison{"initialiser not run" + m.at(c)}
				fr.ip++
				continue
			}
		}
		m.step()
		n++
		if n > 200_000_000 {
			return "too long"
		}
	}
	if m.g.status == gBlocked {
		return "blocked: " + m.g.why
	}
	return ""
}

var _ = atomic.AddInt64
var _ = json.Marshal
