package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Specifications are Go files added to the packages by an overlay.

var specDirs = [][2]string{ // specs subdirectory, package directory
	{"egts", "libs/egts"},
	{"storage", "cli/receiver/storage"},
	{"server", "cli/receiver/server"},
	{"config", "cli/receiver/config"},
	{"gen", "cli/packet-gen"},
	{"receiver", "cli/receiver"},
	{"mysql", "cli/receiver/storage/store/mysql"},
	{"postgresql", "cli/receiver/storage/store/postgresql"},
	{"nats", "cli/receiver/storage/store/nats"},
	{"rabbitmq", "cli/receiver/storage/store/rabbitmq"},
	{"redis", "cli/receiver/storage/store/redis"},
	{"tarantool", "cli/receiver/storage/store/tarantool_queue"},
}

type specFn struct {
	opaque, ifSym bool
}

type Harness struct {
	fn         *ssa.Function
	name       string
	pkgDir     string
	props      []string
	reveal     []string
	inline     []string
	noNative   bool
	discharges []string // names of contracts this harness discharges
}

type Specs struct {
	funcs       map[*ssa.Function]*specFn
	contracts   map[*ssa.Function]*ssa.Function
	ifaceCon    map[string]*ssa.Function
	ifaceAlways map[string]bool
	monitor     map[*ssa.Function]bool // loops the code's later loops may run in step with
	goTarget    map[*ssa.Function]*ssa.Function
	harness     []*Harness
	byKey       map[string]*ssa.Function
	warn        []string
	initState   map[*ssa.Package]map[*ssa.Global]Value
	initBusy    map[*ssa.Package]bool
}

var specRoot = "/verif/specs"
var repoRoot = "/repo"

// overlayFiles lists the spec files for one package directory: target path -> content.
func overlayFiles(sub, dir string) (map[string][]byte, error) {
	res := map[string][]byte{}
	ents, err := os.ReadDir(filepath.Join(specRoot, sub))
	if err != nil {
		return res, nil
	}
	pkgName := ""
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(specRoot, sub, e.Name()))
		if err != nil {
			return nil, err
		}
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "package ") {
				pkgName = strings.TrimSpace(strings.TrimPrefix(l, "package "))
				break
			}
		}
		res[filepath.Join(repoRoot, dir, "zz_verif_"+e.Name())] = b
	}
	if pkgName != "" {
		rt, err := os.ReadFile(filepath.Join(specRoot, "rt.go.txt"))
		if err != nil {
			return nil, err
		}
		res[filepath.Join(repoRoot, dir, "zz_verif_rt.go")] = []byte(strings.Replace(string(rt), "package PKG", "package "+pkgName, 1))
	}
	return res, nil
}

func fnKey(fn *ssa.Function) string {
	s := fn.String()
	if fn.Pkg != nil {
		s = strings.ReplaceAll(s, fn.Pkg.Pkg.Path()+".", "")
	}
	return s
}

func loadSpecs(dirs []string) (*ssa.Program, *Specs, error) {
	overlay := map[string][]byte{}
	var pats []string
	want := map[string]bool{}
	for _, d := range dirs {
		want[d] = true
	}
	for _, sd := range specDirs {
		if !want[sd[0]] {
			continue
		}
		m, err := overlayFiles(sd[0], sd[1])
		if err != nil {
			return nil, nil, err
		}
		for k, v := range m {
			overlay[k] = v
		}
		pats = append(pats, "./"+sd[1])
	}
	bindFiles(overlay)
	pats = append(pats, "bytes", "encoding/binary", "strings", "io", "math/bits")
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: repoRoot, Overlay: overlay,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOSUMDB=off")}
	pk, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	for _, p := range pk {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, nil, fmt.Errorf("the code does not load with its contracts: %s", strings.Join(errs, "; "))
	}
	prog, pkgs := ssautil.Packages(pk, ssa.InstantiateGenerics)
	prog.Build()
	sp := &Specs{funcs: map[*ssa.Function]*specFn{}, contracts: map[*ssa.Function]*ssa.Function{}, ifaceCon: map[string]*ssa.Function{}, ifaceAlways: map[string]bool{}, monitor: map[*ssa.Function]bool{}, goTarget: map[*ssa.Function]*ssa.Function{}, byKey: map[string]*ssa.Function{}, initState: map[*ssa.Package]map[*ssa.Global]Value{}, initBusy: map[*ssa.Package]bool{}}
	for i, p := range pkgs {
		if p == nil || !repoPath(p.Pkg.Path()) {
			continue
		}
		local := map[string]*ssa.Function{}
		for fn := range ssautil.AllFunctions(prog) {
			if fn.Pkg == p && fn.Parent() == nil {
				local[fnKey(fn)] = fn
				sp.byKey[p.Pkg.Name()+"."+fnKey(fn)] = fn
			}
		}
		for _, m := range p.Members {
			if f, ok := m.(*ssa.Function); ok {
				local[fnKey(f)] = f
				sp.byKey[p.Pkg.Name()+"."+fnKey(f)] = f
			}
			if t, ok := m.(*ssa.Type); ok {
				for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					ms := prog.MethodSets.MethodSet(tt)
					for k := 0; k < ms.Len(); k++ {
						if f := prog.MethodValue(ms.At(k)); f != nil && f.Pkg == p {
							local[fnKey(f)] = f
							sp.byKey[p.Pkg.Name()+"."+fnKey(f)] = f
						}
					}
				}
			}
		}
		for _, file := range pk[i].Syntax {
			fname := prog.Fset.Position(file.Pos()).Filename
			if !strings.HasPrefix(filepath.Base(fname), "zz_verif_") {
				continue
			}
			for _, d := range file.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				key := fd.Name.Name
				if fd.Recv != nil && len(fd.Recv.List) == 1 {
					switch t := fd.Recv.List[0].Type.(type) {
					case *ast.StarExpr:
						if id, ok := t.X.(*ast.Ident); ok {
							key = "(*" + id.Name + ")." + key
						}
					case *ast.Ident:
						key = "(" + t.Name + ")." + key
					}
				}
				fn := local[key]
				if fn == nil {
					continue
				}
				for _, c := range fd.Doc.List {
					l := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
					if !strings.HasPrefix(l, "@") {
						continue
					}
					f := strings.Fields(strings.TrimSpace(l[1:]))
					if len(f) == 0 {
						continue
					}
					switch f[0] {
					case "opaque":
						sp.funcs[fn] = &specFn{opaque: true}
					case "opaque-if-symbolic":
						sp.funcs[fn] = &specFn{opaque: true, ifSym: true}
					case "monitor":
						sp.monitor[fn] = true
					case "contract":
						key := strings.Join(f[1:], " ")
						t := local[key]
						if t == nil {
							sp.warn = append(sp.warn, "no function "+key+" in "+p.Pkg.Name()+" for its contract")
							continue
						}
						if !sameParams(t, fn) {
							sp.warn = append(sp.warn, "the contract of "+key+" does not fit its signature")
							continue
						}
						sp.contracts[t] = fn
					case "icontract":
						sp.ifaceCon[f[1]] = fn
						if len(f) > 2 && f[2] == "always" {
							sp.ifaceAlways[f[1]] = true
						}
					case "gotarget":
						if t := local[strings.Join(f[1:], " ")]; t != nil {
							sp.goTarget[t] = fn
						}
					case "harness":
						h := &Harness{fn: fn, name: p.Pkg.Name() + "." + fn.Name(), pkgDir: filepath.Dir(fname)}
						for _, a := range f[1:] {
							kv := strings.SplitN(a, "=", 2)
							if len(kv) == 1 {
								if kv[0] == "nonative" {
									h.noNative = true
								}
								continue
							}
							vs := strings.Split(kv[1], ",")
							switch kv[0] {
							case "props":
								h.props = vs
							case "reveal":
								h.reveal = append(h.reveal, vs...)
							case "inline":
								h.inline = append(h.inline, vs...)
								for _, v := range vs {
									if t := local[v]; t != nil {
										h.discharges = append(h.discharges, strings.ReplaceAll(t.String(), "github.com/kuznetsovin/egts-protocol/", ""))
									}
								}
							}
						}
						sp.harness = append(sp.harness, h)
					}
				}
			}
		}
	}
	sort.Slice(sp.harness, func(i, j int) bool { return sp.harness[i].name < sp.harness[j].name })
	return prog, sp, nil
}

// globalInit evaluates the initialiser of a package-level variable.
func (sp *Specs) globalInit(x *Exec, g *ssa.Global) (Value, bool) {
	p := g.Pkg
	if p == nil || !repoPath(p.Pkg.Path()) {
		if g.Pkg != nil && g.Pkg.Pkg.Path() == "encoding/binary" {
			t := g.Type().(*types.Pointer).Elem()
			if _, ok := t.Underlying().(*types.Struct); ok {
				return x.zero(t), true
			}
		}
		return nil, false
	}
	m, ok := sp.initState[p]
	if !ok {
		if sp.initBusy[p] {
			return nil, false
		}
		sp.initBusy[p] = true
		m = x.runInit(p)
		sp.initState[p] = m
		sp.initBusy[p] = false
	}
	v, ok := m[g]
	return v, ok
}

// runInit executes the straight-line variable initialisation of a package.
func (x *Exec) runInit(p *ssa.Package) map[*ssa.Global]Value {
	res := map[*ssa.Global]Value{}
	fn := p.Func("init")
	if fn == nil {
		return res
	}
	st := x.newState()
	sinit, stack, disc := x.initMode, x.stack, x.discover
	x.initMode = true
	x.discover = 0
	defer func() { x.initMode, x.stack, x.discover = sinit, stack, disc }()
	gs := map[*ssa.Global]int{}
	for _, mem := range p.Members {
		if g, ok := mem.(*ssa.Global); ok {
			t := g.Type().(*types.Pointer).Elem()
			if isErr(t) {
				continue
			}
			o := x.newObj(t, false, g.String())
			func() {
				defer func() {
					if r := recover(); r != nil {
						st.heap[o.id] = VPoison{"global " + g.String()}
					}
				}()
				st.heap[o.id] = x.zero(t)
			}()
			gs[g] = o.id
		}
	}
	saved := map[*ssa.Global]int{}
	for g, id := range gs {
		if old, ok := x.globals[g]; ok {
			saved[g] = old
		}
		x.globals[g] = id
	}
	fr := &frame{fn: fn, fi: x.info(fn)}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(Unsupported); !ok {
							panic(r)
						}
						if v, ok := in.(ssa.Value); ok {
							st.regs[v] = VPoison{"initialiser"}
						}
						if s, ok := in.(*ssa.Store); ok {
							if g, ok := s.Addr.(*ssa.Global); ok {
								if id, ok := gs[g]; ok {
									st.heap[id] = VPoison{"initialiser of " + g.String()}
								}
							}
						}
					}
				}()
				switch in := in.(type) {
				case *ssa.If, *ssa.Jump, *ssa.Return:
				case *ssa.Call:
					if f := in.Call.StaticCallee(); f != nil && f.Name() == "init" && f.Pkg != p {
						return
					}
					outs := x.step(fr, st, in)
					if len(outs) > 0 {
						regs := st.regs
						*st = *outs[0].st
						for k, v := range regs {
							if _, ok := st.regs[k]; !ok {
								st.regs[k] = v
							}
						}
					}
				default:
					x.step(fr, st, in)
				}
			}()
		}
	}
	for g, id := range gs {
		res[g] = st.heap[id]
		// objects reachable from globals stay available
		if old, ok := saved[g]; ok {
			x.globals[g] = old
		} else {
			delete(x.globals, g)
		}
	}
	for id, v := range st.heap {
		if o := x.objs[id]; o != nil && o.lazy == nil && id != x.traceObj && id != x.clockObj && id != x.flagObj {
			o.lazy = v
			o.global = true
		}
	}
	return res
}
