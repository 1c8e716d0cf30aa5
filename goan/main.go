// goan decides the properties of the Go command line tool from its SSA form.
// usage: goan REPO PROPERTY — prints one JSON object with the obligations.
package main

import (
	"encoding/json"
	"fmt"
	"go/build"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Ob struct {
	Key    string `json:"key"`
	OK     bool   `json:"ok"`
	Where  string `json:"where"`
	Msg    string `json:"msg"`
	Sample string `json:"sample"`
}

type Report struct {
	Obs    []Ob           `json:"obligations"`
	Counts map[string]int `json:"counts"`
	seen   map[string]bool
	prefix string
}

func (r *Report) add(key string, ok bool, where, msg, sample string) {
	key = r.prefix + key
	k := fmt.Sprint(key, ok, where, msg)
	if ok {
		k = key
	}
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.Obs = append(r.Obs, Ob{key, ok, where, msg, sample})
}
func (r *Report) ok(key, sample string)       { r.add(key, true, "", "", sample) }
func (r *Report) fail(key, where, msg string) { r.add(key, false, where, msg, "") }
func (r *Report) count(name string, n int)    { r.Counts[name] += n }
func (r *Report) need(c bool, key, where, msg, sample string) {
	if c {
		r.ok(key, sample)
	} else {
		r.fail(key, where, msg)
	}
}

type World struct {
	goos  string
	prog  *ssa.Program
	pkgs  []*ssa.Package
	repo  func(*ssa.Package) bool
	cli   *ssa.Package
	grayc *ssa.Package
	rep   *Report
}

// load builds the program. The code for another system is obtained by giving runtime.GOOS its value there.
func load(repo, goos string) *World {
	overlay := map[string][]byte{}
	if goos != "linux" {
		f := filepath.Join(build.Default.GOROOT, "src/internal/goos/zgoos_linux.go")
		if out, err := exec.Command("go", "env", "GOROOT").Output(); err == nil {
			f = filepath.Join(strings.TrimSpace(string(out)), "src/internal/goos/zgoos_linux.go")
		}
		b, err := os.ReadFile(f)
		if err != nil {
			fatal("loading: %v", err)
		}
		n := strings.Replace(string(b), "const GOOS = `linux`", "const GOOS = `"+goos+"`", 1)
		if n == string(b) {
			fatal("loading: the system's name is not set in %s", f)
		}
		overlay[f] = []byte(n)
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Tests: false, Overlay: overlay,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "CGO_ENABLED=0", "GOOS=linux")}
	pk, err := packages.Load(cfg, "./cli", "./internal/...")
	if err != nil {
		fatal("loading: %v", err)
	}
	for _, p := range pk {
		for _, e := range p.Errors {
			fatal("type error in %s: %v", p.PkgPath, e)
		}
	}
	prog, spk := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{goos: goos, prog: prog, pkgs: spk, rep: &Report{Counts: map[string]int{}, seen: map[string]bool{}}}
	own := map[*ssa.Package]bool{}
	for _, p := range spk {
		own[p] = true
		if p.Pkg.Name() == "main" {
			w.cli = p
		}
		if p.Pkg.Name() == "grayc" {
			w.grayc = p
		}
	}
	w.repo = func(p *ssa.Package) bool { return own[p] }
	if w.cli == nil || w.grayc == nil {
		fatal("anchor unresolved: the command line package or the compiler driver package")
	}
	return w
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(3)
}

// Command is one cobra command found in the package's initialisers.
type Command struct {
	Use  string
	Name string
	Run  *ssa.Function
	Err  bool
}

// commands finds the functions stored into Run/RunE of the command values.
func (w *World) commands() map[string]Command {
	use := map[ssa.Value]string{}
	run := map[ssa.Value]*ssa.Function{}
	var fns []*ssa.Function
	for _, m := range w.cli.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(f.Name(), "init") {
			fns = append(fns, f)
		}
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !strings.HasSuffix(fa.X.Type().String(), "cobra.Command") {
					continue
				}
				switch fieldName(fa.X.Type(), fa.Field) {
				case "Use":
					if c, ok := st.Val.(*ssa.Const); ok {
						use[fa.X] = strings.Trim(c.Value.ExactString(), `"`)
					}
				case "Run", "RunE":
					v := st.Val
					if mc, ok := v.(*ssa.MakeClosure); ok {
						v = mc.Fn
					}
					if f, ok := v.(*ssa.Function); ok {
						run[fa.X] = f
					}
				}
			}
		}
	}
	r := map[string]Command{}
	for v, u := range use {
		if run[v] == nil {
			continue
		}
		n := strings.Fields(u)[0]
		r[n] = Command{u, n, run[v], run[v].Signature.Results().Len() == 1}
	}
	return r
}

func (w *World) need(cmds map[string]Command, names ...string) []Command {
	var r []Command
	for _, n := range names {
		c, ok := cmds[n]
		if !ok {
			w.rep.fail("command "+n, "cli", "anchor unresolved: the command is not defined by the package's initialisers")
			continue
		}
		r = append(r, c)
	}
	return r
}

// start runs a command's function from an empty state.
func (w *World) start(e *Engine, fn *ssa.Function) []outcome {
	var args []*Term
	for _, p := range fn.Params {
		args = append(args, e.in.mk("param", p.Name()+":"+fmt.Sprint(len(args))))
	}
	st := &State{cells: map[*Term]*Term{}, facts: map[*Term]bool{}, auto: map[string]string{}}
	return e.Run(fn, args, nil, st, "")
}

func (w *World) finish(e *Engine) {
	for _, p := range e.Problems {
		w.rep.fail("analysis", "cli", p)
	}
	w.rep.count("paths", e.paths)
	w.rep.count("calls", e.calls)
	w.rep.count("states", e.steps)
	if w.rep.Counts["functions"] < len(e.fns) {
		w.rep.Counts["functions"] = len(e.fns)
	}
}

// platforms names the properties whose code differs between operating systems.
var platforms = map[string]bool{"G01": true, "G03": true}

var props = map[string]func(*World){}

func main() {
	if len(os.Args) != 3 {
		fatal("usage: goan REPO PROPERTY")
	}
	f := props[os.Args[2]]
	if f == nil {
		fatal("no such property: %s", os.Args[2])
	}
	oses := []string{"linux"}
	if platforms[os.Args[2]] {
		oses = append(oses, "windows")
	}
	var w *World
	for _, g := range oses {
		n := load(os.Args[1], g)
		if w != nil {
			n.rep = w.rep
			n.rep.prefix = g + ": "
		}
		w = n
		f(w)
	}
	sort.SliceStable(w.rep.Obs, func(i, j int) bool { return w.rep.Obs[i].Key < w.rep.Obs[j].Key })
	json.NewEncoder(os.Stdout).Encode(w.rep)
}
