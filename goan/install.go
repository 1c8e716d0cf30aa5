package main

import (
	"fmt"
	"go/token"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["G01"] = updateTrust
	props["G03"] = installSafety
}

const releasePrefix = "/grayscale-lang/grayscale/releases/download/"

func str(t *Term) (string, bool) {
	if t != nil && t.Op == "const" && strings.HasPrefix(t.Str, `"`) {
		s, err := strconv.Unquote(t.Str)
		return s, err == nil
	}
	return "", false
}

// strip removes interface boxing and conversions.
func strip(t *Term) *Term {
	for t.Op == "iface" || t.Op == "conv" {
		t = t.Args[len(t.Args)-1]
	}
	return t
}

func isPureCall(t *Term, name string) bool { return t.Op == "pure" && t.Str == name }

// parts gives the elements of a path built with Join.
func joinParts(t *Term) []*Term {
	if (isPureCall(t, "path/filepath.Join") || isPureCall(t, "path.Join")) && len(t.Args) == 1 && t.Args[0].Op == "slice" {
		return t.Args[0].Args
	}
	return nil
}

// holds: a fact accepted by p is known with the given truth.
func holds(st *State, v bool, p func(f *Term) bool) bool {
	for f, fv := range st.facts {
		if fv == v && p(f) {
			return true
		}
	}
	return false
}

func eqFact(f, a *Term, is func(*Term) bool) bool {
	return f.Op == "eq" && (f.Args[0] == a && is(f.Args[1]) || f.Args[1] == a && is(f.Args[0]))
}

func constIs(vals ...string) func(*Term) bool {
	return func(t *Term) bool {
		s, ok := str(t)
		for _, v := range vals {
			if ok && s == v {
				return true
			}
		}
		return false
	}
}

// ---- G01

type trustRule struct {
	w   *World
	cmd string
}

func (r *trustRule) Redo(e *Engine, st *State, site string) {}
func (r *trustRule) Dead(e *Engine, st *State, k string, live func(*Term) bool) bool {
	return true
}
func (r *trustRule) Enter(e *Engine, st *State, fn *ssa.Function, args []*Term, ins ssa.Instruction) {
}

var fetchers = map[string]int{"(*net/http.Client).Get": 1, "net/http.Get": 0, "net/http.NewRequest": 1, "net/http.NewRequestWithContext": 2,
	"(*net/http.Client).Post": 1, "net/http.Post": 0, "net/http.Head": 0, "(*net/http.Client).Head": 1, "(*net/http.Client).PostForm": 1, "net/http.PostForm": 0}

// constPrefix gives the constant text a string term starts with.
func constPrefix(t *Term) string {
	if s, ok := str(t); ok {
		return s
	}
	if t.Op == "bin" && t.Str == "+" {
		a := t.Args[0]
		p := constPrefix(a)
		if _, ok := str(a); ok {
			return p + constPrefix(t.Args[1])
		}
		return p
	}
	if isPureCall(t, "fmt.Sprintf") {
		if s, ok := str(t.Args[0]); ok {
			if i := strings.Index(s, "%"); i >= 0 {
				return s[:i]
			}
			return s
		}
	}
	return ""
}

// trusted explains why a URL may lead outside the release downloads, or returns "".
func trusted(e *Engine, st *State, u *Term) string {
	if p := constPrefix(u); strings.HasPrefix(p, "https://api.github.com/") {
		return ""
	}
	// found: what the checks made on the path establish about one parsing of the address
	best := "it is used without having been parsed and compared"
	seen := map[*Term]bool{}
	var parses []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if isPureCall(t, "net/url.Parse") && len(t.Args) == 1 && t.Args[0] == u {
			parses = append(parses, t)
		}
		for _, a := range t.Args {
			visit(a)
		}
	}
	for f := range st.facts {
		visit(f)
	}
	for _, p := range parses {
		obj := e.in.mk("extract", "0", p)
		field := func(n string) *Term { return e.in.mk("load", "", e.in.mk("fieldaddr", n, obj)) }
		path := field("Path")
		var missing []string
		if e.IsNil(st, e.in.mk("extract", "1", p)) != 1 {
			missing = append(missing, "that it parses")
		}
		if !holds(st, true, func(f *Term) bool { return eqFact(f, field("Scheme"), constIs("https")) }) {
			missing = append(missing, "that its scheme is https")
		}
		host := []*Term{field("Host"), e.in.mk("pure", "(*net/url.URL).Hostname", obj)}
		if !holds(st, true, func(f *Term) bool {
			return eqFact(f, host[0], constIs("github.com")) || eqFact(f, host[1], constIs("github.com"))
		}) {
			missing = append(missing, "that its host is github.com")
		}
		paths := []*Term{path}
		for _, n := range []string{"path.Clean", "path/filepath.Clean"} {
			paths = append(paths, e.in.mk("pure", n, path))
		}
		prefixed, cleaned := false, false
		for i, q := range paths {
			if holds(st, true, func(f *Term) bool {
				s := ""
				if f.Op == "pure" && f.Str == "strings.HasPrefix" && f.Args[0] == q {
					s, _ = str(f.Args[1])
				}
				return strings.HasPrefix(s, releasePrefix)
			}) {
				prefixed = true
				cleaned = cleaned || i > 0
			}
		}
		if !prefixed {
			missing = append(missing, "that its path starts with the release download path")
		}
		for _, q := range paths[1:] {
			if holds(st, true, func(f *Term) bool { return eqFact(f, path, func(t *Term) bool { return t == q }) }) {
				cleaned = true
			}
		}
		if holds(st, false, func(f *Term) bool {
			s := ""
			if f.Op == "pure" && f.Str == "strings.Contains" && f.Args[0] == path {
				s, _ = str(f.Args[1])
			}
			return s == ".." || s == "/.." || s == "/../"
		}) {
			cleaned = true
		}
		if !cleaned {
			missing = append(missing, "that its path has no dot segments leading out of it")
		}
		if len(missing) == 0 {
			return ""
		}
		if len(parses) > 0 {
			best = "it is used without having established " + strings.Join(missing, " and ")
		}
	}
	return best
}

var pathMakers = map[string]int{"os.Create": 0, "os.OpenFile": 0, "os.WriteFile": 0, "os.Mkdir": 0, "os.MkdirAll": 0, "os.Symlink": 1, "os.Link": 1, "os.Rename": 1}

// fromArchive: the value was read from an archive's directory
func fromArchive(t *Term) bool {
	return t.contains(func(x *Term) bool {
		return x.Op == "fieldaddr" && (x.Str == "Name" || x.Str == "Linkname") || x.Op == "field" && (x.Str == "Name" || x.Str == "Linkname")
	})
}

func (r *trustRule) Call(e *Engine, st *State, name string, args []*Term, res *Term, site string, ins ssa.Instruction) {
	where := e.Pos(ins)
	if i, ok := fetchers[name]; ok {
		key := "address " + r.cmd + " " + ins.Parent().RelString(ins.Parent().Pkg.Pkg)
		if why := trusted(e, st, strip(args[i])); why != "" {
			r.w.rep.fail(key, where, "what is downloaded may come from anywhere: "+why)
		} else {
			r.w.rep.ok(key, where)
		}
		return
	}
	if name == "os/exec.Command" && r.cmd != "" {
		// downloads made by another program
		for _, a := range args {
			if s, ok := str(a); ok && (s == "curl" || s == "wget") {
				r.w.rep.fail("address "+r.cmd+" "+s, where, "a download is left to another program")
			}
		}
	}
	if i, ok := pathMakers[name]; ok && fromArchive(args[i]) {
		key := "extraction " + r.cmd + " " + strings.TrimPrefix(name, "(*") + " in " + ins.Parent().RelString(ins.Parent().Pkg.Pkg)
		if why := contained(e, st, args[i]); why != "" {
			r.w.rep.fail(key, where, "a name from the archive decides where a file is created: "+why)
		} else {
			r.w.rep.ok(key, where)
		}
	}
	if strings.HasPrefix(name, "io.Copy") || strings.HasPrefix(name, "io.ReadAll") {
		src := strip(args[len(args)-1])
		if name == "io.Copy" {
			src = strip(args[1])
		}
		body := src.contains(func(x *Term) bool {
			return x.Op == "fieldaddr" && x.Str == "Body" || x.Op == "field" && x.Str == "Body"
		})
		lim := st.auto["limit|"+src.Key] != ""
		if body || lim {
			key := "bound " + r.cmd + " " + ins.Parent().RelString(ins.Parent().Pkg.Pkg)
			if lim {
				r.w.rep.ok(key, where)
			} else {
				r.w.rep.fail(key, where, "a response is read without a limit on its size")
			}
		}
	}
	if name == "io.LimitReader" || name == "net/http.MaxBytesReader" {
		if a := strip(args[0]); a.contains(func(x *Term) bool { return x.Str == "Body" }) {
			st.auto["limit|"+res.Key] = "1"
		}
	}
}

// contained explains how a path with an archive name in it may leave the directory, or returns "".
func contained(e *Engine, st *State, p *Term) string {
	ps := joinParts(p)
	if len(ps) == 0 {
		return "the path is not a name joined to a directory"
	}
	if ps[0].contains(func(x *Term) bool { return x.Op == "fieldaddr" && x.Str == "Name" }) {
		return "the directory itself comes from the archive"
	}
	for _, n := range ps[1:] {
		if !fromArchive(n) {
			continue
		}
		b := n
		for isPureCall(b, "path/filepath.Clean") || isPureCall(b, "path.Clean") {
			b = b.Args[0]
		}
		if !(isPureCall(b, "path/filepath.Base") || isPureCall(b, "path.Base")) {
			return "the name may contain directories"
		}
		// one of a set of names, or neither of the two that lead elsewhere
		listed := holds(st, true, func(f *Term) bool { return f.Op == "lookup" && (f.Args[1] == n || f.Args[1] == b) }) ||
			holds(st, true, func(f *Term) bool {
				return f.Op == "eq" && (f.Args[0] == n && f.Args[1].Op == "const" || f.Args[1] == n && f.Args[0].Op == "const")
			})
		if listed {
			continue
		}
		for _, d := range []string{"..", "."} {
			if !holds(st, false, func(f *Term) bool { return eqFact(f, n, constIs(d)) || eqFact(f, b, constIs(d)) }) {
				return fmt.Sprintf("the name may be %q", d)
			}
		}
	}
	return ""
}

func updateTrust(w *World) {
	cmds := w.commands()
	for _, c := range w.need(cmds, "update", "install") {
		e := NewEngine(w.prog, w.repo)
		e.rule = &trustRule{w, c.Name}
		w.start(e, c.Run)
		w.finish(e)
	}
}

// ---- G03

type file struct{ key string }

// swapRule follows the files an installation creates.
type swapRule struct {
	exitRule
	runtime bool
	hashed  map[string]string
	written map[string]string
}

var protectedWriters = map[string][]int{"os.Create": {0}, "os.WriteFile": {0}, "os.Remove": {0}, "os.RemoveAll": {0}, "os.Truncate": {0}, "os.Chmod": {0},
	"os.Rename": {0, 1}, "os.Symlink": {1}, "os.Link": {1}, "os.OpenFile": {0}}

// program: the term is the path of the running program itself
func program(t *Term) bool {
	if t.Op == "extract" && t.Str == "0" && t.Args[0].Op == "call" {
		return strings.Contains(t.Args[0].Str, "§exe") || false
	}
	return false
}

func (r *swapRule) prog(st *State, t *Term) bool { return st.auto["exe|"+t.Key] != "" }

func (r *swapRule) Dead(e *Engine, st *State, k string, live func(*Term) bool) bool {
	switch k[:strings.Index(k, "|")] {
	case "exe", "temp", "wrote", "synced", "moded", "closed", "limit":
		return true
	}
	return r.exitRule.Dead(e, st, k, live)
}

func (r *swapRule) Enter(e *Engine, st *State, fn *ssa.Function, args []*Term, ins ssa.Instruction) {}

// fileOf finds the file a path or handle names.
func fileOf(t *Term) *Term {
	t = strip(t)
	if isPureCall(t, "(*os.File).Name") {
		t = t.Args[0]
	}
	return t
}

func (r *swapRule) step(e *Engine, st *State, f *Term, what string, err *Term) {
	st.auto[what+"|"+f.Key] = err.Key
}

// done: the step was made on the file and is known to have succeeded
func (r *swapRule) done(e *Engine, st *State, f *Term, what string) bool {
	k := st.auto[what+"|"+f.Key]
	if k == "" || k == "bad" {
		return false
	}
	return k == "ok" || e.IsNil(st, e.in.m[k]) == 1
}

// Redo also fixes the outcome of steps whose error is about to be forgotten.
func (r *swapRule) Redo(e *Engine, st *State, site string) {
	for k, v := range st.auto {
		for _, p := range []string{"wrote|", "synced|", "moded|", "closed|", "installed|", "got|"} {
			if strings.HasPrefix(k, p) && v != "ok" && v != "bad" {
				switch e.IsNil(st, e.in.m[v]) {
				case 1:
					st.auto[k] = "ok"
				case 0:
					st.auto[k] = "bad"
				}
			}
		}
	}
	r.exitRule.Redo(e, st, site)
}

func (r *swapRule) Call(e *Engine, st *State, name string, args []*Term, res *Term, site string, ins ssa.Instruction) {
	where := e.Pos(ins)
	fn := ins.Parent().RelString(ins.Parent().Pkg.Pkg)
	err := func() *Term { return errTerm(e, ins, res) }
	r.Redo(e, st, "")
	switch name {
	case "os.Executable":
		st.auto["exe|"+e.in.mk("extract", "0", res).Key] = "1"
	case "path/filepath.EvalSymlinks", "path/filepath.Abs":
		if r.prog(st, args[0]) {
			st.auto["exe|"+e.in.mk("extract", "0", res).Key] = "1"
		}
	case "os.CreateTemp":
		st.auto["temp|"+e.in.mk("extract", "0", res).Key] = "1"
	case "io.Copy", "io.CopyN", "io.CopyBuffer":
		r.step(e, st, fileOf(args[0]), "wrote", err())
	case "(*os.File).Write", "(*os.File).WriteString", "(*os.File).ReadFrom":
		r.step(e, st, args[0], "wrote", err())
	case "(*os.File).Sync":
		r.step(e, st, args[0], "synced", err())
	case "(*os.File).Chmod":
		r.step(e, st, args[0], "moded", err())
	case "os.Chmod":
		if f := fileOf(args[0]); f != strip(args[0]) {
			r.step(e, st, f, "moded", err())
		}
	case "(*os.File).Close":
		if r.done(e, st, args[0], "wrote") {
			r.step(e, st, args[0], "closed", err())
		}
	}
	if r.runtime {
		r.extraction(e, st, name, args, res, where, fn)
		return
	}
	if _, ok := fetchers[name]; ok && strings.HasPrefix(name, "(*net/http.Client)") {
		st.auto["fetched"] = "1"
	}
	if is, ok := protectedWriters[name]; ok {
		for _, i := range is {
			if !r.prog(st, strip(args[i])) {
				continue
			}
			key := "program " + r.cmd + " " + name + " in " + fn
			if name == "os.Rename" && i == 0 && r.w.goos == "windows" {
				// a running program cannot be replaced there, only moved away
				r.w.rep.ok(key+" (moved away)", where)
				st.auto["away|"] = err().Key
				continue
			}
			if name == "os.Rename" && st.auto["away|"] != "" && st.auto["installed|"] != "" {
				r.w.rep.ok(key+" (put back)", where)
				st.auto["away|"] = ""
				continue
			}
			if !(name == "os.Rename" && i == 1) {
				if name == "os.OpenFile" && args[1].Key == "const(0)" {
					continue
				}
				r.w.rep.fail(key, where, "the installed program is touched by something other than moving a complete file over it")
				continue
			}
			var miss []string
			f := fileOf(args[0])
			if st.auto["temp|"+f.Key] == "" {
				miss = append(miss, "a file created for this installation")
			}
			for _, s := range [][2]string{{"wrote", "fully written"}, {"moded", "made executable"}, {"synced", "forced to disk"}, {"closed", "closed"}} {
				if !r.done(e, st, f, s[0]) {
					miss = append(miss, s[1])
				}
			}
			r.settle(e, st, "")
			if st.auto["lost"] != "" {
				miss = append(miss, "the outcome of steps that all succeeded ("+st.auto["lost"]+" may have failed)")
			}
			for k, v := range st.auto {
				if strings.HasPrefix(k, "op|") {
					miss = append(miss, "the outcome of steps that all succeeded ("+v+" is not looked at)")
				}
			}
			if len(miss) > 0 {
				r.w.rep.fail(key, where, "the program is replaced by a file not known to be "+strings.Join(miss, ", "))
			} else {
				r.w.rep.ok(key, where)
			}
			st.auto["installed|"] = err().Key
		}
	}
	r.exitRule.Call(e, st, name, args, res, site, ins)
}

// extraction follows the embedded compiler and runtime to their places in the cache.
func (r *swapRule) extraction(e *Engine, st *State, name string, args []*Term, res *Term, where, fn string) {
	blob := func(t *Term) string {
		g := ""
		strip(t).contains(func(x *Term) bool {
			if x.Op == "glob" && strings.Contains(x.Str, ".embedded") {
				g = x.Str
			}
			if k := st.auto["blob|"+x.Key]; k != "" {
				g = k
			}
			return false
		})
		return g
	}
	key := "cache " + strings.TrimPrefix(name, "(*") + " in " + fn
	switch name {
	case "(embed.FS).ReadFile":
		if g := blob(args[0]); g != "" {
			st.auto["blob|"+res.Key] = g
		}
	case "os.WriteFile", "os.Create", "os.OpenFile":
		if r.cached(st, args[0]) {
			r.w.rep.fail(key, where, "a file of the extracted runtime is written under a name other processes use")
		}
	case "(*os.File).Write", "io.Copy":
		d := args[1]
		if g := blob(d); g != "" && st.auto["temp|"+fileOf(args[0]).Key] != "" {
			r.written[g] = where
			r.w.rep.ok("cache content "+g, where)
		}
	case "(io.Writer).Write", "(hash.Hash).Write":
		if g := blob(args[1]); g != "" {
			r.hashed[g] = where
		}
	case "os.Rename":
		f := fileOf(args[0])
		var miss []string
		if st.auto["temp|"+f.Key] == "" {
			miss = append(miss, "a file with a name of its own")
		}
		for _, s := range [][2]string{{"wrote", "fully written"}, {"moded", "given its permissions"}, {"closed", "closed"}} {
			if !r.done(e, st, f, s[0]) {
				miss = append(miss, s[1])
			}
		}
		if len(miss) > 0 {
			r.w.rep.fail(key, where, "a file of the extracted runtime appears without being known to be "+strings.Join(miss, ", "))
		} else {
			r.w.rep.ok(key, where)
		}
	}
}

func (r *swapRule) cached(st *State, t *Term) bool {
	return bestEffort(nil, st, []*Term{t})
}

func installSafety(w *World) {
	cmds := w.commands()
	for _, c := range w.need(cmds, "update", "install") {
		e := NewEngine(w.prog, w.repo)
		r := &swapRule{exitRule: exitRule{w, c.Name}}
		e.rule = r
		bad := false
		for _, o := range w.start(e, c.Run) {
			if o.pan {
				continue
			}
			ok := false
			if o.exit != nil {
				ok = e.Truth(o.st, e.bin(token.EQL, o.exit, e.Const("0"))) == 1
			} else {
				ok = e.IsNil(o.st, o.ret0(e)) != 0
			}
			r.Redo(e, o.st, "")
			if v := o.st.auto["installed|"]; ok && v != "" && v != "ok" {
				bad = true
				w.rep.fail("result "+c.Name, "cli", "the command can succeed although the new program was not put in place")
			}
			if v := o.st.auto["installed|"]; v == "bad" && o.st.auto["away|"] != "" {
				bad = true
				w.rep.fail("result "+c.Name, "cli", "the command can end with the previous program moved away and nothing in its place")
			}
			if v := o.st.auto["installed|"]; !ok && v == "ok" && o.exit == nil {
				bad = true
				w.rep.fail("result "+c.Name, "cli", "the command can fail although the program was already replaced")
			}
		}
		if !bad {
			w.rep.ok("result "+c.Name, "")
		}
		w.finish(e)
	}
	// the embedded compiler and runtime
	e := NewEngine(w.prog, w.repo)
	r := &swapRule{exitRule: exitRule{w, "runtime"}, runtime: true, hashed: map[string]string{}, written: map[string]string{}}
	e.rule = r
	w.start(e, w.grayc.Func("Find"))
	w.finish(e)
	if len(r.written) == 0 {
		w.rep.fail("cache", "internal/grayc", "anchor unresolved: nothing of the embedded runtime is written")
	}
	for g, where := range r.written {
		if r.hashed[g] == "" {
			w.rep.fail("cache tag "+g, where, "the directory an embedded file is extracted to does not depend on its content: a file left by another version would be used")
		} else {
			w.rep.ok("cache tag "+g, where)
		}
	}
}
