package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Operations that do a command's work and report failure through their last result.
var workOps = map[string]bool{
	"os.WriteFile": true, "os.Create": true, "os.OpenFile": true, "os.CreateTemp": true, "os.MkdirTemp": true, "os.Mkdir": true,
	"os.MkdirAll": true, "os.Rename": true, "os.Chmod": true, "os.RemoveAll": true, "os.ReadFile": true, "os.Open": true, "os.ReadDir": true,
	"io.Copy": true, "io.ReadAll": true, "(*os.File).Write": true, "(*os.File).WriteString": true, "(*os.File).Sync": true, "(*os.File).Close": true,
	"(*os/exec.Cmd).Run": true, "(*os/exec.Cmd).Wait": true, "(*os/exec.Cmd).Start": true, "(*os/exec.Cmd).Output": true, "(*os/exec.Cmd).CombinedOutput": true,
	"io/fs.WalkDir": true, "path/filepath.Walk": true, "path/filepath.WalkDir": true, "(*net/http.Client).Get": true,
	"(*net/http.Client).Do": true, "compress/gzip.NewReader": true, "archive/zip.OpenReader": true, "(*archive/zip.File).Open": true,
	"os.Executable": true, "path/filepath.EvalSymlinks": true, "(*bufio.Scanner).Err": true, "os.Stat": true, "os.Lstat": true,
	"(*bufio.Writer).Flush": true, "(*bufio.Writer).WriteString": true, "(*archive/tar.Reader).Next": true,
}

var fileMakers = map[string]bool{"os.Create": true, "os.OpenFile": true, "os.CreateTemp": true}

// exitRule tracks which work has failed on the current path.
type exitRule struct {
	w   *World
	cmd string
}

// bestEffort: the cache and the extracted runtime below ~/.gray have fallbacks
func bestEffort(e *Engine, st *State, args []*Term) bool {
	var all []*Term
	all = append(all, args...)
	for i := 0; i < len(all) && i < 64; i++ { // through captured variables
		all[i].contains(func(t *Term) bool {
			if c := st.cells[t]; c != nil && t.Op == "alloc" {
				all = append(all, c)
			}
			return false
		})
	}
	for _, a := range all {
		if a.contains(func(t *Term) bool { return t.Op == "const" && t.Str == `".gray"` }) {
			return true
		}
		if a.contains(func(t *Term) bool { return st.auto["cache|"+t.Key] != "" }) {
			return true
		}
	}
	return false
}

// fallback: the call is made while looking for the compiler, where every failure has an alternative
func (r *exitRule) fallback(e *Engine) bool {
	for _, f := range e.stack {
		if f == r.w.grayc.Func("Find") {
			return true
		}
	}
	return false
}

// predicate: a function that only answers yes or no does no work of the command
func predicate(e *Engine) bool {
	s := e.stack[len(e.stack)-1].Signature.Results()
	if s.Len() != 1 {
		return false
	}
	b, ok := s.At(0).Type().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

func fromArgs(t *Term) bool {
	return t.contains(func(x *Term) bool { return x.Op == "param" })
}

func errTerm(e *Engine, ins ssa.Instruction, res *Term) *Term {
	c := ins.(ssa.CallInstruction).Common()
	n := c.Signature().Results().Len()
	if n == 1 {
		return res
	}
	return e.in.mk("extract", fmt.Sprint(n-1), res)
}

func (r *exitRule) settle(e *Engine, st *State, only string) {
	for k, v := range st.auto {
		if !strings.HasPrefix(k, "op|") {
			continue
		}
		t := e.in.m[k[3:]]
		if only != "" && !t.contains(func(x *Term) bool { return x.Op == "call" && x.Str == only }) {
			continue
		}
		if e.IsNil(st, t) == 1 || r.fine(e, st, k) {
			delete(st.auto, k)
		} else if only != "" {
			delete(st.auto, k)
			if st.auto["lost"] == "" {
				st.auto["lost"] = v
			}
		}
	}
}

// Dead: nothing can look at the value of a finished operation any more.
func (r *exitRule) Dead(e *Engine, st *State, k string, live func(*Term) bool) bool {
	i := strings.Index(k, "|")
	kind, rest := k[:i], k[i+1:]
	if kind == "scan" {
		if st.auto["lost"] == "" {
			st.auto["lost"] = "the end of reading at " + st.auto[k]
		}
		return true
	}
	if kind != "op" {
		return kind != "exitcode" && (kind == "made" || kind == "tmp" || kind == "cache" || st.auto["op|"+rest] == "")
	}
	t := e.in.m[rest]
	if e.IsNil(st, t) == 1 || r.fine(e, st, k) {
		return true
	}
	if a := e.in.m[st.auto["arg|"+rest]]; a != nil && (live(a) || a.Op == "load") {
		return false
	}
	if c := e.in.m[st.auto["code|"+rest]]; c != nil && live(c) {
		return false
	}
	if st.auto["lost"] == "" {
		st.auto["lost"] = st.auto[k]
	}
	return true
}

// fine: failures that are not failures of the command
func (r *exitRule) fine(e *Engine, st *State, k string) bool {
	t := e.in.m[k[3:]]
	// end of the archive
	for f, v := range st.facts {
		if v && f.Op == "eq" && (f.Args[0] == t || f.Args[1] == t) {
			o := f.Args[0]
			if o == t {
				o = f.Args[1]
			}
			if strings.Contains(o.Key, "io.EOF") {
				return true
			}
		}
	}
	// the child reported success after all
	if c := st.auto["code|"+k[3:]]; c != "" {
		if ct := e.in.m[c]; ct != nil && e.Truth(st, e.bin(token.EQL, ct, e.Const("0"))) == 1 {
			return true
		}
	}
	return false
}

func (r *exitRule) Redo(e *Engine, st *State, site string) { r.settle(e, st, site) }

func (r *exitRule) Enter(e *Engine, st *State, fn *ssa.Function, args []*Term, ins ssa.Instruction) {}

func (r *exitRule) Call(e *Engine, st *State, name string, args []*Term, res *Term, site string, ins ssa.Instruction) {
	r.settle(e, st, "")
	// a path that could not be examined is passed on to something that fails by itself
	if workOps[name] || name == "os/exec.Command" {
		for k := range st.auto {
			if strings.HasPrefix(k, "op|") && strings.HasPrefix(st.auto[k], "examining ") {
				p := e.in.m[st.auto["arg|"+k[3:]]]
				for _, a := range args {
					if p != nil && a.contains(func(t *Term) bool { return t == p }) && name != "os.Stat" && name != "os.Lstat" {
						delete(st.auto, k)
					}
				}
			}
		}
	}
	if name == "(*os/exec.ExitError).ExitCode" || name == "(*os.ProcessState).ExitCode" {
		for k := range st.auto {
			if strings.HasPrefix(k, "op|") && args[0].contains(func(t *Term) bool { return t.Key == k[3:] }) {
				st.auto["code|"+k[3:]] = res.Key
				st.auto["exitcode|"+res.Key] = "1"
			}
		}
		return
	}
	if name == "(*bufio.Scanner).Scan" {
		st.auto["scan|"+args[0].Key] = e.Pos(ins)
		return
	}
	if name == "(*bufio.Scanner).Err" {
		delete(st.auto, "scan|"+args[0].Key)
	}
	if !workOps[name] {
		return
	}
	if r.fallback(e) || predicate(e) {
		return
	}
	if bestEffort(e, st, args) {
		if fileMakers[name] {
			st.auto["cache|"+res.Key] = "1"
		}
		return
	}
	switch name {
	case "(*os.File).Close":
		// only a file that was written can lose data when it is closed
		src := args[0]
		if !(src.Op == "extract" && st.auto["made|"+src.Args[0].Key] != "") {
			return
		}
	case "os.Create", "os.OpenFile", "os.CreateTemp":
		st.auto["made|"+res.Key] = "1"
	case "os.Stat", "os.Lstat":
		if !fromArgs(args[0]) {
			return
		}
	case "os.RemoveAll":
		if args[0].contains(func(t *Term) bool { return t.Op == "call" && st.auto["tmp|"+t.Key] != "" }) {
			return
		}
	case "os.MkdirTemp":
		st.auto["tmp|"+res.Key] = "1"
	}
	t := errTerm(e, ins, res)
	verb := "the result of " + strings.TrimPrefix(name, "(*")
	if name == "os.Stat" || name == "os.Lstat" {
		verb = "examining a path given by the user"
		st.auto["arg|"+t.Key] = args[0].Key
	}
	st.auto["op|"+t.Key] = verb + " at " + e.Pos(ins)
	r.w.rep.ok("operation "+r.cmd+" "+strings.TrimPrefix(name, "(*")+" in "+ins.Parent().RelString(ins.Parent().Pkg.Pkg), e.Pos(ins))
	if name == "path/filepath.Walk" || name == "path/filepath.WalkDir" || name == "io/fs.WalkDir" {
		// the error handed to the callback
		for k := range st.auto {
			_ = k
		}
	}
}

func init() { props["G02"] = exitStatus }

func exitStatus(w *World) {
	cmds := w.commands()
	for _, c := range w.need(cmds, "gray", "build", "check", "fmt", "doc", "new", "verify", "update", "install") {
		e := NewEngine(w.prog, w.repo)
		r := &exitRule{w, c.Name}
		e.rule = r
		outs := w.start(e, c.Run)
		w.finish(e)
		where := "cli: " + c.Run.String()
		bad := false
		n := 0
		for _, o := range outs {
			if o.pan {
				continue
			}
			n++
			st := o.st
			success := !c.Err
			if c.Err {
				success = e.IsNil(st, o.ret0(e)) == 1
				if !success && e.IsNil(st, o.ret0(e)) < 0 && o.exit == nil {
					success = true // may be nil
				}
			}
			if o.exit != nil {
				success = e.Truth(st, e.bin(token.EQL, o.exit, e.Const("0"))) != 0
				if bs := e.Truth(st, e.bin(token.EQL, o.exit, e.Const("0"))); bs == 1 && st.auto["lost"] == "" {
					success = true
				}
			}
			if success {
				r.settle(e, st, "")
				for k, v := range st.auto {
					var what string
					switch {
					case strings.HasPrefix(k, "op|"):
						t := e.in.m[k[3:]]
						if e.IsNil(st, t) == 0 {
							what = "although " + v + " is an error"
						} else {
							what = "without looking at " + v
						}
					case k == "lost":
						what = "although " + v + " may have failed for an earlier item"
					case strings.HasPrefix(k, "scan|"):
						what = "without asking whether reading at " + v + " ended in an error"
					case strings.HasPrefix(k, "walk|"):
						what = "although " + v
					default:
						continue
					}
					bad = true
					if os.Getenv("GOAN_DUMP") == c.Name {
						fmt.Fprintln(os.Stderr, "DUMP", what, o.ret0(e).Key, "\n", st.key())
					}
					w.rep.fail("success "+c.Name, where, "the command can report success "+what)
				}
				continue
			}
			// the status of the compiler or of the program it ran
			if o.exit != nil {
				continue
			}
			v := o.ret0(e)
			if v.Op == "iface" && strings.HasSuffix(v.Str, "ExitError") {
				code := e.load(st, e.in.mk("fieldaddr", "Code", v.Args[0]), nil)
				if c.Name != "fmt" && c.Name != "doc" {
					if st.auto["exitcode|"+code.Key] == "" && !(code.Op == "const" && code.Str != "0") {
						bad = true
						w.rep.fail("status "+c.Name, where, "the exit status is not the one the compiler process reported")
					}
				}
				if e.Truth(st, e.bin(token.EQL, code, e.Const("0"))) != 0 {
					bad = true
					w.rep.fail("status "+c.Name, where, "a failure may be reported with exit status 0")
				}
			} else {
				for k := range st.auto {
					if strings.HasPrefix(k, "exitcode|") && c.Name != "fmt" && c.Name != "doc" {
						if ct := e.in.m[k[9:]]; e.Truth(st, e.bin(token.EQL, ct, e.Const("0"))) == 0 {
							bad = true
							w.rep.fail("status "+c.Name, where, "the exit status of the compiler process is replaced by another one")
						}
					}
				}
			}
		}
		w.rep.count("command outcomes", n)
		if n == 0 {
			w.rep.fail("success "+c.Name, where, "no path through the command ends")
		} else if !bad {
			w.rep.ok("success "+c.Name, fmt.Sprintf("%d outcomes of %s", n, c.Run))
		}
	}
	mainExit(w)
}

func (o outcome) ret0(e *Engine) *Term {
	if len(o.ret) == 0 {
		return e.Nil()
	}
	return o.ret[0]
}

// mainRule watches what main does with the error of the command.
type mainRule struct{ w *World }

func (r *mainRule) Redo(e *Engine, st *State, site string)                                          {}
func (r *mainRule) Dead(e *Engine, st *State, k string, live func(*Term) bool) bool                 { return false }
func (r *mainRule) Enter(e *Engine, st *State, fn *ssa.Function, args []*Term, ins ssa.Instruction) {}
func (r *mainRule) Call(e *Engine, st *State, name string, args []*Term, res *Term, site string, ins ssa.Instruction) {
	switch {
	case strings.HasSuffix(name, "cobra.Command).Execute"):
		st.auto["exec|"+res.Key] = "1"
	case name == "errors.As":
		st.auto["as|"+res.Key] = args[1].Key
	case strings.HasPrefix(name, "fmt.Fprint"):
		if strings.Contains(args[0].Key, "os.Stderr") {
			for k := range st.auto {
				if strings.HasPrefix(k, "exec|") {
					for _, a := range args[1:] {
						if a.contains(func(t *Term) bool { return t.Key == k[5:] }) {
							st.auto["told"] = "1"
						}
					}
				}
			}
		}
	}
}

func mainExit(w *World) {
	fn := w.cli.Func("main")
	e := NewEngine(w.prog, w.repo)
	e.rule = &mainRule{w}
	outs := w.start(e, fn)
	w.finish(e)
	where := "cli: " + fn.String()
	ran := false
	for _, o := range outs {
		st := o.st
		var ex *Term
		for k := range st.auto {
			if strings.HasPrefix(k, "exec|") {
				ex = e.in.m[k[5:]]
			}
		}
		if ex == nil {
			w.rep.fail("main", where, "a path ends without running the command")
			continue
		}
		ran = true
		if e.IsNil(st, ex) == 1 {
			if o.exit != nil && !(o.exit.Op == "const" && o.exit.Str == "0") {
				w.rep.fail("main", where, "a successful command exits with a failure status")
			}
			continue
		}
		if o.exit == nil {
			w.rep.fail("main", where, "the error of the command does not reach the exit status")
			continue
		}
		as := 0
		for k := range st.auto {
			if strings.HasPrefix(k, "as|") {
				if e.Truth(st, e.in.m[k[3:]]) == 1 {
					as = 1
				}
			}
		}
		if as == 1 {
			if !(strings.Contains(o.exit.Key, "Code") && !(o.exit.Op == "const")) {
				w.rep.fail("main", where, "the exit status carried by the error is not used")
			}
		} else {
			if !(o.exit.Op == "const" && o.exit.Str != "0") {
				w.rep.fail("main", where, "an error may end with exit status 0")
			}
			if st.auto["told"] == "" {
				w.rep.fail("main message", where, "a command can fail without its error being printed")
			}
		}
	}
	if !ran {
		w.rep.fail("main", where, "anchor unresolved: the command is not executed")
	}
	w.rep.ok("main", "")
	w.rep.ok("main message", "")
}
