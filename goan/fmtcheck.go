package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["G05"] = fmtCheck }

// checkRule follows what `gray fmt --check` does with the files of the user.
type checkRule struct {
	w        *World
	compared int
	temps    int
}

func (r *checkRule) Enter(e *Engine, st *State, fn *ssa.Function, args []*Term, ins ssa.Instruction) {}

// checking: the option may be given on this path
func (r *checkRule) checking(e *Engine, st *State) bool {
	for k := range st.auto {
		if strings.HasPrefix(k, "mode|") && e.Truth(st, e.in.m[k[5:]]) == 0 {
			return false
		}
	}
	return true
}

func (r *checkRule) Dead(e *Engine, st *State, k string, live func(*Term) bool) bool {
	i := strings.Index(k, "|")
	switch k[:i] {
	case "mode":
		return false
	case "code":
		for _, v := range st.auto {
			if strings.HasPrefix(v, "?"+k[i+1:]+"?#") || strings.HasPrefix(v, "!"+k[i+1:]+"?#") {
				return false
			}
		}
	case "orig":
		r.forget(e, st, k)
		return true
	}
	return true
}

// forget: nothing can compare this content any more
func (r *checkRule) forget(e *Engine, st *State, k string) {
	if r.checking(e, st) && !r.same(e, st, k) && st.auto["differs"] == "" {
		st.auto["differs"] = st.auto[k]
	}
	delete(st.auto, k)
}

// content strips conversions of a file's content
func content(t *Term) *Term { return strip(t) }

// same: the content was found equal to that of its formatted copy
func (r *checkRule) same(e *Engine, st *State, k string) bool {
	o := e.in.m[k[5:]]
	is := func(a, b *Term) bool {
		a, b = content(a), content(b)
		return a == o && st.auto["formatted|"+b.Key] == o.Key || b == o && st.auto["formatted|"+a.Key] == o.Key
	}
	return holds(st, true, func(f *Term) bool {
		if f.Op == "eq" {
			return is(f.Args[0], f.Args[1])
		}
		return f.Op == "pure" && (f.Str == "bytes.Equal") && is(f.Args[0], f.Args[1])
	}) || holds(st, true, func(f *Term) bool {
		if f.Op != "eq" {
			return false
		}
		for i := 0; i < 2; i++ {
			c, z := f.Args[i], f.Args[1-i]
			if c.Op == "pure" && (c.Str == "bytes.Compare" || c.Str == "strings.Compare") && z.Key == "const(0)" && is(c.Args[0], c.Args[1]) {
				return true
			}
		}
		return false
	})
}

func (r *checkRule) Redo(e *Engine, st *State, site string) {
	for k := range st.auto {
		switch {
		case strings.HasPrefix(k, "orig|"):
			if r.same(e, st, k) {
				delete(st.auto, k)
				r.compared++
			} else if site != "" && e.in.m[k[5:]].contains(func(x *Term) bool { return x.Op == "call" && x.Str == site }) {
				r.forget(e, st, k)
			}
		case strings.HasPrefix(k, "filled|") || strings.HasPrefix(k, "ran|"):
			// settled while the error is at hand
			v := st.auto[k]
			i := strings.Index(v, "?#")
			if i < 0 {
				continue
			}
			isNil := 0
			if v[0] == '?' {
				isNil = e.IsNil(st, e.in.m[v[1:i]])
			}
			switch isNil {
			case 1:
				st.auto[k] = v[i+2:]
			case 0:
				// a process that ended reports how; zero is success
				st.auto[k] = "!" + v[1:]
				if c := e.in.m[st.auto["code|"+v[1:i]]]; c != nil {
					switch e.Truth(st, e.bin(token.EQL, c, e.Const("0"))) {
					case 1:
						st.auto[k] = v[i+2:]
					case 0:
						delete(st.auto, k)
					}
				}
			}
		}
	}
}

func (r *checkRule) temp(st *State, t *Term) *Term {
	f := fileOf(t)
	if st.auto["temp|"+f.Key] != "" {
		return f
	}
	return nil
}

var formatters = map[string][]int{"os.Create": {0}, "os.WriteFile": {0}, "os.Remove": {0}, "os.RemoveAll": {0}, "os.Truncate": {0}, "os.Chmod": {0}, "os.Chtimes": {0},
	"os.Rename": {0, 1}, "os.Symlink": {1}, "os.Link": {1}, "os.Mkdir": {0}, "os.MkdirAll": {0}}

func (r *checkRule) Call(e *Engine, st *State, name string, args []*Term, res *Term, site string, ins ssa.Instruction) {
	where := e.Pos(ins)
	for _, f := range e.stack {
		if f == r.w.grayc.Func("Find") {
			return // the compiler's own files
		}
	}
	fn := ins.Parent().RelString(ins.Parent().Pkg.Pkg)
	err := func() *Term { return errTerm(e, ins, res) }
	r.Redo(e, st, "")
	if strings.HasSuffix(name, "FlagSet).GetBool") && constIs("check")(args[1]) {
		st.auto["mode|"+e.in.mk("extract", "0", res).Key] = "1"
	}
	if !r.checking(e, st) {
		return
	}
	if strings.HasSuffix(name, ").ExitCode") {
		for k, v := range st.auto {
			if strings.HasPrefix(k, "ran|") && strings.Contains(v, "?#") {
				ek := v[1:strings.Index(v, "?#")]
				if args[0].contains(func(t *Term) bool { return t.Key == ek }) {
					st.auto["code|"+ek] = res.Key
				}
			}
		}
	}
	sh := strings.TrimPrefix(name, "(*")
	if is, ok := formatters[name]; ok {
		for _, i := range is {
			key := "write " + sh + " in " + fn
			if r.temp(st, args[i]) == nil {
				r.w.rep.fail(key, where, "with --check, something other than a temporary copy is written or removed")
			} else {
				r.w.rep.ok(key, where)
			}
		}
	}
	switch name {
	case "os.OpenFile":
		key := "write " + sh + " in " + fn
		if args[1].Key != "const(0)" && r.temp(st, args[0]) == nil {
			r.w.rep.fail(key, where, "with --check, something other than a temporary copy is opened for writing")
		}
	case "os.CreateTemp":
		st.auto["temp|"+e.in.mk("extract", "0", res).Key] = "1"
		r.temps++
	case "os.ReadFile":
		d := e.in.mk("extract", "0", res)
		if f := r.temp(st, args[0]); f != nil {
			if o := st.auto["ran|"+f.Key]; o != "" && !strings.Contains(o, "?#") {
				st.auto["formatted|"+d.Key] = o
			}
		} else {
			st.auto["orig|"+d.Key] = "the file read at " + where
		}
	case "(*os.File).Write", "(*os.File).WriteString", "os.WriteFile":
		f := r.temp(st, args[0])
		if f != nil {
			o := content(args[1])
			if st.auto["orig|"+o.Key] != "" {
				st.auto["filled|"+f.Key] = "?" + err().Key + "?#" + o.Key
			} else {
				delete(st.auto, "filled|"+f.Key)
			}
		}
	case "os/exec.Command":
		key := "format in " + fn
		var files []*Term
		if args[1].Op == "slice" {
			files = args[1].Args
		} else {
			files = []*Term{args[1]}
		}
		_ = files
		for _, a := range files {
			if _, ok := str(a); ok {
				continue
			}
			f := r.temp(st, a)
			if f == nil {
				r.w.rep.fail(key, where, "with --check, the formatter is run on something other than a temporary copy")
				continue
			}
			r.w.rep.ok(key, where)
			st.auto["cmd|"+res.Key] = f.Key
		}
	case "(*os/exec.Cmd).Run", "(*os/exec.Cmd).Wait", "(*os/exec.Cmd).Output", "(*os/exec.Cmd).CombinedOutput":
		if fk := st.auto["cmd|"+args[0].Key]; fk != "" {
			if o := st.auto["filled|"+fk]; o != "" && !strings.Contains(o, "?#") {
				st.auto["ran|"+fk] = "?" + err().Key + "?#" + o
			} else {
				r.w.rep.fail("format in "+fn, where, "with --check, the formatter is run on a copy not known to hold the file's content")
			}
		}
	}
}

func fmtCheck(w *World) {
	for _, c := range w.need(w.commands(), "fmt") {
		e := NewEngine(w.prog, w.repo)
		r := &checkRule{w: w}
		e.rule = r
		bad, n := false, 0
		for _, o := range w.start(e, c.Run) {
			if o.pan || !r.checking(e, o.st) {
				continue
			}
			n++
			ok := e.IsNil(o.st, o.ret0(e)) != 0
			if o.exit != nil {
				ok = e.Truth(o.st, e.bin(token.EQL, o.exit, e.Const("0"))) != 0
			}
			r.Redo(e, o.st, "")
			for k := range o.st.auto {
				if strings.HasPrefix(k, "orig|") {
					r.forget(e, o.st, k)
				}
			}
			if d := o.st.auto["differs"]; ok && d != "" {
				bad = true
				w.rep.fail("result", "cli: "+c.Run.String(), "gray fmt --check can succeed although "+d+" was not found equal to its formatted copy")
			}
		}
		w.finish(e)
		w.rep.count("check outcomes", n)
		w.rep.count("comparisons", r.compared)
		if n == 0 || r.compared == 0 || r.temps == 0 {
			w.rep.fail("result", "cli: "+c.Run.String(), "anchor unresolved: no path compares a file with a formatted copy")
		} else if !bad {
			w.rep.ok("result", c.Run.String())
		}
	}
}
