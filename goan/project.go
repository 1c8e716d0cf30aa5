package main

import (
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["G04"] = newProject }

// newRule follows what `gray new` does to the file system.
type newRule struct {
	w       *World
	cmd     string
	name    *Term
	created int
}

func (r *newRule) Enter(e *Engine, st *State, fn *ssa.Function, args []*Term, ins ssa.Instruction) {}
func (r *newRule) Dead(e *Engine, st *State, k string, live func(*Term) bool) bool {
	return !strings.HasPrefix(k, "looked|") && !strings.HasPrefix(k, "walk|") && !strings.HasPrefix(k, "force|") && !strings.HasPrefix(k, "gone|") && !strings.HasPrefix(k, "absent|")
}

// Redo settles what the tests made so far establish, before paths are merged.
func (r *newRule) Redo(e *Engine, st *State, site string) {
	for k := range st.auto {
		switch {
		case strings.HasPrefix(k, "answer|"):
			t := e.in.m[k[7:]]
			if holds(st, true, func(f *Term) bool {
				return f.Op == "eq" && (constIs("y", "yes")(f.Args[0]) && f.Args[1].contains(func(x *Term) bool { return x == t }) ||
					constIs("y", "yes")(f.Args[1]) && f.Args[0].contains(func(x *Term) bool { return x == t }))
			}) {
				st.auto["agreed"] = "1"
			}
		case strings.HasPrefix(k, "force|"):
			if e.Truth(st, e.in.m[k[6:]]) == 1 {
				st.auto["forced"] = "1"
			}
		case strings.HasPrefix(k, "looked|"):
			if e.IsNil(st, e.in.m[k[7:]]) == 0 {
				st.auto["absent"] = st.auto[k]
			}
			if e.IsNil(st, e.in.m[k[7:]]) == 1 {
				st.auto["present"] = st.auto[k]
			}
		case strings.HasPrefix(k, "gone|"):
			if e.IsNil(st, e.in.m[k[5:]]) == 1 {
				st.auto["absent"] = st.auto[k]
				delete(st.auto, "present")
			}
		}
	}
}

// plain explains why a name given by the user may be more than one directory entry, or returns "".
func plain(e *Engine, st *State, n *Term) string {
	same := []*Term{n}
	for _, c := range []string{"path/filepath.Clean", "path.Clean", "path/filepath.Base", "path.Base"} {
		t := e.in.mk("pure", c, n)
		if holds(st, true, func(f *Term) bool { return eqFact(f, n, func(x *Term) bool { return x == t }) }) {
			same = append(same, t)
		}
	}
	about := func(t *Term) bool {
		for _, s := range same {
			if t == s {
				return true
			}
		}
		return false
	}
	call := func(fn string, v bool, arg func(string) bool) bool {
		return holds(st, v, func(f *Term) bool {
			if f.Op != "pure" || f.Str != fn || !about(f.Args[0]) {
				return false
			}
			if len(f.Args) < 2 {
				return arg == nil
			}
			s, ok := str(f.Args[1])
			return ok && arg(s)
		})
	}
	not := func(v string) bool {
		return holds(st, false, func(f *Term) bool {
			return f.Op == "eq" && (about(f.Args[0]) && constIs(v)(f.Args[1]) || about(f.Args[1]) && constIs(v)(f.Args[0]))
		})
	}
	based := false
	for _, s := range same[1:] {
		if strings.HasSuffix(s.Str, "Base") {
			based = true // a name equal to its own last element; "/" is its own last element too
		}
	}
	var miss []string
	sep := call("strings.ContainsAny", false, func(s string) bool { return strings.Contains(s, "/") }) ||
		call("strings.Contains", false, func(s string) bool { return s == "/" }) || call("strings.ContainsRune", false, func(s string) bool { return s == "/" }) ||
		based && (not("/") || call("path/filepath.IsAbs", false, nil))
	if !sep {
		miss = append(miss, "a path separator")
	}
	dots := call("strings.Contains", false, func(s string) bool { return s == ".." })
	if !dots && !not("..") {
		miss = append(miss, `".."`)
	}
	cleaned := len(same) > 1
	if !not(".") {
		miss = append(miss, `"."`)
	}
	if !cleaned && !not("") {
		miss = append(miss, "nothing at all")
	}
	if len(miss) == 0 {
		return ""
	}
	return "it may be or contain " + strings.Join(miss, " or ")
}

// inside explains why a path may lead out of the directory it is joined to, or returns "".
func (r *newRule) inside(e *Engine, st *State, t *Term) string {
	if s, ok := str(t); ok {
		if strings.Contains(s, "..") || strings.HasPrefix(s, "/") {
			return fmt.Sprintf("%q leads out of it", s)
		}
		return ""
	}
	if t == r.name {
		return plain(e, st, t)
	}
	if t.Op == "bin" && t.Str == "+" {
		for _, a := range t.Args {
			if w := r.inside(e, st, a); w != "" {
				return w
			}
		}
		return ""
	}
	b := t
	for isPureCall(b, "path/filepath.FromSlash") || isPureCall(b, "strings.TrimPrefix") || isPureCall(b, "path.Clean") || isPureCall(b, "path/filepath.Clean") {
		b = b.Args[0]
	}
	if st.auto["walk|"+b.Key] != "" {
		return "" // names in an embedded tree have no dot segments and are not absolute
	}
	if b.Op == "extract" && b.Str == "0" && isPureCall(b.Args[0], "path/filepath.Rel") {
		from, to := b.Args[0].Args[0], b.Args[0].Args[1]
		if root := st.auto["walk|"+to.Key]; root == from.Key && root != "" {
			return ""
		}
	}
	return "it is joined to something other than a template's own path"
}

var newMakers = map[string]int{"os.WriteFile": 0, "os.Create": 0, "os.OpenFile": 0, "os.Mkdir": 0, "os.MkdirAll": 0, "os.Symlink": 1, "os.Link": 1}
var newKillers = map[string][]int{"os.RemoveAll": {0}, "os.Remove": {0}, "os.Rename": {0, 1}, "os.Truncate": {0}}

func (r *newRule) Call(e *Engine, st *State, name string, args []*Term, res *Term, site string, ins ssa.Instruction) {
	where := e.Pos(ins)
	fn := ins.Parent().RelString(ins.Parent().Pkg.Pkg)
	if os.Getenv("GOAN_NEW") != "" {
		fmt.Fprint(os.Stderr, name, " ")
		for _, a := range args {
			fmt.Fprint(os.Stderr, a.Key, " ; ")
		}
		fmt.Fprintln(os.Stderr)
	}
	err := func() *Term { return errTerm(e, ins, res) }
	r.Redo(e, st, "")
	switch {
	case strings.HasSuffix(name, "FlagSet).GetBool"):
		if constIs("force")(args[1]) {
			st.auto["force|"+e.in.mk("extract", "0", res).Key] = "1"
		}
	case name == "os.Stat" || name == "os.Lstat":
		st.auto["looked|"+err().Key] = args[0].Key
	case name == "(*bufio.Reader).ReadString" || name == "(*bufio.Reader).ReadLine":
		if st.auto["present"] != "" {
			st.auto["answer|"+e.in.mk("extract", "0", res).Key] = "1"
		}
	case name == "(*bufio.Scanner).Text":
		if st.auto["present"] != "" {
			st.auto["answer|"+res.Key] = "1"
		}
	}
	if ks, ok := newKillers[name]; ok {
		key := "removal " + strings.TrimPrefix(name, "os.") + " in " + fn
		for _, i := range ks {
			var miss []string
			if w := plain(e, st, args[i]); w != "" {
				miss = append(miss, "is made although the name is not known to be a plain directory name: "+w)
			}
			if st.auto["forced"] == "" {
				miss = append(miss, "does not need the option that allows it")
			}
			if st.auto["agreed"] == "" {
				miss = append(miss, "does not need the user's agreement")
			}
			if len(miss) > 0 {
				r.w.rep.fail(key, where, "the removal "+strings.Join(miss, " and "))
			} else {
				r.w.rep.ok(key, where)
			}
		}
		if name == "os.RemoveAll" {
			st.auto["gone|"+err().Key] = args[0].Key
		}
	}
	if i, ok := newMakers[name]; ok {
		key := "creation " + strings.TrimPrefix(name, "os.") + " in " + fn
		r.created++
		p := args[i]
		root, rest := p, []*Term(nil)
		if ps := joinParts(p); len(ps) > 0 {
			root, rest = ps[0], ps[1:]
		}
		var miss []string
		if w := plain(e, st, root); w != "" {
			miss = append(miss, "outside the current directory's entry of that name: "+w)
		}
		r.name = root
		for _, x := range rest {
			if w := r.inside(e, st, x); w != "" {
				miss = append(miss, "outside the project: "+w)
			}
		}
		if st.auto["absent"] != root.Key {
			miss = append(miss, "in a directory that may exist already")
		}
		if len(miss) > 0 {
			r.w.rep.fail(key, where, "something may be created "+strings.Join(miss, " and "))
		} else {
			r.w.rep.ok(key, where)
		}
	}
}


func newProject(w *World) {
	for _, c := range w.need(w.commands(), "new") {
		e := NewEngine(w.prog, w.repo)
		r := &newRule{w: w, cmd: c.Name}
		e.rule = r
		e.keep = func(t *Term) bool {
			return joinParts(t) != nil || t.Op == "extract" && isPureCall(t.Args[0], "path/filepath.Rel") || t.Op == "lookup" || t.Op == "join"
		}
		e.before = func(st *State, name string, args []*Term, site string) {
			if name == "io/fs.WalkDir" && args[0].Op == "iface" && args[0].Str == "embed.FS" {
				st.auto["walk|"+e.in.mk("extract", "0", e.in.mk("call", site)).Key] = args[1].Key
			}
		}
		w.start(e, c.Run)
		w.finish(e)
		w.rep.count("creations followed", r.created)
		if r.created == 0 {
			w.rep.fail("creation", "cli", "anchor unresolved: the command creates nothing")
		}
	}
}
