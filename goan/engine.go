package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Term is an interned symbolic value.
type Term struct {
	Op   string // const, nil, param, call, extract, pure, func, closure, alloc, field, index, load, bin, not, conv, iface, unknown, stale
	Str  string
	Args []*Term
	Key  string
	Fn   *ssa.Function // func, closure
	Typ  types.Type    // of iface contents
	Dep  int
}

type Interner struct{ m map[string]*Term }

func (in *Interner) mk(op, str string, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('(')
	b.WriteString(str)
	d := 0
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(a.Key)
		if a.Dep > d {
			d = a.Dep
		}
	}
	b.WriteByte(')')
	k := b.String()
	if t := in.m[k]; t != nil {
		return t
	}
	t := &Term{Op: op, Str: str, Args: args, Key: k, Dep: d + 1}
	in.m[k] = t
	return t
}

func (t *Term) contains(p func(*Term) bool) bool {
	if p(t) {
		return true
	}
	for _, a := range t.Args {
		if a.contains(p) {
			return true
		}
	}
	return false
}

// mention reports whether the term is derived from a string constant containing s
func (t *Term) mentions(s string) bool {
	return t.contains(func(x *Term) bool { return x.Op == "const" && strings.Contains(x.Str, s) })
}

// State is what is known on one path.
type State struct {
	env   map[ssa.Value]*Term // of the current frame
	cells map[*Term]*Term
	facts map[*Term]bool
	auto  map[string]string
	def   []deferred
}

type deferred struct {
	call *ssa.CallCommon
	fn   *Term
	args []*Term
	site string
	ins  ssa.Instruction
}

func (s *State) clone() *State {
	n := &State{env: make(map[ssa.Value]*Term, len(s.env)), cells: make(map[*Term]*Term, len(s.cells)),
		facts: make(map[*Term]bool, len(s.facts)), auto: make(map[string]string, len(s.auto))}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.auto {
		n.auto[k] = v
	}
	n.def = append([]deferred(nil), s.def...)
	return n
}

func (s *State) key() string {
	var l []string
	for k, v := range s.env {
		l = append(l, "e"+k.Name()+"="+v.Key)
	}
	for k, v := range s.cells {
		l = append(l, "c"+k.Key+"="+v.Key)
	}
	for k, v := range s.facts {
		l = append(l, fmt.Sprintf("f%s=%v", k.Key, v))
	}
	for k, v := range s.auto {
		l = append(l, "a"+k+"="+v)
	}
	for _, d := range s.def {
		l = append(l, "d"+d.site)
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// Rule observes the events of a path.
type Rule interface {
	// Call is told about every call of a function outside the repository (and may be told about inner ones by Enter).
	Call(e *Engine, st *State, name string, args []*Term, res *Term, site string, ins ssa.Instruction)
	// Enter is told about every call of a function of the repository before it is followed.
	Enter(e *Engine, st *State, fn *ssa.Function, args []*Term, ins ssa.Instruction)
	// Redo is told that a call site is executed again: whatever is tracked under it must be settled.
	Redo(e *Engine, st *State, site string)
	// Dead is told that nothing on the path refers to the value the note is about any more; true drops the note.
	Dead(e *Engine, st *State, note string, live func(*Term) bool) bool
}

type outcome struct {
	st   *State
	ret  []*Term
	exit *Term // os.Exit argument
	pan  bool
}

type Engine struct {
	in       *Interner
	prog     *ssa.Program
	repo     func(*ssa.Package) bool
	rule     Rule
	paths    int
	steps    int
	calls    int
	fns      map[string]int
	live     map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	stack    []*ssa.Function
	Problems []string
	maxSteps int
	after    map[ssa.Value]bool
	outer    []*Term
	sents    map[string]bool
	liveAt   map[ssa.Instruction]map[ssa.Value]bool
	consts   map[*ssa.Global]bool
	before   func(st *State, name string, args []*Term, site string) // told about calls that run functions of the repository
	keep     func(*Term) bool // values on which paths are not merged
}

func NewEngine(p *ssa.Program, repo func(*ssa.Package) bool) *Engine {
	return &Engine{in: &Interner{map[string]*Term{}}, prog: p, repo: repo, fns: map[string]int{},
		live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}, maxSteps: 4000000, liveAt: map[ssa.Instruction]map[ssa.Value]bool{}}
}

func (e *Engine) problem(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	for _, p := range e.Problems {
		if p == s {
			return
		}
	}
	e.Problems = append(e.Problems, s)
}

var pure = []string{"strings.", "path/filepath.", "path.", "fmt.Sprint", "strconv.", "unicode.", "bytes.", "(time.", "encoding/hex.", "errors.Is", "net/url.Parse", "(*net/url.URL).", "(*os.File).Name"}
var notPure = map[string]bool{"path/filepath.Walk": true, "path/filepath.WalkDir": true, "path/filepath.EvalSymlinks": true, "path/filepath.Glob": true, "path/filepath.Abs": true,
	"strings.NewReader": true, "bytes.NewReader": true, "bytes.NewBuffer": true, "(*net/url.URL).UnmarshalBinary": true, "strings.NewReplacer": true}

func isPure(n string) bool {
	if notPure[n] {
		return false
	}
	for _, p := range pure {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func (e *Engine) Const(s string) *Term { return e.in.mk("const", s) }
func (e *Engine) Nil() *Term           { return e.in.mk("nil", "") }

func zero(e *Engine, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.Const("false")
		case u.Info()&types.IsString != 0:
			return e.Const(`""`)
		case u.Info()&types.IsNumeric != 0:
			return e.Const("0")
		}
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return e.Nil()
	}
	return e.in.mk("zero", t.String())
}

// val gives the term of an SSA value in the current frame.
func (e *Engine) val(st *State, v ssa.Value) *Term {
	if t := st.env[v]; t != nil {
		return t
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zero(e, x.Type())
		}
		if x.Value.Kind() == constant.String {
			return e.Const(fmt.Sprintf("%q", constant.StringVal(x.Value)))
		}
		return e.Const(x.Value.ExactString())
	case *ssa.Function:
		t := e.in.mk("func", x.String())
		t.Fn = x
		return t
	case *ssa.Global:
		return e.in.mk("glob", x.String())
	case *ssa.Builtin:
		return e.in.mk("builtin", x.Name())
	}
	return e.in.mk("unknown", "v:"+v.Name()+"@"+v.Parent().String())
}

const maxDepth = 24

func (e *Engine) bin(op token.Token, a, b *Term) *Term {
	if op == token.NEQ {
		return e.not(e.bin(token.EQL, a, b))
	}
	if op == token.EQL {
		if a == b && a.Op != "unknown" {
			return e.Const("true")
		}
		if a.Op == "const" && b.Op == "const" {
			return e.Const(fmt.Sprint(a.Str == b.Str))
		}
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			if e.sentinel(p[0]) && (p[1].Op == "nil" || p[1].Op == "call" || p[1].Op == "extract" || p[1].Op == "iface" || p[1].Op == "nonnil" && !strings.HasPrefix(p[1].Str, "join:")) {
				return e.Const("false") // an error value only the repository's own code hands out
			}
			if p[1].Op == "nil" {
				switch p[0].Op {
				case "iface", "alloc", "closure", "func", "slice", "nonnil":
					return e.Const("false")
				}
			}
		}
		if a.Key > b.Key {
			a, b = b, a
		}
		return e.in.mk("eq", "", a, b)
	}
	if a.Op == "const" && b.Op == "const" {
		x := constant.MakeFromLiteral(strings.TrimPrefix(a.Str, "-"), token.INT, 0)
		y := constant.MakeFromLiteral(strings.TrimPrefix(b.Str, "-"), token.INT, 0)
		if x.Kind() == constant.Int && y.Kind() == constant.Int {
			if a.Str[0] == '-' {
				x = constant.UnaryOp(token.SUB, x, 0)
			}
			if b.Str[0] == '-' {
				y = constant.UnaryOp(token.SUB, y, 0)
			}
			switch op {
			case token.LSS, token.GTR, token.LEQ, token.GEQ:
				return e.Const(fmt.Sprint(constant.Compare(x, op, y)))
			case token.OR, token.AND:
				return e.Const(constant.BinaryOp(x, op, y).ExactString())
			}
		}
	}
	// normalise the direction of an ordering
	switch op {
	case token.GTR:
		return e.in.mk("lt", "", b, a)
	case token.LSS:
		return e.in.mk("lt", "", a, b)
	case token.GEQ:
		return e.not(e.in.mk("lt", "", a, b))
	case token.LEQ:
		return e.not(e.in.mk("lt", "", b, a))
	}
	if a.Dep > maxDepth || b.Dep > maxDepth {
		return e.in.mk("unknown", "deep:"+op.String())
	}
	return e.in.mk("bin", op.String(), a, b)
}

// sentinel: the load of an error variable of the repository that is only set by its initialiser to a fresh error.
func (e *Engine) sentinel(t *Term) bool {
	if t.Op != "load" || t.Args[0].Op != "glob" {
		return false
	}
	if e.sents == nil {
		e.sents = map[string]bool{}
		stores := map[string]int{}
		fresh := map[string]bool{}
		for f := range ssautil.AllFunctions(e.prog) {
			if f.Pkg == nil || !e.repo(f.Pkg) {
				continue
			}
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if st, ok := ins.(*ssa.Store); ok {
						if g, ok := st.Addr.(*ssa.Global); ok {
							stores[g.String()]++
							if c, ok := st.Val.(*ssa.Call); ok && c.Call.StaticCallee() != nil {
								n := c.Call.StaticCallee().String()
								fresh[g.String()] = n == "fmt.Errorf" || n == "errors.New"
							}
						}
					}
				}
			}
		}
		for g, n := range stores {
			e.sents[g] = n == 1 && fresh[g]
		}
	}
	return e.sents[t.Args[0].Str]
}

func (e *Engine) not(a *Term) *Term {
	if a.Op == "const" {
		if a.Str == "true" {
			return e.Const("false")
		}
		return e.Const("true")
	}
	if a.Op == "not" {
		return a.Args[0]
	}
	return e.in.mk("not", "", a)
}

// Truth gives the known truth of a boolean term: 1, 0 or -1.
func (e *Engine) Truth(st *State, t *Term) int {
	if t.Op == "const" {
		switch t.Str {
		case "true":
			return 1
		case "false":
			return 0
		}
		return -1
	}
	if t.Op == "not" {
		r := e.Truth(st, t.Args[0])
		if r < 0 {
			return r
		}
		return 1 - r
	}
	if v, ok := st.facts[t]; ok {
		if v {
			return 1
		}
		return 0
	}
	if t.Op == "eq" {
		a, b := t.Args[0], t.Args[1]
		for f, v := range st.facts {
			if !v || f.Op != "eq" {
				continue
			}
			for _, p := range [][2]*Term{{a, b}, {b, a}} {
				for _, q := range [][2]*Term{{f.Args[0], f.Args[1]}, {f.Args[1], f.Args[0]}} {
					// p0 == q1 is known; is p0 == p1 ?
					if p[0] == q[0] {
						r := e.bin(token.EQL, q[1], p[1])
						if r.Op == "const" {
							if r.Str == "true" {
								return 1
							}
							return 0
						}
					}
				}
			}
		}
	}
	return -1
}

func (e *Engine) Assume(st *State, t *Term, v bool) {
	if t.Op == "not" {
		e.Assume(st, t.Args[0], !v)
		return
	}
	if t.Op != "const" && !t.contains(func(x *Term) bool { return x.Op == "unknown" || x.Op == "stale" }) {
		st.facts[t] = v
	}
}

// IsNil gives 1 when t is known to be nil, 0 when known not to be, -1 otherwise.
func (e *Engine) IsNil(st *State, t *Term) int {
	return e.Truth(st, e.bin(token.EQL, t, e.Nil()))
}

// liveIn computes, per block, the values that may still be used from its start.
func (e *Engine) liveIn(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l := e.live[fn]; l != nil {
		return l
	}
	l := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		l[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range l[s] {
					cur[v] = true
				}
				for _, ins := range s.Instrs {
					if p, ok := ins.(*ssa.Phi); ok {
						for k, pr := range s.Preds {
							if pr == b {
								cur[p.Edges[k]] = true
							}
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				ins := b.Instrs[j]
				if v, ok := ins.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				for _, op := range ins.Operands(nil) {
					if *op != nil {
						cur[*op] = true
					}
				}
			}
			for v := range cur {
				if !l[b][v] {
					l[b][v] = true
					ch = true
				}
			}
		}
	}
	e.live[fn] = l
	return l
}

// prune drops what nothing can refer to any more.
func (e *Engine) prune(st *State, live map[ssa.Value]bool, roots []*Term, params []*ssa.Parameter, fvs []*ssa.FreeVar) {
	keep := map[ssa.Value]bool{}
	for v := range live {
		keep[v] = true
	}
	for v := range st.env {
		if !keep[v] {
			delete(st.env, v)
		}
	}
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			visit(a)
		}
		if c := st.cells[t]; c != nil {
			visit(c)
		}
	}
	for _, t := range st.env {
		visit(t)
	}
	for _, t := range roots {
		visit(t)
	}
	for _, d := range st.def {
		if d.fn != nil {
			visit(d.fn)
		}
		for _, a := range d.args {
			visit(a)
		}
	}
	for a, v := range st.cells {
		if a.Op == "glob" {
			visit(v)
		}
	}
	if e.rule != nil {
		var ks []string
		for k := range st.auto {
			if t := e.in.m[autoTerm(k)]; t != nil && !seen[t] {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			if e.rule.Dead(e, st, k, func(t *Term) bool { return seen[t] }) {
				delete(st.auto, k)
			}
		}
	}
	for k := range st.auto {
		if t := e.in.m[autoTerm(k)]; t != nil {
			visit(t)
		}
	}
	// cells whose address is derived from something reachable stay
	for ch := true; ch; {
		ch = false
		for a, v := range st.cells {
			if !seen[a] && len(a.Args) > 0 && seen[a.Args[0]] || strings.HasPrefix(a.Op, "glob") && !seen[a] {
				seen[a] = true
				visit(v)
				ch = true
			}
		}
	}
	for a := range st.cells {
		if !seen[a] {
			delete(st.cells, a)
		}
	}
	var alive func(t *Term) bool
	alive = func(t *Term) bool {
		if seen[t] || t.Op == "glob" {
			return true
		}
		switch t.Op {
		case "pure", "extract", "load", "fieldaddr", "field", "len", "conv", "eq", "lookup", "slice", "slice3", "indexaddr", "index", "lt", "iface", "isType", "assert", "not", "bin":
			for _, a := range t.Args {
				if a.Op == "const" || a.Op == "nil" {
					continue
				}
				if !alive(a) {
					return false
				}
			}
			return true
		case "param":
			return true
		}
		return false
	}
	for f := range st.facts {
		if !alive(f) {
			delete(st.facts, f)
		}
	}
}

func hasGlob(t *Term) bool { return t.contains(func(x *Term) bool { return x.Op == "glob" }) }

// autoTerm extracts the term key a rule's note is about ("kind|termkey").
func autoTerm(k string) string {
	if i := strings.Index(k, "|"); i >= 0 {
		return k[i+1:]
	}
	return ""
}

// Run executes fn with the given arguments from st; st is consumed.
func (e *Engine) Run(fn *ssa.Function, args []*Term, bindings []*Term, st *State, ctx string) []outcome {
	for _, f := range e.stack {
		if f == fn {
			e.problem("recursion through %s is not followed", fn)
			return []outcome{{st: st, ret: e.unknownResults(fn.Signature, "rec:"+fn.String())}}
		}
	}
	if len(fn.Blocks) == 0 {
		e.problem("no body for %s", fn)
		return nil
	}
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	e.fns[fn.String()]++
	saved, savedDef := st.env, st.def
	var roots []*Term
	for v, t := range saved {
		if e.after == nil || e.after[v] {
			roots = append(roots, t)
		}
	}
	for _, d := range savedDef {
		if d.fn != nil {
			roots = append(roots, d.fn)
		}
		roots = append(roots, d.args...)
	}
	e.after = nil
	roots = append(roots, e.outer...)
	outerSaved := e.outer
	e.outer = roots
	defer func() { e.outer = outerSaved }()
	s0 := st.clone()
	s0.env = map[ssa.Value]*Term{}
	s0.def = nil
	for i, p := range fn.Params {
		if i < len(args) {
			s0.env[p] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(bindings) {
			s0.env[f] = bindings[i]
		}
	}
	live := e.liveIn(fn)
	order := rpo(fn)
	type slot struct {
		b *ssa.BasicBlock
		k string
	}
	acc := map[slot]*State{}
	queued := map[slot]bool{}
	var queue []slot
	var outs []outcome
	outAcc := map[string]int{}
	emit := func(o outcome) {
		o.st.env, o.st.def = map[ssa.Value]*Term{}, nil
		c := o.st.clone()
		c.env = map[ssa.Value]*Term{}
		for k, v := range saved {
			c.env[k] = v
		}
		c.def = append([]deferred(nil), savedDef...)
		o.st = c
		e.prune2(c, append(append([]*Term{}, roots...), o.ret...))
		if e.rule != nil {
			e.rule.Redo(e, c, "")
		}
		var k strings.Builder
		for _, r := range o.ret {
			k.WriteString(e.relevant(c, r))
			k.WriteByte(';')
		}
		if o.exit != nil {
			k.WriteString("exit" + o.exit.Key)
		}
		if o.pan {
			k.WriteString("panic")
		}
		ks := k.String() + e.joinKey(c)
		if i, ok := outAcc[ks]; ok {
			for j := range o.ret {
				if outs[i].ret[j] != o.ret[j] {
					outs[i].ret[j] = e.joinTerm(outs[i].st, c, outs[i].ret[j], o.ret[j], fmt.Sprintf("ret%d@%s", j, fn))
				}
			}
			e.join(outs[i].st, c, "ret@"+fn.String())
			return
		}
		outAcc[ks] = len(outs)
		o.ret = append([]*Term(nil), o.ret...)
		outs = append(outs, o)
	}
	enter := func(b, from *ssa.BasicBlock, st *State) {
		var pv []*Term
		var ph []*ssa.Phi
		for _, ins := range b.Instrs {
			p, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			for k, pr := range b.Preds {
				if pr == from {
					ph = append(ph, p)
					pv = append(pv, e.val(st, p.Edges[k]))
					break
				}
			}
		}
		for i, p := range ph {
			st.env[p] = pv[i]
		}
		lv := map[ssa.Value]bool{}
		for v := range live[b] {
			lv[v] = true
		}
		for _, p := range ph {
			lv[p] = true
		}
		if e.rule != nil {
			e.rule.Redo(e, st, "")
		}
		e.prune(st, lv, roots, fn.Params, fn.FreeVars)
		sl := slot{b, e.joinKey(st)}
		if old := acc[sl]; old != nil {
			if !e.join(old, st, fmt.Sprintf("%s#%d", fn, b.Index)) {
				return
			}
		} else {
			acc[sl] = st
		}
		if !queued[sl] {
			queued[sl] = true
			queue = append(queue, sl)
		}
	}
	enter(fn.Blocks[0], nil, s0)
	for len(queue) > 0 {
		best := 0
		for i := range queue {
			if order[queue[i].b] < order[queue[best].b] {
				best = i
			}
		}
		it := queue[best]
		queue = append(queue[:best], queue[best+1:]...)
		queued[it] = false
		st := acc[it].clone()
		e.steps++
		if os.Getenv("GOAN_TRACE") != "" && e.steps%2000 == 0 {
			fmt.Fprintln(os.Stderr, e.steps, fn, it.b.Index, len(st.facts), len(st.cells), len(st.auto))
			if e.steps%20000 == 0 {
				fmt.Fprintln(os.Stderr, st.key())
			}
		}
		if e.steps > e.maxSteps {
			e.problem("too many states in %s", fn)
			return outs
		}
		states := []*State{st}
		for _, ins := range it.b.Instrs {
			var next []*State
			term := false
			for _, s := range states {
				switch x := ins.(type) {
				case *ssa.Phi:
					next = append(next, s)
				case *ssa.If:
					c := e.val(s, x.Cond)
					switch e.Truth(s, c) {
					case 1:
						enter(it.b.Succs[0], it.b, s)
					case 0:
						enter(it.b.Succs[1], it.b, s)
					default:
						t, f := s.clone(), s
						e.Assume(t, c, true)
						e.Assume(f, c, false)
						enter(it.b.Succs[0], it.b, t)
						enter(it.b.Succs[1], it.b, f)
					}
					term = true
				case *ssa.Jump:
					enter(it.b.Succs[0], it.b, s)
					term = true
				case *ssa.Return:
					var r []*Term
					for _, v := range x.Results {
						r = append(r, e.val(s, v))
					}
					e.paths++
					emit(outcome{st: s, ret: r})
					term = true
				case *ssa.Panic:
					e.paths++
					emit(outcome{st: s, pan: true})
					term = true
				case *ssa.RunDefers:
					e.after = nil
					ss := []*State{s}
					ds := s.def
					s.def = nil
					for i := len(ds) - 1; i >= 0; i-- {
						var n []*State
						for _, q := range ss {
							for _, o := range e.callTerm(q, ds[i].call, ds[i].fn, ds[i].args, ds[i].site, ds[i].ins, ctx) {
								if o.exit != nil || o.pan {
									emit(o)
									continue
								}
								n = append(n, o.st)
							}
						}
						ss = n
					}
					next = append(next, ss...)
				case *ssa.Call:
					site := ctx + "/" + siteOf(x)
					e.after = e.liveAfter(x)
					for _, o := range e.callTerm(s, &x.Call, e.calleeTerm(s, &x.Call), e.argTerms(s, &x.Call), site, x, ctx) {
						if o.exit != nil || o.pan {
							emit(o)
							continue
						}
						if len(o.ret) == 1 {
							o.st.env[x] = o.ret[0]
						} else if len(o.ret) > 1 {
							o.st.env[x] = e.in.mk("tuple", "", o.ret...)
						}
						next = append(next, o.st)
					}
				default:
					e.instr(s, ins, ctx)
					next = append(next, s)
				}
			}
			if term {
				break
			}
			states = next
			if len(states) == 0 {
				break
			}
		}
	}
	return outs
}

// rpo numbers the blocks in reverse postorder.
func rpo(fn *ssa.Function) map[*ssa.BasicBlock]int {
	n := map[*ssa.BasicBlock]int{}
	var post []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i, b := range post {
		n[b] = len(post) - i
	}
	return n
}

// relevant describes the part of a value that keeps states apart when paths meet.
func (e *Engine) relevant(st *State, t *Term) string {
	switch t.Op {
	case "const", "nil", "func", "closure":
		return t.Key
	case "nonnil":
		return "nonnil"
	case "iface":
		return "iface" + t.Str
	}
	if e.sentinel(t) || e.keep != nil && e.keep(t) {
		return t.Key
	}
	if t.contains(func(x *Term) bool { return (x.Op == "call") && e.tracked(st, x) }) {
		return fmt.Sprint(t.Key, e.IsNil(st, t))
	}
	if t.Op == "eq" || t.Op == "not" || t.Op == "lt" {
		return fmt.Sprint("b", e.Truth(st, t))
	}
	if n := e.IsNil(st, t); n >= 0 {
		return fmt.Sprint("n", n)
	}
	if n := e.Truth(st, t); n >= 0 {
		return fmt.Sprint("t", n)
	}
	return "?"
}

// tracked: the rule keeps a note about the result of this call.
func (e *Engine) tracked(st *State, x *Term) bool {
	for k := range st.auto {
		if strings.Contains(k, x.Key) {
			return true
		}
	}
	return false
}

func (e *Engine) joinKey(st *State) string {
	var l []string
	for k, v := range st.env {
		l = append(l, "e"+k.Name()+"="+e.relevant(st, v))
	}
	for k, v := range st.cells {
		if r := e.relevant(st, v); e.keep != nil && e.keep(v) || strings.HasPrefix(r, "call") || strings.HasPrefix(r, "extract") || r == "nonnil" || v.Op == "nil" || v.Op == "closure" || v.Key == "const(true)" || v.Key == "const(false)" {
			l = append(l, "c"+k.Key+"="+r)
		}
	}
	for k, v := range st.auto {
		s := "a" + k + "=" + v
		if i := strings.Index(k, "|"); i >= 0 {
			if t := e.in.m[k[i+1:]]; t != nil {
				s += fmt.Sprint(e.IsNil(st, t), e.Truth(st, t), e.Truth(st, e.bin(token.EQL, t, e.Const("0"))))
			}
		}
		l = append(l, s)
	}
	for _, d := range st.def {
		l = append(l, "d"+d.site)
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func (e *Engine) joinTerm(sa, sb *State, a, b *Term, site string) *Term {
	if a == b {
		return a
	}
	if e.IsNil(sa, a) == 0 && e.IsNil(sb, b) == 0 && a.Op != "const" && b.Op != "const" {
		return e.in.mk("nonnil", "join:"+site)
	}
	if x := e.Truth(sa, a); x >= 0 && x == e.Truth(sb, b) && !(a.Op == "const" && a.Str != "true" && a.Str != "false") {
		return e.Const(map[int]string{1: "true", 0: "false"}[x])
	}
	return e.in.mk("join", site)
}

// freshJoin forgets what a state knows about an earlier value of a join term.
func (e *Engine) freshJoin(st *State, t *Term) {
	e.rename(st, func(x *Term) bool { return x == t }, t.Key)
}

// join merges b into a and reports whether a changed.
func (e *Engine) join(a, b *State, site string) bool {
	ch := false
	for k, v := range a.env {
		w, ok := b.env[k]
		if !ok {
			delete(a.env, k)
			ch = true
			continue
		}
		if v == w {
			continue
		}
		n := e.joinTerm(a, b, v, w, k.Name()+"@"+site)
		if n.Op == "join" {
			e.freshJoin(b, n)
			if n != v {
				e.freshJoin(a, n)
			}
		}
		if n != v {
			a.env[k] = n
			ch = true
		}
	}
	for k, v := range a.cells {
		w, ok := b.cells[k]
		if !ok {
			w = e.in.mk("unknown", "gone")
		}
		if v == w {
			continue
		}
		n := e.joinTerm(a, b, v, w, k.Key+"@"+site)
		if n.Op == "join" {
			e.freshJoin(b, n)
			if n != v {
				e.freshJoin(a, n)
			}
		}
		if n != v {
			a.cells[k] = n
			ch = true
		}
	}
	for k, w := range b.cells {
		if _, ok := a.cells[k]; !ok {
			a.cells[k] = e.joinTerm(a, b, e.in.mk("unknown", "gone"), w, k.Key+"@"+site)
			ch = true
		}
	}
	for f, v := range a.facts {
		if w, ok := b.facts[f]; !ok || w != v {
			if e.Truth(b, f) == map[bool]int{true: 1, false: 0}[v] {
				continue
			}
			delete(a.facts, f)
			ch = true
		}
	}
	return ch
}

// liveAfter gives the values that may be used after an instruction.
func (e *Engine) liveAfter(at ssa.Instruction) map[ssa.Value]bool {
	if l := e.liveAt[at]; l != nil {
		return l
	}
	b := at.Block()
	in := e.liveIn(at.Parent())
	cur := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		for v := range in[s] {
			cur[v] = true
		}
		for _, ins := range s.Instrs {
			if p, ok := ins.(*ssa.Phi); ok {
				for k, pr := range s.Preds {
					if pr == b {
						cur[p.Edges[k]] = true
					}
				}
			}
		}
	}
	for j := len(b.Instrs) - 1; j >= 0; j-- {
		if b.Instrs[j] == at {
			break
		}
		if v, ok := b.Instrs[j].(ssa.Value); ok {
			delete(cur, v)
		}
		for _, op := range b.Instrs[j].Operands(nil) {
			if *op != nil {
				cur[*op] = true
			}
		}
	}
	e.liveAt[at] = cur
	return cur
}

// prune2 drops cells and facts about terms nothing outside the finished call refers to.
func (e *Engine) prune2(st *State, roots []*Term) {
	env, def := st.env, st.def
	st.env, st.def = map[ssa.Value]*Term{}, nil
	e.prune(st, nil, roots, nil, nil)
	st.env, st.def = env, def
}

func siteOf(ins ssa.Instruction) string {
	b := ins.Block()
	for i, x := range b.Instrs {
		if x == ins {
			return fmt.Sprintf("%s#%d.%d", ins.Parent().RelString(nil), b.Index, i)
		}
	}
	return "?"
}

func (e *Engine) calleeTerm(st *State, c *ssa.CallCommon) *Term {
	if c.IsInvoke() {
		return e.in.mk("method", c.Method.FullName(), e.val(st, c.Value))
	}
	return e.val(st, c.Value)
}

func (e *Engine) argTerms(st *State, c *ssa.CallCommon) []*Term {
	var r []*Term
	if c.IsInvoke() {
		r = append(r, e.val(st, c.Value))
	}
	for _, a := range c.Args {
		r = append(r, e.val(st, a))
	}
	return r
}

func (e *Engine) unknownResults(sig *types.Signature, site string) []*Term {
	var r []*Term
	n := sig.Results().Len()
	call := e.in.mk("call", site)
	if n == 1 {
		return []*Term{call}
	}
	for i := 0; i < n; i++ {
		r = append(r, e.in.mk("extract", fmt.Sprint(i), call))
	}
	return r
}

// redo renames what an earlier execution of the same site left behind.
func (e *Engine) redo(st *State, site string) {
	is := func(t *Term) bool {
		return (t.Op == "call" || t.Op == "alloc" || t.Op == "closure" || t.Op == "arith") && t.Str == site || t.Op == "after" && strings.HasPrefix(t.Str, site+":")
	}
	if e.mentions(st, "("+site) {
		if e.rule != nil {
			e.rule.Redo(e, st, site)
		}
		e.rename(st, is, "("+site)
	}
}

// mentions reports whether a state has a term or note with the text in its key.
func (e *Engine) mentions(st *State, text string) bool {
	for _, v := range st.env {
		if strings.Contains(v.Key, text) {
			return true
		}
	}
	for a, v := range st.cells {
		if strings.Contains(a.Key, text) || strings.Contains(v.Key, text) {
			return true
		}
	}
	for f := range st.facts {
		if strings.Contains(f.Key, text) {
			return true
		}
	}
	for k := range st.auto {
		if strings.Contains(k, text) {
			return true
		}
	}
	return false
}

// rename turns the terms is selects into stale ones.
func (e *Engine) rename(st *State, is func(*Term) bool, text string) {
	if !e.mentions(st, text) {
		return
	}
	has := func(t *Term) bool { return strings.Contains(t.Key, text) && t.contains(is) }
	memo := map[*Term]*Term{}
	var ren func(t *Term) *Term
	ren = func(t *Term) *Term {
		if r := memo[t]; r != nil {
			return r
		}
		r := t
		if is(t) {
			r = e.in.mk("stale", t.Op+":"+t.Str)
		} else if has(t) {
			var as []*Term
			for _, a := range t.Args {
				as = append(as, ren(a))
			}
			r = e.in.mk(t.Op, t.Str, as...)
			r.Fn, r.Typ = t.Fn, t.Typ
		}
		memo[t] = r
		return r
	}
	for k, v := range st.env {
		st.env[k] = ren(v)
	}
	nc := map[*Term]*Term{}
	for a, v := range st.cells {
		if has(a) {
			// an older instance of the cell: its content is no longer tracked
			continue
		}
		nc[a] = ren(v)
	}
	st.cells = nc
	nf := map[*Term]bool{}
	for f, v := range st.facts {
		if !has(f) {
			nf[f] = v
		}
	}
	st.facts = nf
	for i := range st.def {
		if st.def[i].fn != nil {
			st.def[i].fn = ren(st.def[i].fn)
		}
		as := make([]*Term, len(st.def[i].args))
		for j, a := range st.def[i].args {
			as[j] = ren(a)
		}
		st.def[i].args = as
	}
}

func (e *Engine) instr(st *State, ins ssa.Instruction, ctx string) {
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		site := ctx + "/" + siteOf(x)
		e.redo(st, site)
		t := e.in.mk("alloc", site)
		t.Typ = x.Type()
		st.env[x] = t
		st.cells[t] = zero(e, x.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.Store:
		a := e.val(st, x.Addr)
		st.cells[a] = e.val(st, x.Val)
		for c := range st.cells {
			// a whole-value store invalidates what was known about its parts
			if c != a && c.contains(func(t *Term) bool { return t == a }) {
				delete(st.cells, c)
			}
		}
	case *ssa.UnOp:
		v := e.val(st, x.X)
		switch x.Op {
		case token.MUL:
			st.env[x] = e.load(st, v, x.Type())
		case token.NOT:
			st.env[x] = e.not(v)
		case token.ARROW:
			site := ctx + "/" + siteOf(x)
			e.redo(st, site)
			st.env[x] = e.in.mk("call", site)
		default:
			if v.Op == "const" && x.Op == token.SUB {
				st.env[x] = e.Const("-" + v.Str)
			} else {
				st.env[x] = e.in.mk("un", x.Op.String(), v)
			}
		}
	case *ssa.BinOp:
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 && x.Op != token.OR && x.Op != token.AND {
			// counters are not followed
			site := ctx + "/" + siteOf(x)
			e.redo(st, site)
			st.env[x] = e.in.mk("arith", site)
			return
		}
		st.env[x] = e.bin(x.Op, e.val(st, x.X), e.val(st, x.Y))
	case *ssa.Extract:
		t := e.val(st, x.Tuple)
		if t.Op == "tuple" {
			st.env[x] = t.Args[x.Index]
		} else {
			st.env[x] = e.in.mk("extract", fmt.Sprint(x.Index), t)
		}
	case *ssa.FieldAddr:
		st.env[x] = e.in.mk("fieldaddr", fieldName(x.X.Type(), x.Field), e.val(st, x.X))
	case *ssa.Field:
		v := e.val(st, x.X)
		st.env[x] = e.in.mk("field", fieldName(x.X.Type(), x.Field), v)
		if v.Op == "load" {
			st.env[x] = e.load(st, e.in.mk("fieldaddr", fieldName(x.X.Type(), x.Field), v.Args[0]), x.Type())
		}
	case *ssa.IndexAddr:
		st.env[x] = e.in.mk("indexaddr", "", e.val(st, x.X), e.val(st, x.Index))
	case *ssa.Index:
		st.env[x] = e.in.mk("index", "", e.val(st, x.X), e.val(st, x.Index))
	case *ssa.Lookup:
		m, k := e.val(st, x.X), e.val(st, x.Index)
		site := ctx + "/" + siteOf(x)
		if m.Op == "nil" { // nothing is in a nil map
			if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
				z := zero(e, mt.Elem())
				if x.CommaOk {
					z = e.in.mk("tuple", "", z, e.Const("false"))
				}
				st.env[x] = z
				break
			}
		}
		if x.CommaOk {
			e.redo(st, site)
			st.env[x] = e.in.mk("lookup", "ok@"+site, m, k)
		} else {
			st.env[x] = e.in.mk("lookup", "", m, k)
		}
	case *ssa.MakeInterface:
		t := e.in.mk("iface", x.X.Type().String(), e.val(st, x.X))
		t.Typ = x.X.Type()
		st.env[x] = t
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, e.val(st, b))
		}
		t := e.in.mk("closure", x.Fn.String(), bs...)
		t.Fn = x.Fn.(*ssa.Function)
		st.env[x] = t
	case *ssa.ChangeType:
		st.env[x] = e.val(st, x.X)
	case *ssa.ChangeInterface:
		st.env[x] = e.val(st, x.X)
	case *ssa.Convert:
		v := e.val(st, x.X)
		if v.Op == "const" {
			st.env[x] = v
		} else {
			st.env[x] = e.in.mk("conv", x.Type().String(), v)
		}
	case *ssa.Slice:
		v := e.val(st, x.X)
		if v.Op == "alloc" { // array literal behind a variadic call or composite
			var el []*Term
			for i := 0; ; i++ {
				c, ok := st.cells[e.in.mk("indexaddr", "", v, e.Const(fmt.Sprint(i)))]
				if !ok {
					break
				}
				el = append(el, c)
			}
			st.env[x] = e.in.mk("slice", "", el...)
			return
		}
		as := []*Term{v}
		for _, o := range []ssa.Value{x.Low, x.High} {
			if o == nil {
				as = append(as, e.Nil())
			} else {
				as = append(as, e.val(st, o))
			}
		}
		st.env[x] = e.cap(e.in.mk("slice3", "", as...))
	case *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeSlice:
		site := ctx + "/" + siteOf(ins)
		e.redo(st, site)
		st.env[ins.(ssa.Value)] = e.in.mk("alloc", site)
	case *ssa.TypeAssert:
		v := e.val(st, x.X)
		tn := x.AssertedType.String()
		in := e.in.mk("assert", tn, v)
		if v.Op == "iface" && types.Identical(v.Typ, x.AssertedType) {
			in = v.Args[0]
		}
		if x.CommaOk {
			ok := e.in.mk("isType", tn, v)
			if v.Op == "iface" && !types.IsInterface(x.AssertedType) {
				ok = e.Const(fmt.Sprint(types.Identical(v.Typ, x.AssertedType)))
			}
			st.env[x] = e.in.mk("tuple", "", in, ok)
		} else {
			st.env[x] = in
		}
	case *ssa.Range:
		site := ctx + "/" + siteOf(x)
		e.redo(st, site)
		st.env[x] = e.in.mk("alloc", site)
	case *ssa.Next:
		site := ctx + "/" + siteOf(x)
		e.redo(st, site)
		st.env[x] = e.in.mk("call", site, e.val(st, x.Iter))
	case *ssa.MapUpdate:
	case *ssa.Send:
	case *ssa.Defer:
		st.def = append(st.def, deferred{&x.Call, e.calleeTerm(st, &x.Call), e.argTerms(st, &x.Call), ctx + "/" + siteOf(x), x})
	case *ssa.Go:
		site := ctx + "/" + siteOf(x)
		e.callTerm(st.clone(), &x.Call, e.calleeTerm(st, &x.Call), e.argTerms(st, &x.Call), site, x, ctx)
	case *ssa.Select:
		site := ctx + "/" + siteOf(x)
		e.redo(st, site)
		st.env[x] = e.in.mk("call", site)
	default:
		e.problem("instruction %T in %s is not modelled", ins, ins.Parent())
		if v, ok := ins.(ssa.Value); ok {
			st.env[v] = e.in.mk("unknown", siteOf(ins))
		}
	}
}

func (e *Engine) cap(t *Term) *Term {
	if t.Dep > maxDepth {
		return e.in.mk("unknown", "deep:"+t.Op)
	}
	return t
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.Underlying().(*types.Struct).Field(i).Name()
}

func (e *Engine) load(st *State, a *Term, typ types.Type) *Term {
	if v, ok := st.cells[a]; ok {
		if v.Op == "zero" {
			return v
		}
		return v
	}
	if len(a.Args) > 0 && (a.Op == "fieldaddr") {
		if v, ok := st.cells[a.Args[0]]; ok {
			if v.Op == "zero" {
				return zero(e, typ)
			}
			return e.in.mk("field", a.Str, v)
		}
	}
	return e.in.mk("load", "", a)
}

// callTerm performs a call and returns its outcomes; st is consumed.
func (e *Engine) callTerm(st *State, c *ssa.CallCommon, fn *Term, args []*Term, site string, ins ssa.Instruction, ctx string) []outcome {
	e.calls++
	after := e.after
	if fn.Op == "builtin" {
		return []outcome{{st: st, ret: []*Term{e.builtin(st, fn.Str, args, site)}}}
	}
	if (fn.Op == "func" || fn.Op == "closure") && fn.Fn != nil && fn.Fn.Pkg != nil && e.repo(fn.Fn.Pkg) && len(fn.Fn.Blocks) > 0 {
		if e.rule != nil {
			e.rule.Enter(e, st, fn.Fn, args, ins)
		}
		var b []*Term
		if fn.Op == "closure" {
			b = fn.Args
		}
		return e.Run(fn.Fn, args, b, st, site)
	}
	name := fn.Str
	if fn.Op != "func" && fn.Op != "method" {
		name = "dynamic"
	}
	if name == "os.Exit" {
		return []outcome{{st: st, exit: args[0]}}
	}
	if isPure(name) {
		r := e.cap(e.in.mk("pure", name, args...))
		n := c.Signature().Results().Len()
		if n <= 1 {
			return []outcome{{st: st, ret: []*Term{r}}}
		}
		var rs []*Term
		for i := 0; i < n; i++ {
			rs = append(rs, e.in.mk("extract", fmt.Sprint(i), r))
		}
		return []outcome{{st: st, ret: rs}}
	}
	e.redo(st, site)
	if name == "fmt.Errorf" || name == "errors.New" {
		return []outcome{{st: st, ret: []*Term{e.in.mk("nonnil", name, e.in.mk("call", site, args...))}}}
	}
	if name == "errors.Join" && len(args) == 1 && args[0].Op == "slice" {
		// nil exactly when every argument is
		sts := []*State{st}
		var outs []outcome
		for _, a := range args[0].Args {
			var next []*State
			for _, s := range sts {
				switch e.IsNil(s, a) {
				case 1:
					next = append(next, s)
				case 0:
					outs = append(outs, outcome{st: s, ret: []*Term{e.in.mk("nonnil", "errors.Join")}})
				default:
					f := s.clone()
					e.Assume(f, e.bin(token.EQL, a, e.Nil()), false)
					outs = append(outs, outcome{st: f, ret: []*Term{e.in.mk("nonnil", "errors.Join")}})
					e.Assume(s, e.bin(token.EQL, a, e.Nil()), true)
					next = append(next, s)
				}
			}
			sts = next
		}
		for _, s := range sts {
			outs = append(outs, outcome{st: s, ret: []*Term{e.Nil()}})
		}
		return outs
	}
	var capped []*Term
	for _, a := range args {
		capped = append(capped, e.cap(a))
	}
	call := e.in.mk("call", site)
	var rets []*Term
	n := c.Signature().Results().Len()
	if n == 1 {
		rets = []*Term{call}
	} else {
		for i := 0; i < n; i++ {
			rets = append(rets, e.in.mk("extract", fmt.Sprint(i), call))
		}
	}
	// higher-order calls run their repository closures any number of times
	sts := []*State{st}
	var outs []outcome
	for i, a := range args {
		if (a.Op == "closure" || a.Op == "func") && a.Fn != nil && a.Fn.Pkg != nil && e.repo(a.Fn.Pkg) {
			if e.before != nil {
				for _, s := range sts {
					e.before(s, name, args, fmt.Sprintf("%s!%d", site, i))
				}
			}
			var all []*State
			seen := map[string]bool{}
			work := sts
			failed := []*State{}
			for len(work) > 0 {
				s := work[len(work)-1]
				work = work[:len(work)-1]
				k := s.key()
				if seen[k] {
					continue
				}
				seen[k] = true
				all = append(all, s.clone())
				var pa []*Term
				csite := fmt.Sprintf("%s!%d", site, i)
				e.redo(s, csite)
				for j := range a.Fn.Params {
					pa = append(pa, e.in.mk("extract", fmt.Sprint(j), e.in.mk("call", csite)))
				}
				var b []*Term
				if a.Op == "closure" {
					b = a.Args
				}
				e.after = after
				outer := e.outer
				e.outer = append(append([]*Term(nil), outer...), args...)
				res := e.Run(a.Fn, pa, b, s, csite)
				e.outer = outer
				for _, o := range res {
					if o.exit != nil || o.pan {
						outs = append(outs, o)
						continue
					}
					// an error returned by the callback ends the call with an error
					if len(o.ret) == 1 && n >= 1 && isErr(a.Fn.Signature.Results().At(0).Type()) && isErr(c.Signature().Results().At(n-1).Type()) {
						switch e.IsNil(o.st, o.ret[0]) {
						case 0:
							failed = append(failed, o.st)
							continue
						case -1:
							f := o.st.clone()
							e.Assume(f, e.bin(token.EQL, o.ret[0], e.Nil()), false)
							failed = append(failed, f)
							e.Assume(o.st, e.bin(token.EQL, o.ret[0], e.Nil()), true)
						}
					}
					if name == "(*sync.Once).Do" {
						all = append(all, o.st)
						continue
					}
					work = append(work, o.st)
				}
			}
			if n >= 1 && isErr(c.Signature().Results().At(n-1).Type()) {
				for _, f := range failed {
					e.Assume(f, e.bin(token.EQL, rets[n-1], e.Nil()), false)
				}
				all = append(all, failed...)
			}
			sts = all
		}
	}
	for _, s := range sts {
		// memory reachable from pointer arguments may change
		if !readsOnly(name) {
			for _, a := range args {
				e.havoc(s, a, site)
			}
		}
		if e.rule != nil {
			e.rule.Call(e, s, name, capped, call, site, ins)
		}
		outs = append(outs, outcome{st: s, ret: rets})
	}
	return outs
}

func isErr(t types.Type) bool { return t.String() == "error" }

func readsOnly(n string) bool {
	return strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "fmt.Fprint") || strings.HasPrefix(n, "(*sync.") || strings.HasPrefix(n, "os.")
}

func (e *Engine) havoc(st *State, a *Term, site string) {
	if a.Op == "iface" {
		a = a.Args[0]
	}
	for c := range st.cells {
		if c.Op != "glob" && (c == a || c.contains(func(t *Term) bool { return t == a })) && a.contains(func(t *Term) bool { return t.Op == "alloc" }) {
			if c == a || c.Op == "fieldaddr" || c.Op == "indexaddr" {
				st.cells[c] = e.in.mk("after", site+":"+c.Key)
			}
		}
	}
}

func (e *Engine) builtin(st *State, name string, args []*Term, site string) *Term {
	switch name {
	case "append":
		return e.cap(e.in.mk("append", "", args...))
	case "len", "cap":
		if args[0].Op == "const" && strings.HasPrefix(args[0].Str, `"`) {
			return e.in.mk("len", "", args...)
		}
		return e.in.mk(name, "", args...)
	}
	return e.in.mk("builtin", name, args...)
}

func (e *Engine) Pos(ins ssa.Instruction) string {
	p := e.prog.Fset.Position(ins.Pos())
	f := p.Filename
	for _, d := range []string{"/cli/", "/internal/"} {
		if i := strings.LastIndex(f, d); i >= 0 {
			f = f[i+1:]
		}
	}
	return fmt.Sprintf("%s:%d (%s)", f, p.Line, ins.Parent().RelString(nil))
}
