// Command instr copies the repository's non-test packages into one scratch
// module and rewrites every source of nondeterminism (goroutines, channels,
// select, locks, timers, randomness, file reads, stdout, map order) to the
// simulator package, adds a scheduling point before every statement, and
// generates a reset of all package state so that one process can run many
// simulations, each from the state of a fresh process.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	Standard   bool
	Imports    []string
	Error      *struct{ Err string }
}

const sim = "zzsim"

// replacement tables: package path -> selector -> expression in zzsim
var repl = map[string]map[string]string{
	"sync": {"Mutex": "Mutex", "RWMutex": "RWMutex", "WaitGroup": "WaitGroup", "Once": "Once", "Cond": "Cond", "NewCond": "NewCond",
		"Pool": "Pool", "Map": "Map", "OnceFunc": "OnceFunc", "OnceValue": "OnceValue", "OnceValues": "OnceValues"},
	"time": {"Now": "TimeNow", "Since": "TimeSince", "Until": "TimeUntil", "Sleep": "TimeSleep", "After": "TimeAfter", "NewTimer": "NewTimer",
		"AfterFunc": "AfterFunc", "Timer": "Timer", "NewTicker": "NewTicker", "Ticker": "Ticker", "Tick": "TimeTick"},
	"crypto/rand": {"Reader": "RandReader", "Read": "RandRead", "Int": "RandInt", "Prime": "RandPrime", "Text": "RandText"},
	"io/ioutil":   {"ReadFile": "ReadFile", "WriteFile": "WriteFile"},
	"os": {"ReadFile": "ReadFile", "Open": "Open", "File": "File", "Exit": "Exit", "Getenv": "Getenv", "Stat": "Stat", "Lstat": "Stat",
		"WriteFile": "WriteFile", "Create": "Create", "OpenFile": "OpenFile", "Remove": "Remove", "Stdout": "Stdout", "Stderr": "Stderr"},
	"context": {"Context": "Context", "CancelFunc": "CancelFunc", "CancelCauseFunc": "CancelCauseFunc", "Background": "Background", "TODO": "Background",
		"WithCancel": "WithCancel", "WithCancelCause": "WithCancelCause", "Cause": "CtxCause", "WithTimeout": "WithTimeout", "WithDeadline": "WithDeadline", "WithValue": "WithValue"},
	"fmt":         {"Println": "Println", "Printf": "Printf", "Print": "Print"},
	"log":         {"Fatal": "LogFatal", "Fatalln": "LogFatal", "Fatalf": "LogFatalf", "Print": "LogPrint", "Println": "LogPrint", "Printf": "LogPrintf"},
	"runtime":     {"NumCPU": "NumCPU", "GOMAXPROCS": "GOMAXPROCS", "NumGoroutine": "NumGoroutine", "Gosched": "Gosched"},
}

var banned = map[string]bool{"net": true, "net/http": true, "os/exec": true, "os/signal": true, "syscall": true}

type site struct{ pos string }

type rewriter struct {
	fset   *token.FileSet
	info   *types.Info
	pkg    *types.Package
	root   string
	sites  *[]site
	tmp    int
	lhs    map[ast.Expr]bool
	two    map[ast.Expr]bool
	selDef map[ast.Node]bool
}

func (r *rewriter) fail(n ast.Node, f string, a ...interface{}) {
	die("%s: %s", r.fset.Position(n.Pos()), fmt.Sprintf(f, a...))
}

func (r *rewriter) site(n ast.Node) ast.Expr {
	p := r.fset.Position(n.Pos())
	rel, _ := filepath.Rel(r.root, p.Filename)
	*r.sites = append(*r.sites, site{fmt.Sprintf("%s:%d", rel, p.Line)})
	return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(*r.sites))}
}

func id(s string) *ast.Ident { return ast.NewIdent(s) }
func sel(x ast.Expr, s string) ast.Expr {
	return &ast.SelectorExpr{X: x, Sel: id(s)}
}
func simSel(s string) ast.Expr { return sel(id(sim), s) }
func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: f, Args: a}
}
func paren(e ast.Expr) ast.Expr {
	switch e.(type) {
	case *ast.Ident, *ast.SelectorExpr, *ast.CallExpr, *ast.IndexExpr, *ast.ParenExpr:
		return e
	}
	return &ast.ParenExpr{X: e}
}
func define(lhs []ast.Expr, rhs ...ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
}

func (r *rewriter) name(s string) *ast.Ident {
	r.tmp++
	return id(fmt.Sprintf("zz%s%d", s, r.tmp))
}

func (r *rewriter) under(e ast.Expr) types.Type {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		if i, ok := e.(*ast.Ident); ok {
			if o := r.info.ObjectOf(i); o != nil {
				return o.Type().Underlying()
			}
		}
		return nil
	}
	return tv.Type.Underlying()
}

func (r *rewriter) isChan(e ast.Expr) bool {
	t := r.under(e)
	_, ok := t.(*types.Chan)
	return ok
}

func (r *rewriter) isMap(e ast.Expr) bool {
	_, ok := r.under(e).(*types.Map)
	return ok
}

func (r *rewriter) builtin(e ast.Expr) string {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	i, ok := e.(*ast.Ident)
	if !ok {
		return ""
	}
	if b, ok := r.info.Uses[i].(*types.Builtin); ok {
		return b.Name()
	}
	return ""
}

var (
	exprT  = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	stmtT  = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
	declT  = reflect.TypeOf((*ast.Decl)(nil)).Elem()
	specT  = reflect.TypeOf((*ast.Spec)(nil)).Elem()
	objT   = reflect.TypeOf((*ast.Object)(nil))
	scopeT = reflect.TypeOf((*ast.Scope)(nil))
	nodeT  = reflect.TypeOf((*ast.Node)(nil)).Elem()
)

// kids rewrites the children of n in place.
func (r *rewriter) kids(n ast.Node) {
	v := reflect.ValueOf(n)
	if v.IsNil() {
		return
	}
	if ts, ok := n.(*ast.TypeSpec); ok {
		if _, ok := unparen(ts.Type).(*ast.ChanType); ok {
			ts.Assign = 1 // a named channel type becomes another name of the simulated one
		}
	}
	v = v.Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		r.field(f)
	}
}

func (r *rewriter) field(f reflect.Value) {
	t := f.Type()
	switch {
	case t == objT || t == scopeT:
	case t == exprT:
		if !f.IsNil() {
			f.Set(reflect.ValueOf(r.expr(f.Interface().(ast.Expr))))
		}
	case t == stmtT:
		if !f.IsNil() {
			f.Set(reflect.ValueOf(r.stmt(f.Interface().(ast.Stmt))))
		}
	case t == declT, t == specT:
		if !f.IsNil() {
			r.kids(f.Interface().(ast.Node))
		}
	case t.Kind() == reflect.Slice && t.Elem() == stmtT:
		f.Set(reflect.ValueOf(r.list(f.Interface().([]ast.Stmt))))
	case t.Kind() == reflect.Slice:
		for j := 0; j < f.Len(); j++ {
			r.field(f.Index(j))
		}
	case t.Kind() == reflect.Ptr && t.Implements(nodeT):
		if f.IsNil() {
			return
		}
		if _, ok := f.Interface().(*ast.CommentGroup); ok {
			return
		}
		if e, ok := f.Interface().(ast.Expr); ok {
			if _, isID := e.(*ast.Ident); isID {
				return
			}
			ne := r.expr(e)
			if reflect.TypeOf(ne) == t {
				f.Set(reflect.ValueOf(ne))
			} else {
				die("cannot place %T into a field of type %s", ne, t)
			}
			return
		}
		if s, ok := f.Interface().(ast.Stmt); ok {
			if b, ok := s.(*ast.BlockStmt); ok {
				r.block(b)
				return
			}
			ns := r.stmt(s)
			if reflect.TypeOf(ns) == t {
				f.Set(reflect.ValueOf(ns))
			} else {
				die("cannot place %T into a field of type %s", ns, t)
			}
			return
		}
		r.kids(f.Interface().(ast.Node))
	}
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	if len(b.List) > 0 {
		switch b.List[0].(type) {
		case *ast.CaseClause, *ast.CommClause:
			for _, s := range b.List {
				r.kids(s)
			}
			return
		}
	}
	b.List = r.list(b.List)
}

func (r *rewriter) y(n ast.Node) ast.Stmt {
	return &ast.ExprStmt{X: call(simSel("Y"), r.site(n))}
}

func (r *rewriter) list(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		y := r.y(s)
		ns := r.stmt(s)
		out = append(out, y, ns)
	}
	return out
}

func (r *rewriter) loopBody(n ast.Node, b *ast.BlockStmt) {
	r.block(b)
	if len(b.List) == 0 {
		b.List = []ast.Stmt{r.y(n)}
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case *ast.BlockStmt:
		r.block(s)
		return s
	case *ast.LabeledStmt:
		switch s.Stmt.(type) {
		case *ast.RangeStmt, *ast.SelectStmt:
			ns := r.compound(s.Stmt, s.Label)
			if ns != nil {
				return ns
			}
			return s
		}
		s.Stmt = r.stmt(s.Stmt)
		return s
	case *ast.RangeStmt, *ast.SelectStmt:
		if ns := r.compound(s, nil); ns != nil {
			return ns
		}
		return s
	case *ast.ForStmt:
		if s.Init != nil {
			s.Init = r.stmt(s.Init)
		}
		if s.Cond != nil {
			s.Cond = r.expr(s.Cond)
		}
		if s.Post != nil {
			s.Post = r.stmt(s.Post)
		}
		r.loopBody(s, s.Body)
		return s
	case *ast.SendStmt:
		ch := r.expr(s.Chan)
		v := r.expr(s.Value)
		r.isChan(s.Chan)
		return &ast.ExprStmt{X: call(sel(paren(ch), "Send"), v)}
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.IncDecStmt:
		if ix, ok := unparen(s.X).(*ast.IndexExpr); ok && r.isMap(ix.X) {
			r.lhs[ix] = true
		}
		r.kids(s)
		return s
	case *ast.AssignStmt:
		for _, l := range s.Lhs {
			if ix, ok := unparen(l).(*ast.IndexExpr); ok && r.isMap(ix.X) {
				r.lhs[ix] = true
			}
		}
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				r.two[u] = true
			}
		}
		r.kids(s)
		return s
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		for _, sp := range gd.Specs {
			r.markSpec(sp)
		}
		r.kids(gd)
		return s
	}
	r.kids(s)
	return s
}

func (r *rewriter) markSpec(sp ast.Spec) {
	if vs, ok := sp.(*ast.ValueSpec); ok && len(vs.Names) == 2 && len(vs.Values) == 1 {
		if u, ok := unparen(vs.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			r.two[u] = true
		}
	}
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

func wrapLabel(l *ast.Ident, s ast.Stmt) ast.Stmt {
	if l == nil {
		return s
	}
	return &ast.LabeledStmt{Label: l, Stmt: s}
}

// compound rewrites range over map/channel and select; nil means s was
// rewritten in place.
func (r *rewriter) compound(s ast.Stmt, label *ast.Ident) ast.Stmt {
	switch s := s.(type) {
	case *ast.RangeStmt:
		m, c := r.isMap(s.X), r.isChan(s.X)
		if _, isSig := r.under(s.X).(*types.Signature); isSig {
			r.fail(s, "range over func is not supported")
		}
		if !m && !c {
			if s.Key != nil {
				s.Key = r.lhsExpr(s.Key)
			}
			if s.Value != nil {
				s.Value = r.lhsExpr(s.Value)
			}
			s.X = r.expr(s.X)
			r.loopBody(s, s.Body)
			return nil
		}
		x := r.expr(s.X)
		src := r.name("src")
		var pre []ast.Stmt
		pre = append(pre, define([]ast.Expr{src}, x))
		var key, val ast.Expr
		if !isBlank(s.Key) {
			key = s.Key
			if s.Tok == token.ASSIGN {
				key = r.lhsExpr(key)
			}
		}
		if !isBlank(s.Value) {
			val = s.Value
			if s.Tok == token.ASSIGN {
				val = r.lhsExpr(val)
			}
		}
		r.loopBody(s, s.Body)
		var loop *ast.ForStmt
		if c {
			if s.Tok == token.DEFINE && key != nil {
				pre = append(pre, define([]ast.Expr{key}, call(sel(src, "Zero"))), &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{key}})
			}
			v, ok := r.name("v"), r.name("ok")
			body := []ast.Stmt{
				define([]ast.Expr{v, ok}, call(sel(src, "Recv2"))),
				&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
			}
			if key != nil {
				body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{key}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}})
			} else {
				body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}})
			}
			loop = &ast.ForStmt{Body: &ast.BlockStmt{List: append(body, s.Body.List...)}}
			pre = append(pre, wrapLabel(label, loop))
			return &ast.BlockStmt{List: pre}
		}
		if s.Tok == token.DEFINE && (key != nil || val != nil) {
			k, v := ast.Expr(id("_")), ast.Expr(id("_"))
			if key != nil {
				k = key
			}
			if val != nil {
				v = val
			}
			pre = append(pre, define([]ast.Expr{k, v}, call(simSel("ZeroKV"), src)))
			for _, e := range []ast.Expr{key, val} {
				if e != nil {
					pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{e}})
				}
			}
		}
		k, v, ok := r.name("k"), r.name("v"), r.name("ok")
		body := []ast.Stmt{
			define([]ast.Expr{v, ok}, &ast.IndexExpr{X: call(simSel("MR"), src), Index: k}),
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
			&ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}},
		}
		if key != nil {
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{key}, Tok: token.ASSIGN, Rhs: []ast.Expr{k}})
		}
		if val != nil {
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{val}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}})
		}
		rs := &ast.RangeStmt{Key: id("_"), Value: k, Tok: token.DEFINE, X: call(simSel("MapKeys"), src), Body: &ast.BlockStmt{List: append(body, s.Body.List...)}}
		pre = append(pre, wrapLabel(label, rs))
		return &ast.BlockStmt{List: pre}
	case *ast.SelectStmt:
		var pre []ast.Stmt
		var args []ast.Expr
		hasDef := false
		sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
		n := 0
		for _, cl := range s.Body.List {
			cc := cl.(*ast.CommClause)
			if cc.Comm == nil {
				hasDef = true
				sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: r.list(cc.Body)})
				continue
			}
			cn := r.name("case")
			var head []ast.Stmt
			switch cm := cc.Comm.(type) {
			case *ast.SendStmt:
				r.isChan(cm.Chan)
				pre = append(pre, define([]ast.Expr{cn}, call(sel(paren(r.expr(cm.Chan)), "SendCase"), r.expr(cm.Value))))
			case *ast.ExprStmt:
				u := unparen(cm.X).(*ast.UnaryExpr)
				r.isChan(u.X)
				pre = append(pre, define([]ast.Expr{cn}, call(sel(paren(r.expr(u.X)), "RecvCase"))))
			case *ast.AssignStmt:
				u := unparen(cm.Rhs[0]).(*ast.UnaryExpr)
				r.isChan(u.X)
				pre = append(pre, define([]ast.Expr{cn}, call(sel(paren(r.expr(u.X)), "RecvCase"))))
				rhs := []ast.Expr{sel(cn, "V")}
				if len(cm.Lhs) == 2 {
					rhs = append(rhs, sel(cn, "OK"))
				}
				lhs := make([]ast.Expr, len(cm.Lhs))
				for i, e := range cm.Lhs {
					lhs[i] = r.lhsExpr(e)
				}
				tok := cm.Tok
				if tok == token.DEFINE {
					all := true
					for _, e := range lhs {
						all = all && isBlank(e)
					}
					if all {
						tok = token.ASSIGN
					}
				}
				head = append(head, &ast.AssignStmt{Lhs: lhs, Tok: tok, Rhs: rhs})
			}
			args = append(args, cn)
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{
				List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}},
				Body: append(head, r.list(cc.Body)...),
			})
			n++
		}
		if !hasDef {
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(id("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})}}})
		}
		sw.Tag = call(simSel("Select"), append([]ast.Expr{id(strconv.FormatBool(hasDef))}, args...)...)
		pre = append(pre, wrapLabel(label, sw))
		return &ast.BlockStmt{List: pre}
	}
	return nil
}

func (r *rewriter) lhsExpr(e ast.Expr) ast.Expr {
	if ix, ok := unparen(e).(*ast.IndexExpr); ok && r.isMap(ix.X) {
		r.lhs[ix] = true
	}
	return r.expr(e)
}

func (r *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	st := r.site(s)
	c := s.Call
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		f := r.expr(fl)
		return &ast.ExprStmt{X: call(simSel("Go"), st, f)}
	}
	var pre []ast.Stmt
	bi := r.builtin(c.Fun)
	tv := r.info.Types[c.Fun]
	if bi == "" && !tv.IsType() {
		// evaluate function value and arguments now
		if len(c.Args) == 1 {
			if _, tup := r.info.TypeOf(c.Args[0]).(*types.Tuple); tup {
				r.fail(s, "go f(g()) with a multi-value g is not supported")
			}
		}
	}
	fun := c.Fun
	consts := make([]bool, len(c.Args))
	for i, a := range c.Args {
		t := r.info.Types[a]
		consts[i] = t.Value != nil || t.IsNil() || t.IsType()
		if _, ok := unparen(a).(*ast.FuncLit); ok {
			consts[i] = true
		}
	}
	nc := r.expr(c)
	cc, ok := nc.(*ast.CallExpr)
	if !ok {
		r.fail(s, "unsupported go statement")
	}
	_ = fun
	static := false
	switch f := unparen(cc.Fun).(type) {
	case *ast.Ident:
		_, isF := r.info.Uses[f].(*types.Func)
		static = isF || bi != ""
	case *ast.FuncLit:
		static = true
	case *ast.IndexExpr, *ast.IndexListExpr:
		static = false
	}
	if !static {
		fn := r.name("f")
		pre = append(pre, define([]ast.Expr{fn}, cc.Fun))
		cc.Fun = fn
	}
	if bi == "" && len(cc.Args) == len(consts) {
		for i := range cc.Args {
			if consts[i] {
				continue
			}
			a := r.name("a")
			pre = append(pre, define([]ast.Expr{a}, cc.Args[i]))
			cc.Args[i] = a
		}
	}
	pre = append(pre, &ast.ExprStmt{X: call(simSel("Go"), st, &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: cc}}}})})
	return &ast.BlockStmt{List: pre}
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case *ast.Ident:
		if tn, ok := r.info.Uses[e].(*types.TypeName); ok && tn.Pkg() == nil {
			return e
		}
		return e
	case *ast.ChanType:
		v := r.expr(e.Value)
		return &ast.StarExpr{X: &ast.IndexExpr{X: simSel("Chan"), Index: v}}
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			r.isChan(e.X)
			m := "Recv"
			if r.two[e] {
				m = "Recv2"
			}
			return call(sel(paren(r.expr(e.X)), m))
		}
	case *ast.IndexExpr:
		if tv, ok := r.info.Types[e.X]; ok && tv.IsValue() && r.isMap(e.X) {
			m := "MR"
			if r.lhs[e] {
				m = "MW"
			}
			r.kids(e)
			e.X = call(simSel(m), e.X)
			return e
		}
	case *ast.CallExpr:
		switch r.builtin(e.Fun) {
		case "make":
			if _, ok := r.under(e.Args[0]).(*types.Chan); ok {
				ct, ok := unparen(e.Args[0]).(*ast.ChanType)
				n := ast.Expr(&ast.BasicLit{Kind: token.INT, Value: "0"})
				if len(e.Args) > 1 {
					n = call(id("int"), r.expr(e.Args[1]))
				}
				if !ok { // a named type
					return call(simSel("NewLike"), call(r.expr(e.Args[0]), id("nil")), n)
				}
				return call(&ast.IndexExpr{X: simSel("NewChan"), Index: r.expr(ct.Value)}, n)
			}
		case "close":
			return call(sel(paren(r.expr(e.Args[0])), "Close"))
		case "len", "cap":
			if r.isChan(e.Args[0]) {
				m := map[string]string{"len": "Len", "cap": "Cap"}[r.builtin(e.Fun)]
				return call(sel(paren(r.expr(e.Args[0])), m))
			}
		case "delete", "clear":
			if r.isMap(e.Args[0]) {
				r.kids(e)
				e.Args[0] = call(simSel("MW"), e.Args[0])
				return e
			}
		}
	case *ast.SelectorExpr:
		if x, ok := e.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[x].(*types.PkgName); ok {
				path := pn.Imported().Path()
				if path == "math/rand" || path == "math/rand/v2" {
					if f, ok := r.info.Uses[e.Sel].(*types.Func); ok {
						switch f.Name() {
						case "New", "NewSource", "NewZipf", "NewPCG", "NewChaCha8":
							return e
						}
						if path == "math/rand/v2" {
							return sel(simSel("MRand2"), e.Sel.Name)
						}
						return sel(simSel("MRand"), e.Sel.Name)
					}
					return e
				}
				if t, ok := repl[path]; ok {
					if n, ok := t[e.Sel.Name]; ok {
						return simSel(n)
					}
				}
				return e
			}
		}
		e.X = r.expr(e.X)
		return e
	case *ast.FuncLit:
		r.kids(e.Type)
		r.block(e.Body)
		return e
	case *ast.KeyValueExpr:
		// a struct literal key is not an expression
		e.Key = r.expr(e.Key)
		e.Value = r.expr(e.Value)
		return e
	}
	r.kids(e)
	return e
}

func main() {
	src := flag.String("src", "/repo", "")
	out := flag.String("out", "", "")
	mod := flag.String("mod", "github.com/mottla/go-AlgebraicProgram-SNARK", "")
	gov := flag.String("go", "1.21", "")
	flag.Parse()
	if *out == "" {
		die("no -out")
	}
	// copy
	err := filepath.Walk(*src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(*src, p)
		base := filepath.Base(p)
		if fi.IsDir() {
			if rel != "." && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata" || base == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if rel == "go.mod" {
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			for _, l := range strings.Split(string(b), "\n") {
				f := strings.Fields(l)
				if len(f) == 2 && f[0] == "module" {
					*mod = f[1]
				}
				if len(f) == 2 && f[0] == "go" {
					*gov = f[1]
				}
			}
		}
		if !strings.HasSuffix(base, ".go") || strings.HasSuffix(base, "_test.go") {
			return nil
		}
		dst := filepath.Join(*out, rel)
		if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
			return err
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(dst, b, 0o644)
	})
	if err != nil {
		die("copy: %v", err)
	}
	if err := os.WriteFile(filepath.Join(*out, "go.mod"), []byte("module "+*mod+"\n\ngo "+*gov+"\n"), 0o644); err != nil {
		die("%v", err)
	}
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Name,Export,GoFiles,CgoFiles,Standard,Imports,Error", "./...")
	cmd.Dir = *out
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	pk := map[string]*listPkg{}
	var order []*listPkg
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list: %v", err)
		}
		if p.Error != nil {
			die("%s: %s", p.ImportPath, p.Error.Err)
		}
		pk[p.ImportPath] = p
		if !p.Standard {
			order = append(order, p)
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := pk[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	var sites []site
	var resetPkgs []string
	for _, p := range order {
		if len(p.CgoFiles) > 0 {
			die("%s uses cgo", p.ImportPath)
		}
		var files []*ast.File
		for _, f := range p.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			files = append(files, af)
			for _, im := range af.Imports {
				ip, _ := strconv.Unquote(im.Path.Value)
				if banned[ip] {
					die("%s imports %s, which has no simulated counterpart", p.ImportPath, ip)
				}
				if im.Name != nil && im.Name.Name == "." && repl[ip] != nil {
					die("dot import of %s", ip)
				}
			}
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}}
		conf := types.Config{Importer: imp, GoVersion: "go" + *gov}
		tp, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			die("type check %s: %v", p.ImportPath, err)
		}
		r := &rewriter{fset: fset, info: info, pkg: tp, root: *out, sites: &sites, lhs: map[ast.Expr]bool{}, two: map[ast.Expr]bool{}}
		initN := 0
		var initNames []string
		// locate the files of package variable initialisers
		type vinit struct {
			order int
			file  int
		}
		for _, f := range files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv != nil {
						r.kids(d.Recv)
					}
					r.kids(d.Type)
					if d.Body != nil {
						r.block(d.Body)
					}
					if d.Recv == nil && d.Name.Name == "init" {
						initN++
						n := fmt.Sprintf("zzInit%d", initN)
						d.Name = id(n)
						initNames = append(initNames, n)
					}
				case *ast.GenDecl:
					for _, sp := range d.Specs {
						r.markSpec(sp)
					}
					if d.Tok != token.IMPORT {
						r.kids(d)
					}
				}
			}
		}
		// per file reset functions for variable initialisers
		perFile := map[*ast.File][]ast.Decl{}
		var resetCalls []ast.Stmt
		fileOf := func(pos token.Pos) *ast.File {
			for _, f := range files {
				if f.FileStart <= pos && pos < f.FileEnd {
					return f
				}
			}
			return nil
		}
		// the rewritten initialiser expression, by first declared name
		inits := map[types.Object]*ast.ValueSpec{}
		for _, f := range files {
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok || gd.Tok != token.VAR {
					continue
				}
				for _, sp := range gd.Specs {
					vs := sp.(*ast.ValueSpec)
					for _, n := range vs.Names {
						if n.Name == "_" {
							continue
						}
						o := info.Defs[n]
						inits[o] = vs
						if len(vs.Values) == 0 {
							resetCalls = append(resetCalls, &ast.ExprStmt{X: call(simSel("Zero"), &ast.UnaryExpr{Op: token.AND, X: id(n.Name)})})
						}
					}
				}
			}
		}
		for k, in := range info.InitOrder {
			if len(in.Lhs) == 0 {
				continue
			}
			vs := inits[in.Lhs[0]]
			if vs == nil {
				// all blank
				continue
			}
			var rhs ast.Expr
			if len(vs.Values) == len(vs.Names) {
				for i, n := range vs.Names {
					if info.Defs[n] == types.Object(in.Lhs[0]) {
						rhs = vs.Values[i]
					}
				}
			} else {
				rhs = vs.Values[0]
			}
			var lhs []ast.Expr
			if len(vs.Values) == len(vs.Names) {
				lhs = []ast.Expr{id(in.Lhs[0].Name())}
			} else {
				for _, n := range vs.Names {
					lhs = append(lhs, id(n.Name))
				}
			}
			fn := fmt.Sprintf("zzVar%d", k)
			fd := &ast.FuncDecl{Name: id(fn), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{
				&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{rhs}}}}}
			f := fileOf(vs.Pos())
			perFile[f] = append(perFile[f], fd)
			resetCalls = append(resetCalls, &ast.ExprStmt{X: call(id(fn))})
		}
		for _, n := range initNames {
			resetCalls = append(resetCalls, &ast.ExprStmt{X: call(id(n))})
		}
		for fi, f := range files {
			f.Decls = append(f.Decls, perFile[f]...)
			if fi == 0 {
				f.Decls = append(f.Decls, &ast.FuncDecl{Name: id("SimReset"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: resetCalls}})
				var l []ast.Stmt
				for _, n := range initNames {
					l = append(l, &ast.ExprStmt{X: call(id(n))})
				}
				if len(l) > 0 {
					f.Decls = append(f.Decls, &ast.FuncDecl{Name: id("init"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: l}})
				}
			}
			// imports still in use
			used := map[string]bool{}
			ast.Inspect(f, func(n ast.Node) bool {
				if s, ok := n.(*ast.SelectorExpr); ok {
					if x, ok := s.X.(*ast.Ident); ok {
						if pn, ok := info.Uses[x].(*types.PkgName); ok {
							used[pn.Imported().Path()] = true
						}
					}
				}
				return true
			})
			var decls []ast.Decl
			decls = append(decls, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: id(sim), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(*mod + "/zzverif/simrt")}}}})
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok || gd.Tok != token.IMPORT {
					decls = append(decls, d)
					continue
				}
				for _, sp := range gd.Specs {
					is := sp.(*ast.ImportSpec)
					ip, _ := strconv.Unquote(is.Path.Value)
					blank := is.Name != nil && (is.Name.Name == "_" || is.Name.Name == ".")
					if used[ip] || blank {
						decls = append(decls, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: is.Name, Path: &ast.BasicLit{Kind: token.STRING, Value: is.Path.Value}}}})
					}
				}
			}
			decls = append(decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id("_")}, Values: []ast.Expr{simSel("Y")}}}})
			f.Decls = decls
			f.Comments = nil
			stripDocs(f)
			strip(reflect.ValueOf(f), map[uintptr]bool{})
			var buf bytes.Buffer
			if err := format.Node(&buf, token.NewFileSet(), f); err != nil {
				die("print %s: %v", p.GoFiles[fi], err)
			}
			if err := os.WriteFile(filepath.Join(p.Dir, p.GoFiles[fi]), buf.Bytes(), 0o644); err != nil {
				die("%v", err)
			}
		}
		if p.Name != "main" {
			resetPkgs = append(resetPkgs, p.ImportPath)
		}
	}
	if len(sites) > 1<<14-2 {
		fmt.Fprintf(os.Stderr, "instr: note: %d sites share %d slots\n", len(sites), 1<<14)
	}
	// generated tables
	gen := filepath.Join(*out, "zzverif", "gen")
	if err := os.MkdirAll(gen, 0o755); err != nil {
		die("%v", err)
	}
	var g bytes.Buffer
	fmt.Fprintf(&g, "package gen\n\nimport (\n\tsimrt %q\n", *mod+"/zzverif/simrt")
	for i, p := range resetPkgs {
		fmt.Fprintf(&g, "\tp%d %q\n", i, p)
	}
	fmt.Fprintf(&g, ")\n\n// Reset puts every package of the library into the state of a fresh process.\nfunc Reset() {\n")
	for i := range resetPkgs {
		fmt.Fprintf(&g, "\tp%d.SimReset()\n", i)
	}
	fmt.Fprintf(&g, "}\n\nvar names = [...]string{\n\"\",\n")
	for _, s := range sites {
		fmt.Fprintf(&g, "%q,\n", s.pos)
	}
	fmt.Fprintf(&g, "}\n\nfunc init() {\n\tsimrt.NumSites = uint32(len(names))\n\tsimrt.SiteName = func(s uint32) string { if int(s) < len(names) { return names[s] }; return \"?\" }\n}\n")
	if err := os.WriteFile(filepath.Join(gen, "gen.go"), g.Bytes(), 0o644); err != nil {
		die("%v", err)
	}
	sort.Strings(resetPkgs)
	fmt.Printf("instr: %d packages, %d scheduling points\n", len(resetPkgs), len(sites))
}

func stripDocs(f *ast.File) {
	f.Doc = nil
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			n.Doc = nil
		case *ast.GenDecl:
			n.Doc = nil
		case *ast.ValueSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.TypeSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.Field:
			n.Doc, n.Comment = nil, nil
		case *ast.ImportSpec:
			n.Doc, n.Comment = nil, nil
		}
		return true
	})
}

// strip clears positions so that the printer lays the file out by itself.
func strip(v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] || v.Type() == objT || v.Type() == scopeT {
			return
		}
		seen[v.Pointer()] = true
		strip(v.Elem(), seen)
	case reflect.Interface:
		if !v.IsNil() {
			strip(v.Elem(), seen)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			strip(v.Index(i), seen)
		}
	case reflect.Struct:
		posT := reflect.TypeOf(token.NoPos)
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.Type() == posT && f.CanSet() {
				name := v.Type().Field(i).Name
				switch {
				case name == "Ellipsis" || name == "Assign" || name == "Lparen" || name == "Rparen" || name == "TokPos" || name == "Arrow":
					// these positions carry meaning (variadic call, alias, grouping)
					if v.Type() == reflect.TypeOf(ast.GenDecl{}) {
						f.SetInt(0)
						// keep grouping
						if name == "Lparen" && len(v.Addr().Interface().(*ast.GenDecl).Specs) != 1 {
							f.SetInt(1)
						}
						continue
					}
					if f.Int() != 0 {
						f.SetInt(1)
					}
				default:
					f.SetInt(0)
				}
				continue
			}
			strip(f, seen)
		}
	}
}
