// Command rewrite turns the program in a repository directory (package main)
// into an importable package whose every source of nondeterminism goes
// through the simulator's seams. It never edits the repository: it writes a
// rewritten copy.
//
//   - references to exported names of os, net, time, sync, expvar, net/http,
//     crypto/tls, runtime, io/ioutil, path/filepath that have a stand-in in
//     the shim packages are redirected there (resolved through go/types, so
//     shadowing and renamed imports do not matter);
//   - "go f(x)" becomes a registered simulated goroutine;
//   - channel sends, receives, ranges and selects become killable, so that a
//     simulated process crash can unwind goroutines blocked on channels;
//   - ranging over a map visits keys in an order the simulator chooses;
//   - a call to rt.Y(), a possible preemption point, precedes each statement;
//   - ResetGlobals() re-runs all package variable initialisers in Go's
//     initialisation order, which is what a process restart does.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const smtpdPath = "github.com/siebenmann/smtpd"

// real import path -> shim import path
var shims = map[string]string{
	"os": "vsim/shim/os", "net": "vsim/shim/net", "time": "vsim/shim/time",
	"sync": "vsim/shim/sync", "expvar": "vsim/shim/expvar",
	"net/http": "vsim/shim/http", "crypto/tls": "vsim/shim/tls",
	"runtime": "vsim/shim/runtime", "io/ioutil": "vsim/shim/ioutil",
	"path/filepath": "vsim/shim/filepath", "log": "vsim/shim/log",
	"sync/atomic": "vsim/shim/atomic", "math/rand": "vsim/shim/mrand", "math/rand/v2": "vsim/shim/mrand2",
	"crypto/rand": "vsim/shim/crand", "os/signal": "vsim/shim/signal",
}

// Things that would reach the real machine and have no stand-in: code that
// uses them cannot be simulated, and must not be run.
var deny = map[string]bool{
	"os.Chown": true, "os.Lchown": true, "os.Chtimes": true, "os.Readlink": true, "os.MkdirTemp": true, "os.Pipe": true,
	"os.CopyFS": true, "os.OpenRoot": true, "os.OpenInRoot": true, "os.DirFS": true, "os.StartProcess": true, "os.FindProcess": true,
	"os.NewFile": true, "os.Clearenv": true, "net.ListenTCP": true, "net.ListenUDP": true, "net.ListenPacket": true, "net.DialTCP": true,
	"net.ListenUnix": true, "net.DialUDP": true, "net.DialUnix": true, "net.FileListener": true, "net.Interfaces": true, "net.InterfaceAddrs": true,
	"net.LookupSRV": true, "net/http.ListenAndServeTLS": true, "net/http.Get": true, "net/http.Post": true,
	"crypto/tls.Listen": true, "crypto/tls.Dial": true, "crypto/tls.DialWithDialer": true,
	"path/filepath.Walk": true, "path/filepath.WalkDir": true, "io/ioutil.ReadDir": true, "io/ioutil.TempDir": true,
}

// Packages none of whose functions may be called.
var denyPkg = map[string]bool{"os/exec": true, "syscall": true, "golang.org/x/sys/unix": true, "plugin": true, "log/syslog": true}

func isFunc(o types.Object) bool { _, ok := o.(*types.Func); return ok }

func die(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "rewrite: "+format+"\n", args...)
	os.Exit(3)
}

func exportedOf(dir string) map[string]bool {
	res := map[string]bool{}
	fset := token.NewFileSet()
	names, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, n := range names {
		f, err := parser.ParseFile(fset, n, nil, 0)
		if err != nil {
			die("parsing shim %s: %v", n, err)
		}
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				if x.Recv == nil && x.Name.IsExported() {
					res[x.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range x.Specs {
					switch y := s.(type) {
					case *ast.TypeSpec:
						if y.Name.IsExported() {
							res[y.Name.Name] = true
						}
					case *ast.ValueSpec:
						for _, nm := range y.Names {
							if nm.IsExported() {
								res[nm.Name] = true
							}
						}
					}
				}
			}
		}
	}
	return res
}

type rw struct {
	fset  *token.FileSet
	info  *types.Info
	names map[string]map[string]bool // real path -> shimmed names
	used  map[string]bool            // shim aliases used in current file
	tmp   int
	yield bool
}

func (r *rw) fresh(p string) *ast.Ident {
	r.tmp++
	return ast.NewIdent(fmt.Sprintf("sim_%s%d", p, r.tmp))
}

func sel(pkg, name string) *ast.SelectorExpr {
	return &ast.SelectorExpr{X: ast.NewIdent(pkg), Sel: ast.NewIdent(name)}
}
func call(fn ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: fn, Args: args} }

func alias(shim string) string { return "sim_" + strings.ReplaceAll(filepath.Base(shim), "-", "_") }

func (r *rw) isMap(e ast.Expr) bool {
	t := r.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}
func (r *rw) isChan(e ast.Expr) bool {
	t := r.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

// expr rewrites an expression in place and returns its replacement.
func (r *rw) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
				p := pn.Imported().Path()
				if r.names[p][x.Sel.Name] {
					r.used[shims[p]] = true
					return &ast.SelectorExpr{X: ast.NewIdent(alias(shims[p])), Sel: ast.NewIdent(x.Sel.Name)}
				}
				if deny[p+"."+x.Sel.Name] || denyPkg[p] && isFunc(r.info.Uses[x.Sel]) {
					die("%s: the simulator has no stand-in for %s.%s", r.fset.Position(x.Pos()), p, x.Sel.Name)
				}
				return x
			}
		}
		x.X = r.expr(x.X)
		return x
	case *ast.UnaryExpr:
		x.X = r.expr(x.X)
		if x.Op == token.ARROW {
			return call(sel("sim_rt", "Recv"), x.X)
		}
		return x
	case *ast.BinaryExpr:
		x.X = r.expr(x.X)
		x.Y = r.expr(x.Y)
		return x
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) > 0 && r.isMap(x.Args[0]) {
			if b, ok := r.info.Uses[id].(*types.Builtin); ok {
				switch b.Name() {
				case "delete":
					return call(call(sel("sim_rt", "MapDel"), r.expr(x.Args[0])), r.expr(x.Args[1]))
				case "clear":
					x.Args[0] = call(sel("sim_rt", "MapW"), r.expr(x.Args[0]))
					return x
				}
			}
		}
		x.Fun = r.expr(x.Fun)
		for i := range x.Args {
			x.Args[i] = r.expr(x.Args[i])
		}
		return x
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
		return x
	case *ast.StarExpr:
		x.X = r.expr(x.X)
		return x
	case *ast.IndexExpr:
		if r.isMap(x.X) {
			x.X = call(sel("sim_rt", "MapR"), r.expr(x.X))
			x.Index = r.expr(x.Index)
			return x
		}
		x.X = r.expr(x.X)
		x.Index = r.expr(x.Index)
		return x
	case *ast.IndexListExpr:
		x.X = r.expr(x.X)
		for i := range x.Indices {
			x.Indices[i] = r.expr(x.Indices[i])
		}
		return x
	case *ast.SliceExpr:
		x.X = r.expr(x.X)
		x.Low, x.High, x.Max = r.expr(x.Low), r.expr(x.High), r.expr(x.Max)
		return x
	case *ast.TypeAssertExpr:
		x.X = r.expr(x.X)
		x.Type = r.expr(x.Type)
		return x
	case *ast.KeyValueExpr:
		// A struct literal's field name must not be rewritten, but it
		// is an Ident and so never is.
		x.Key = r.expr(x.Key)
		x.Value = r.expr(x.Value)
		return x
	case *ast.CompositeLit:
		x.Type = r.expr(x.Type)
		for i := range x.Elts {
			x.Elts[i] = r.expr(x.Elts[i])
		}
		return x
	case *ast.FuncLit:
		r.funcType(x.Type)
		r.block(x.Body)
		return x
	case *ast.FuncType:
		r.funcType(x)
		return x
	case *ast.ArrayType:
		x.Len = r.expr(x.Len)
		x.Elt = r.expr(x.Elt)
		return x
	case *ast.MapType:
		x.Key = r.expr(x.Key)
		x.Value = r.expr(x.Value)
		return x
	case *ast.ChanType:
		x.Value = r.expr(x.Value)
		return x
	case *ast.StructType:
		// An embedded shimmed type keeps its name (sync.Mutex ->
		// sim_sync.Mutex), so promoted names do not change.
		r.fields(x.Fields)
		return x
	case *ast.InterfaceType:
		r.fields(x.Methods)
		return x
	case *ast.Ellipsis:
		x.Elt = r.expr(x.Elt)
		return x
	default:
		return e
	}
}

func (r *rw) fields(fl *ast.FieldList) {
	if fl == nil {
		return
	}
	for _, f := range fl.List {
		f.Type = r.expr(f.Type)
	}
}
func (r *rw) funcType(ft *ast.FuncType) {
	r.fields(ft.Params)
	r.fields(ft.Results)
}

func (r *rw) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = r.stmts(b.List)
}

func (r *rw) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		if r.yield {
			switch s.(type) {
			case *ast.EmptyStmt:
			default:
				out = append(out, &ast.ExprStmt{X: call(sel("sim_rt", "Y"))})
			}
		}
		if t := r.update(s); t != nil {
			out = append(out, t)
			continue
		}
		out = append(out, r.stmt(s))
	}
	return out
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// plain says whether evaluating e calls nothing.
func (r *rw) plain(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

// shared says whether e may be something other goroutines see too: anything
// but a local variable or a field of one.
func (r *rw) shared(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.Ident:
		v, ok := r.info.Uses[x].(*types.Var)
		return ok && v.Parent() == v.Pkg().Scope()
	case *ast.SelectorExpr:
		if s := r.info.Selections[x]; s == nil || s.Kind() != types.FieldVal {
			return false
		} else if s.Indirect() {
			return true
		}
		return r.shared(x.X)
	case *ast.StarExpr:
		return true
	}
	return false
}

// update rewrites statements that change a map's element or read and write
// shared data in one go: they are not atomic.
func (r *rw) update(s ast.Stmt) ast.Stmt {
	var lhs, rhs ast.Expr
	var tok token.Token
	switch x := s.(type) {
	case *ast.IncDecStmt:
		lhs, tok = x.X, x.Tok
	case *ast.AssignStmt:
		if len(x.Lhs) != 1 || len(x.Rhs) != 1 || x.Tok == token.DEFINE {
			return nil
		}
		lhs, rhs, tok = x.Lhs[0], x.Rhs[0], x.Tok
	default:
		return nil
	}
	op := func(v ast.Expr) ast.Stmt {
		if rhs == nil {
			return &ast.IncDecStmt{X: v, Tok: tok}
		}
		return &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: tok, Rhs: []ast.Expr{r.expr(rhs)}}
	}
	def := func(v, e ast.Expr) ast.Stmt {
		return &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{e}}
	}
	if ix, ok := unparen(lhs).(*ast.IndexExpr); ok && r.isMap(ix.X) {
		if tok == token.ASSIGN {
			m, k := r.expr(ix.X), r.expr(ix.Index)
			return &ast.ExprStmt{X: call(call(sel("sim_rt", "MapSet"), m), k, r.expr(rhs))}
		}
		m, k, v := r.fresh("m"), r.fresh("k"), r.fresh("v")
		return &ast.BlockStmt{List: []ast.Stmt{
			def(m, r.expr(ix.X)),
			def(k, call(call(sel("sim_rt", "MapKey"), m), r.expr(ix.Index))),
			def(v, &ast.IndexExpr{X: call(sel("sim_rt", "MapR"), m), Index: k}),
			op(v),
			&ast.ExprStmt{X: call(call(sel("sim_rt", "MapSet"), m), k, v)},
		}}
	}
	if tok == token.ASSIGN || !r.shared(lhs) || rhs != nil && !r.plain(rhs) {
		return nil
	}
	p, v := r.fresh("p"), r.fresh("v")
	return &ast.BlockStmt{List: []ast.Stmt{
		def(p, &ast.UnaryExpr{Op: token.AND, X: r.expr(lhs)}),
		def(v, &ast.StarExpr{X: p}),
		op(v),
		&ast.ExprStmt{X: call(sel("sim_rt", "Hot"))},
		&ast.AssignStmt{Lhs: []ast.Expr{&ast.StarExpr{X: p}}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}},
	}}
}

func (r *rw) declStmt(d ast.Decl) {
	gd, ok := d.(*ast.GenDecl)
	if !ok {
		return
	}
	for _, s := range gd.Specs {
		switch y := s.(type) {
		case *ast.TypeSpec:
			y.Type = r.expr(y.Type)
		case *ast.ValueSpec:
			y.Type = r.expr(y.Type)
			if len(y.Names) == 2 && len(y.Values) == 1 {
				if v := r.recv2(y.Values[0]); v != nil {
					y.Values[0] = v
					continue
				}
			}
			for i := range y.Values {
				y.Values[i] = r.expr(y.Values[i])
			}
		}
	}
}

// recv2 rewrites the right side of v, ok = <-ch.
func (r *rw) recv2(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return call(sel("sim_rt", "Recv2"), r.expr(u.X))
	}
	return nil
}

func (r *rw) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		r.block(x)
	case *ast.ExprStmt:
		x.X = r.expr(x.X)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(call(sel("sim_rt", "Send"), r.expr(x.Chan)), r.expr(x.Value))}
	case *ast.IncDecStmt:
		x.X = r.expr(x.X)
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if v := r.recv2(x.Rhs[0]); v != nil {
				x.Rhs[0] = v
				for i := range x.Lhs {
					x.Lhs[i] = r.expr(x.Lhs[i])
				}
				return x
			}
		}
		for i := range x.Lhs {
			x.Lhs[i] = r.expr(x.Lhs[i])
		}
		for i := range x.Rhs {
			x.Rhs[i] = r.expr(x.Rhs[i])
		}
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.DeferStmt:
		x.Call = r.expr(x.Call).(*ast.CallExpr)
	case *ast.ReturnStmt:
		for i := range x.Results {
			x.Results[i] = r.expr(x.Results[i])
		}
	case *ast.IfStmt:
		x.Init = r.stmt(x.Init)
		x.Cond = r.expr(x.Cond)
		r.block(x.Body)
		x.Else = r.stmt(x.Else)
	case *ast.CaseClause:
		for i := range x.List {
			x.List[i] = r.expr(x.List[i])
		}
		x.Body = r.stmts(x.Body)
	case *ast.SwitchStmt:
		x.Init = r.stmt(x.Init)
		x.Tag = r.expr(x.Tag)
		for _, c := range x.Body.List {
			r.stmt(c)
		}
	case *ast.TypeSwitchStmt:
		x.Init = r.stmt(x.Init)
		x.Assign = r.stmt(x.Assign)
		for _, c := range x.Body.List {
			r.stmt(c)
		}
	case *ast.SelectStmt:
		hasDef := false
		for _, c := range x.Body.List {
			cc := c.(*ast.CommClause)
			if cc.Comm == nil {
				hasDef = true
			}
			// channel operations in comm clauses stay native
			switch y := cc.Comm.(type) {
			case *ast.SendStmt:
				y.Chan, y.Value = r.expr(y.Chan), r.expr(y.Value)
			case *ast.ExprStmt:
				r.commRecv(y.X)
			case *ast.AssignStmt:
				r.commRecv(y.Rhs[0])
				for i := range y.Lhs {
					y.Lhs[i] = r.expr(y.Lhs[i])
				}
			}
			cc.Body = r.stmts(cc.Body)
		}
		if !hasDef {
			x.Body.List = append(x.Body.List, &ast.CommClause{
				Comm: &ast.ExprStmt{X: &ast.UnaryExpr{Op: token.ARROW, X: call(sel("sim_rt", "KillC"))}},
				Body: []ast.Stmt{&ast.ExprStmt{X: call(ast.NewIdent("panic"), call(sel("sim_rt", "Die")))}},
			})
		}
	case *ast.ForStmt:
		x.Init = r.stmt(x.Init)
		x.Cond = r.expr(x.Cond)
		x.Post = r.stmt(x.Post)
		r.block(x.Body)
		if len(x.Body.List) == 0 {
			x.Body.List = []ast.Stmt{&ast.ExprStmt{X: call(sel("sim_rt", "Y"))}}
		}
	case *ast.RangeStmt:
		return r.rangeStmt(x)
	case *ast.LabeledStmt:
		x.Stmt = r.stmt(x.Stmt)
	case *ast.DeclStmt:
		r.declStmt(x.Decl)
	}
	return s
}

func (r *rw) commRecv(e ast.Expr) {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		u.X = r.expr(u.X)
	}
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return e == nil || (ok && id.Name == "_")
}

func (r *rw) rangeStmt(x *ast.RangeStmt) ast.Stmt {
	m, c := r.isMap(x.X), r.isChan(x.X)
	x.X = r.expr(x.X)
	x.Key, x.Value = r.expr(x.Key), r.expr(x.Value)
	r.block(x.Body)
	switch {
	case c:
		// for v := range ch  =>  for v, ok := Recv2(ch); ok; v, ok = Recv2(ch)
		ch, ok := r.fresh("ch"), r.fresh("ok")
		var v ast.Expr = ast.NewIdent("_")
		if !isBlank(x.Key) {
			v = x.Key
		}
		rc := func() ast.Expr { return call(sel("sim_rt", "Recv2"), ch) }
		var fs *ast.ForStmt
		if x.Tok == token.ASSIGN && !isBlank(x.Key) {
			okv := r.fresh("v")
			fs = &ast.ForStmt{
				Init: &ast.AssignStmt{Lhs: []ast.Expr{okv, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{rc()}},
				Cond: ok,
				Post: &ast.AssignStmt{Lhs: []ast.Expr{okv, ok}, Tok: token.ASSIGN, Rhs: []ast.Expr{rc()}},
				Body: x.Body,
			}
			x.Body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.ASSIGN, Rhs: []ast.Expr{okv}}}, x.Body.List...)
		} else {
			fs = &ast.ForStmt{
				Init: &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{rc()}},
				Cond: ok,
				Post: &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.ASSIGN, Rhs: []ast.Expr{rc()}},
				Body: x.Body,
			}
		}
		return r.withLabelSafe(&ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{x.X}}, fs)
	case m:
		if isBlank(x.Key) && isBlank(x.Value) {
			return x
		}
		mv := r.fresh("m")
		key := x.Key
		if isBlank(key) {
			key = r.fresh("k")
		}
		rs := &ast.RangeStmt{Key: ast.NewIdent("_"), Value: key, Tok: x.Tok, X: call(sel("sim_rt", "MapKeys"), mv), Body: x.Body}
		if isBlank(x.Key) {
			rs.Tok = token.DEFINE
		}
		okv := r.fresh("ok")
		var pre []ast.Stmt
		if isBlank(x.Value) {
			pre = []ast.Stmt{&ast.IfStmt{
				Init: &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), okv}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: call(sel("sim_rt", "MapR"), mv), Index: key}}},
				Cond: &ast.UnaryExpr{Op: token.NOT, X: okv},
				Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}},
			}}
		} else {
			vv := r.fresh("v")
			asg := &ast.AssignStmt{Lhs: []ast.Expr{x.Value}, Tok: x.Tok, Rhs: []ast.Expr{vv}}
			pre = []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{vv, okv}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: call(sel("sim_rt", "MapR"), mv), Index: key}}},
				&ast.IfStmt{
					Cond: &ast.UnaryExpr{Op: token.NOT, X: okv},
					Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}},
				},
				asg,
			}
		}
		x.Body.List = append(pre, x.Body.List...)
		return r.withLabelSafe(&ast.AssignStmt{Lhs: []ast.Expr{mv}, Tok: token.DEFINE, Rhs: []ast.Expr{x.X}}, rs)
	}
	return x
}

// withLabelSafe puts a preparatory statement before a loop. The result is a
// block; a label on the loop is moved inside by fixLabels.
func (r *rw) withLabelSafe(pre, loop ast.Stmt) ast.Stmt {
	return &ast.BlockStmt{List: []ast.Stmt{pre, loop}}
}

// fixLabels moves "L: { pre; loop }" to "{ pre; L: loop }".
func fixLabels(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		var list []ast.Stmt
		switch x := n.(type) {
		case *ast.BlockStmt:
			list = x.List
		case *ast.CaseClause:
			list = x.Body
		case *ast.CommClause:
			list = x.Body
		default:
			return true
		}
		for i, s := range list {
			ls, ok := s.(*ast.LabeledStmt)
			if !ok {
				continue
			}
			b, ok := ls.Stmt.(*ast.BlockStmt)
			if !ok || len(b.List) != 2 {
				continue
			}
			as, ok := b.List[0].(*ast.AssignStmt)
			if !ok || len(as.Lhs) != 1 {
				continue
			}
			id, ok := as.Lhs[0].(*ast.Ident)
			if !ok || !(strings.HasPrefix(id.Name, "sim_m") || strings.HasPrefix(id.Name, "sim_ch")) {
				continue
			}
			list[i] = &ast.BlockStmt{List: []ast.Stmt{b.List[0], &ast.LabeledStmt{Label: ls.Label, Stmt: b.List[1]}}}
		}
		return true
	})
}

func (r *rw) goStmt(x *ast.GoStmt) ast.Stmt {
	c := x.Call
	var pre []ast.Stmt
	bind := func(e ast.Expr) ast.Expr {
		tv, ok := r.info.Types[e]
		if ok && (tv.Value != nil || tv.IsNil() || tv.IsType()) {
			return r.expr(e)
		}
		id := r.fresh("a")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(e)}})
		return id
	}
	fun := c.Fun
	for {
		p, ok := fun.(*ast.ParenExpr)
		if !ok {
			break
		}
		fun = p.X
	}
	isBuiltin := false
	switch f := fun.(type) {
	case *ast.Ident:
		switch r.info.Uses[f].(type) {
		case *types.Builtin:
			isBuiltin = true
		case *types.Func:
		default:
			fun = bind(f)
		}
	case *ast.FuncLit:
		fun = r.expr(f)
	case *ast.SelectorExpr:
		if id, ok := f.X.(*ast.Ident); ok {
			if _, ok := r.info.Uses[id].(*types.PkgName); ok {
				fun = r.expr(f)
				break
			}
		}
		fun = bind(f)
	default:
		fun = bind(c.Fun)
	}
	_ = isBuiltin
	nc := &ast.CallExpr{Fun: fun, Ellipsis: c.Ellipsis}
	for _, a := range c.Args {
		nc.Args = append(nc.Args, bind(a))
	}
	if nc.Ellipsis != token.NoPos {
		nc.Ellipsis = 1
	}
	body := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}}}
	pre = append(pre, &ast.ExprStmt{X: call(sel("sim_rt", "Go"), body)})
	return &ast.BlockStmt{List: pre}
}

func main() {
	repo := flag.String("repo", "/repo", "repository directory")
	out := flag.String("out", "", "output directory")
	root := flag.String("sim", "", "simulator module directory")
	modfile := flag.String("modfile", "", "go.mod to use")
	tags := flag.String("tags", "verif", "build tags")
	flag.Parse()
	if *out == "" || *root == "" {
		die("need -out and -sim")
	}
	bctx := build.Default
	bctx.BuildTags = strings.Split(*tags, ",")
	fset := token.NewFileSet()
	all, _ := filepath.Glob(filepath.Join(*repo, "*.go"))
	sort.Strings(all)
	var files []*ast.File
	var fnames []string
	imports := map[string]bool{}
	for _, n := range all {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		ok, err := bctx.MatchFile(*repo, filepath.Base(n))
		if err != nil {
			die("%v", err)
		}
		if !ok {
			continue
		}
		f, err := parser.ParseFile(fset, n, nil, 0)
		if err != nil {
			die("%v", err)
		}
		files = append(files, f)
		fnames = append(fnames, filepath.Base(n))
		for _, im := range f.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			imports[p] = true
		}
	}
	if len(files) == 0 {
		die("no Go files in %s", *repo)
	}
	smtpdFiles, _ := filepath.Glob(filepath.Join(*root, "smtpd", "*.go"))
	var sf []*ast.File
	for _, n := range smtpdFiles {
		f, err := parser.ParseFile(fset, n, nil, 0)
		if err != nil {
			die("%v", err)
		}
		sf = append(sf, f)
		for _, im := range f.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			imports[p] = true
		}
	}
	// Export data of everything imported, dependencies included.
	exports := map[string]string{}
	var list []string
	for p := range imports {
		if p != smtpdPath && p != "unsafe" && p != "C" {
			list = append(list, p)
		}
	}
	sort.Strings(list)
	cmd := exec.Command("go", append([]string{"list", "-modfile=" + *modfile, "-export", "-deps", "-json=ImportPath,Export"}, list...)...)
	cmd.Dir = *root
	cmd.Stderr = os.Stderr
	lo, err := cmd.Output()
	if err != nil {
		die("go list -export: %v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(lo))
	for {
		var p struct{ ImportPath, Export string }
		if err := dec.Decode(&p); err != nil {
			break
		}
		exports[p.ImportPath] = p.Export
	}
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	imp := &twoImporter{gc: gc}
	var terr error
	sconf := types.Config{Importer: imp, Error: func(err error) {
		if terr == nil {
			terr = err
		}
	}}
	spkg, _ := sconf.Check(smtpdPath, fset, sf, nil)
	if terr != nil {
		die("smtpd stand-in: %v", terr)
	}
	imp.smtpd = spkg
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
		Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
	}
	conf := types.Config{Importer: imp, GoVersion: "go1.21", Error: func(err error) {
		if terr == nil {
			terr = err
		}
	}}
	_, _ = conf.Check("main", fset, files, info)
	if terr != nil {
		die("type error: %v", terr)
	}

	r := &rw{fset: fset, info: info, names: map[string]map[string]bool{}, yield: true}
	for real, sh := range shims {
		r.names[real] = exportedOf(filepath.Join(*root, "shim", filepath.Base(sh)))
	}

	type ginit struct {
		lhs []string
		rhs ast.Expr
		pos token.Pos
	}
	// Package variables, by file.
	initFn := map[token.Pos]string{}
	var order []string
	fileOf := func(p token.Pos) int {
		for i, f := range files {
			if f.FileStart <= p && p <= f.FileEnd {
				return i
			}
		}
		return -1
	}
	extra := make([][]ast.Decl, len(files))
	n := 0
	mkfunc := func(name string, body ...ast.Stmt) *ast.FuncDecl {
		return &ast.FuncDecl{Name: ast.NewIdent(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}}
	}
	// Source text of initialisers must be duplicated before rewriting: the
	// declaration keeps its own copy. We move the initialisers into
	// functions used both at package init (through the declaration) and on
	// reset, by re-parsing.
	text := func(nd ast.Node) string {
		var b bytes.Buffer
		if err := printer.Fprint(&b, fset, nd); err != nil {
			die("%v", err)
		}
		return b.String()
	}
	_ = text
	// Zero the variables without initialiser first.
	for fi, f := range files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				if len(vs.Values) != 0 {
					continue
				}
				for _, nm := range vs.Names {
					if nm.Name == "_" {
						continue
					}
					n++
					fn := fmt.Sprintf("simZero%d", n)
					z := r.fresh("z")
					extra[fi] = append(extra[fi], mkfunc(fn,
						// *ptr = *new(T): a generic helper avoids naming T
						&ast.ExprStmt{X: call(sel("sim_rt", "Zero"), &ast.UnaryExpr{Op: token.AND, X: ast.NewIdent(nm.Name)})},
					))
					_ = z
					order = append(order, fn)
				}
			}
		}
	}
	// Then the initialisers in Go's order.
	// The right-hand sides are moved out of the declarations: "var x = e"
	// becomes "var x T"-less form "var x = simInitN()", and the reset calls
	// "x = simInitN()".
	rhsOwner := map[ast.Expr]*ast.ValueSpec{}
	for _, f := range files {
		for _, d := range f.Decls {
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
				for _, s := range gd.Specs {
					vs := s.(*ast.ValueSpec)
					for _, v := range vs.Values {
						rhsOwner[v] = vs
					}
				}
			}
		}
	}
	type pending struct {
		file int
		fn   string
		lhs  []string
		rhs  ast.Expr
	}
	var pend []pending
	for _, in := range info.InitOrder {
		fi := fileOf(in.Rhs.Pos())
		var lhs []string
		for _, v := range in.Lhs {
			lhs = append(lhs, v.Name())
		}
		n++
		fn := fmt.Sprintf("simInit%d", n)
		order = append(order, fn)
		pend = append(pend, pending{fi, fn, lhs, in.Rhs})
	}
	_ = initFn

	// Rewrite everything in place.
	usedBy := make([]map[string]bool, len(files))
	ninit := 0
	hasMain := false
	for fi, f := range files {
		r.used = map[string]bool{}
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				if x.Recv != nil {
					r.fields(x.Recv)
				}
				r.funcType(x.Type)
				r.block(x.Body)
				fixLabels(x)
				if x.Recv == nil && x.Name.Name == "main" {
					x.Name = ast.NewIdent("SimMain")
					hasMain = true
				}
				if x.Recv == nil && x.Name.Name == "init" {
					ninit++
					x.Name = ast.NewIdent(fmt.Sprintf("simPkgInit%d", ninit))
					order = append(order, x.Name.Name)
				}
			case *ast.GenDecl:
				if x.Tok != token.IMPORT {
					r.declStmt(x)
				}
			}
		}
		usedBy[fi] = r.used
	}
	if !hasMain {
		die("no func main")
	}
	// Initialisers: the (rewritten) right-hand side expression nodes are
	// shared between the declaration and the reset function, which is fine
	// for printing. expr() may have replaced the node in the declaration,
	// so look the current one up through its owner.
	for _, p := range pend {
		var lhs []ast.Expr
		for _, l := range p.lhs {
			lhs = append(lhs, ast.NewIdent(l))
		}
		rhs := p.rhs
		if vs := rhsOwner[p.rhs]; vs != nil {
			if len(vs.Values) == 1 {
				rhs = vs.Values[0]
			} else {
				for i, nm := range vs.Names {
					if nm.Name == p.lhs[0] || (nm.Name == "_" && p.lhs[0] == "_") {
						rhs = vs.Values[i]
					}
				}
			}
		}
		extra[p.file] = append(extra[p.file], mkfunc(p.fn, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{rhs}}))
	}
	if err := os.MkdirAll(*out, 0777); err != nil {
		die("%v", err)
	}
	for fi, f := range files {
		f.Name = ast.NewIdent("vsut")
		f.Comments = nil
		for _, d := range extra[fi] {
			f.Decls = append(f.Decls, d)
		}
		fixImports(f, usedBy[fi], info)
		var b bytes.Buffer
		if err := printer.Fprint(&b, token.NewFileSet(), f); err != nil {
			die("printing %s: %v", fnames[fi], err)
		}
		if err := os.WriteFile(filepath.Join(*out, fnames[fi]), b.Bytes(), 0666); err != nil {
			die("%v", err)
		}
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package vsut\n\nfunc ResetGlobals() {\n")
	for _, o := range order {
		fmt.Fprintf(&b, "\t%s()\n", o)
	}
	fmt.Fprintf(&b, "}\n")
	if err := os.WriteFile(filepath.Join(*out, "zz_simreset.go"), b.Bytes(), 0666); err != nil {
		die("%v", err)
	}
	gm := "module vsut\n\ngo 1.21\n"
	if err := os.WriteFile(filepath.Join(*out, "go.mod"), []byte(gm), 0666); err != nil {
		die("%v", err)
	}
}

// fixImports drops imports no longer referenced and adds those of the shims.
func fixImports(f *ast.File, shimUsed map[string]bool, info *types.Info) {
	refs := map[string]bool{}
	for _, d := range f.Decls {
		ast.Inspect(d, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok {
				if id, ok := s.X.(*ast.Ident); ok {
					if pn, ok := info.Uses[id].(*types.PkgName); ok {
						refs[pn.Name()+"\x00"+pn.Imported().Path()] = true
					}
				}
			}
			return true
		})
	}
	var specs []ast.Spec
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		keep := false
		if im.Name != nil && (im.Name.Name == "_" || im.Name.Name == ".") {
			keep = im.Name.Name == "."
			// blank imports have only side effects outside the
			// simulation (pprof handlers): dropped.
		} else {
			for k := range refs {
				if strings.HasSuffix(k, "\x00"+p) {
					nm := strings.SplitN(k, "\x00", 2)[0]
					if im.Name == nil || im.Name.Name == nm {
						keep = true
					}
				}
			}
		}
		if keep {
			im.EndPos = 0
			specs = append(specs, &ast.ImportSpec{Name: im.Name, Path: &ast.BasicLit{Kind: token.STRING, Value: im.Path.Value}})
		}
	}
	specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent("sim_rt"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote("vsim/rt")}})
	var sh []string
	for s := range shimUsed {
		sh = append(sh, s)
	}
	sort.Strings(sh)
	for _, s := range sh {
		specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent(alias(s)), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(s)}})
	}
	var decls []ast.Decl
	for _, d := range f.Decls {
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
			continue
		}
		decls = append(decls, d)
	}
	id := &ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Specs: specs, Rparen: 1}
	use := &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{sel("sim_rt", "Y")}}}}
	f.Decls = append([]ast.Decl{id, use}, decls...)
	f.Imports = nil
}

type twoImporter struct {
	gc    types.Importer
	smtpd *types.Package
}

func (t *twoImporter) Import(path string) (*types.Package, error) {
	if path == smtpdPath {
		if t.smtpd == nil {
			return nil, fmt.Errorf("smtpd not loaded")
		}
		return t.smtpd, nil
	}
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	return t.gc.Import(path)
}
