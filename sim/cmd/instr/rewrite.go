package main

import (
	"go/ast"
	"go/token"
	"go/types"
)

type mode int

const (
	read mode = iota
	write
	addr
)

func ident(n string) *ast.Ident { return ast.NewIdent(n) }

func define(lhs []ast.Expr, rhs ...ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
}

func define1(n string, e ast.Expr) ast.Stmt { return define([]ast.Expr{ident(n)}, e) }

func blockOf(s ...ast.Stmt) *ast.BlockStmt { return &ast.BlockStmt{List: s} }

func exprStmt(e ast.Expr) ast.Stmt { return &ast.ExprStmt{X: e} }

func labeled(l *ast.Ident, s ast.Stmt) ast.Stmt {
	if l == nil {
		return s
	}
	return &ast.LabeledStmt{Label: l, Stmt: s}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (f *fileCtx) typeOf(e ast.Expr) types.Type {
	if tv, ok := f.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := f.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := f.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func isPtr(t types.Type) bool    { _, ok := under(t).(*types.Pointer); return ok }
func isMap(t types.Type) bool    { _, ok := under(t).(*types.Map); return ok }
func isSlice(t types.Type) bool  { _, ok := under(t).(*types.Slice); return ok }
func isStruct(t types.Type) bool { _, ok := under(t).(*types.Struct); return ok }
func isChan(t types.Type) bool   { _, ok := under(t).(*types.Chan); return ok }
func isArray(t types.Type) bool  { _, ok := under(t).(*types.Array); return ok }

func (f *fileCtx) isType(e ast.Expr) bool { tv, ok := f.info.Types[e]; return ok && tv.IsType() }
func (f *fileCtx) isConst(e ast.Expr) bool {
	tv, ok := f.info.Types[e]
	return ok && (tv.Value != nil || tv.IsNil())
}

func (f *fileCtx) builtin(e ast.Expr) string {
	id, ok := unparen(e).(*ast.Ident)
	if !ok {
		return ""
	}
	if b, ok := f.info.Uses[id].(*types.Builtin); ok {
		return b.Name()
	}
	return ""
}

func (f *fileCtx) trackedIdent(e ast.Expr) bool {
	id, ok := unparen(e).(*ast.Ident)
	if !ok {
		return false
	}
	o := f.info.Uses[id]
	return o != nil && f.tracked[o]
}

// sharable reports whether the storage e denotes may be reachable from elsewhere.
func (f *fileCtx) sharable(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.SelectorExpr:
		sel := f.info.Selections[x]
		if sel == nil || sel.Kind() != types.FieldVal {
			return false
		}
		return isPtr(f.typeOf(x.X)) || sel.Indirect() || f.sharable(x.X)
	case *ast.IndexExpr:
		t := f.typeOf(x.X)
		if isSlice(t) {
			return f.sharableSlice(x.X)
		}
		if isPtr(t) {
			return true
		}
		if isArray(t) {
			return f.sharable(x.X)
		}
		return false
	case *ast.StarExpr:
		return true
	case *ast.Ident:
		return f.trackedIdent(x)
	}
	return false
}

func (f *fileCtx) sharableSlice(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.Ident:
		return f.trackedIdent(x)
	case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		return true
	}
	return false
}

// addressable reports whether e denotes a variable.
func (f *fileCtx) addressable(e ast.Expr) bool {
	tv, ok := f.info.Types[e]
	if ok {
		return tv.Addressable()
	}
	if id, ok := e.(*ast.Ident); ok {
		_, isVar := f.info.Uses[id].(*types.Var)
		return isVar
	}
	return false
}

func (f *fileCtx) note(e ast.Expr, m mode, pos token.Pos, t types.Type) ast.Expr {
	if m == addr {
		return e
	}
	fn := "R"
	if m == write {
		fn = "W"
	} else if isStruct(t) {
		fn = "RStruct"
	}
	star := &ast.StarExpr{X: call(rt(fn), &ast.UnaryExpr{Op: token.AND, X: e}, f.site(pos))}
	if m == write {
		return star
	}
	return &ast.ParenExpr{X: star}
}

// holder rewrites the operand through which a field or array element is reached.
func (f *fileCtx) holder(x ast.Expr) ast.Expr {
	if !isPtr(f.typeOf(x)) && f.addressable(x) {
		return f.expr(x, addr)
	}
	return f.expr(x, read)
}

func (f *fileCtx) mem() bool { return f.level >= 3 }

func (f *fileCtx) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = f.expr(l[i], read)
	}
}

func (f *fileCtx) expr(e ast.Expr, m mode) ast.Expr {
	if e == nil || f.isType(e) || f.isConst(e) {
		return e
	}
	switch x := e.(type) {
	case *ast.Ident:
		if f.mem() && f.trackedIdent(x) {
			return f.note(x, m, x.Pos(), f.typeOf(x))
		}
	case *ast.FuncLit:
		x.Body = f.block(x.Body)
	case *ast.ParenExpr:
		x.X = f.expr(x.X, m)
	case *ast.SelectorExpr:
		return f.selector(x, m)
	case *ast.StarExpr:
		t := f.typeOf(x)
		x.X = f.expr(x.X, read)
		if !f.mem() || m == addr {
			return x
		}
		fn := "R"
		if m == write {
			fn = "W"
		} else if isStruct(t) {
			fn = "RStruct"
		}
		star := &ast.StarExpr{X: call(rt(fn), x.X, f.site(x.Pos()))}
		if m == write {
			return star
		}
		return &ast.ParenExpr{X: star}
	case *ast.IndexExpr:
		t := f.typeOf(x.X)
		elem := f.typeOf(x)
		switch {
		case isMap(t):
			x.X = f.expr(x.X, read)
			x.Index = f.expr(x.Index, read)
			if f.mem() {
				fn := "MR"
				if m == write {
					fn = "MW"
				}
				x.X = call(rt(fn), x.X, f.site(x.Pos()))
			}
		case isSlice(t):
			tr := f.mem() && f.sharableSlice(x.X)
			x.X = f.expr(x.X, read)
			x.Index = f.expr(x.Index, read)
			if tr {
				return f.note(x, m, x.Pos(), elem)
			}
		case isArray(t), isPtr(t):
			tr := f.mem() && f.sharable(x)
			x.X = f.holder(x.X)
			x.Index = f.expr(x.Index, read)
			if tr {
				return f.note(x, m, x.Pos(), elem)
			}
		default:
			if tv, ok := f.info.Types[x.X]; ok && tv.IsValue() {
				if _, sig := under(tv.Type).(*types.Signature); !sig {
					x.X = f.expr(x.X, read)
					x.Index = f.expr(x.Index, read)
				}
			}
		}
	case *ast.SliceExpr:
		if isArray(f.typeOf(x.X)) {
			x.X = f.expr(x.X, addr)
		} else {
			x.X = f.expr(x.X, read)
		}
		x.Low, x.High, x.Max = f.expr(x.Low, read), f.expr(x.High, read), f.expr(x.Max, read)
	case *ast.TypeAssertExpr:
		x.X = f.expr(x.X, read)
	case *ast.CallExpr:
		return f.callExpr(x, false)
	case *ast.UnaryExpr:
		switch x.Op {
		case token.AND:
			x.X = f.expr(x.X, addr)
		case token.ARROW:
			return call(rt("Recv"), f.expr(x.X, read))
		default:
			x.X = f.expr(x.X, read)
		}
	case *ast.BinaryExpr:
		x.X = f.expr(x.X, read)
		x.Y = f.expr(x.Y, read)
	case *ast.CompositeLit:
		st := isStruct(f.typeOf(x)) || isPtr(f.typeOf(x)) && isStruct(under(f.typeOf(x)).(*types.Pointer).Elem())
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !st {
					kv.Key = f.expr(kv.Key, read)
				}
				kv.Value = f.expr(kv.Value, read)
				continue
			}
			x.Elts[i] = f.expr(el, read)
		}
	}
	return e
}

// qualified returns the package path and name of a qualified identifier.
func (f *fileCtx) qualified(x *ast.SelectorExpr) (string, string) {
	id, ok := x.X.(*ast.Ident)
	if !ok {
		return "", ""
	}
	if pn, ok := f.info.Uses[id].(*types.PkgName); ok {
		return pn.Imported().Path(), x.Sel.Name
	}
	return "", ""
}

// output redirects the standard output, and everything of type *os.File with it.
func (f *fileCtx) output() {
	if f.level < 2 {
		return
	}
	ast.Inspect(f.af, func(n ast.Node) bool {
		x, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		path, name := f.qualified(x)
		if path == "os" && osNames[name] || path == "fmt" && (name == "Print" || name == "Println" || name == "Printf") {
			f.drop[path]++
			f.usesOS = true
			x.X = ident(osName)
			return false
		}
		return true
	})
}

// osNames are the names of package os that have a counterpart in package sos.
var osNames = map[string]bool{
	"File": true, "Stdin": true, "Stdout": true, "Stderr": true, "NewFile": true,
	"Open": true, "Create": true, "OpenFile": true, "CreateTemp": true,
}

func (f *fileCtx) selector(x *ast.SelectorExpr, m mode) ast.Expr {
	if path, name := f.qualified(x); path != "" {
		switch {
		case path == "runtime" && name == "Gosched":
			f.drop[path]++
			return rt("Gosched")
		case path == "reflect" && name == "Select":
			f.drop[path]++
			return rt("ReflectSelect")
		}
		return x
	}
	sel := f.info.Selections[x]
	if sel == nil {
		return x
	}
	switch sel.Kind() {
	case types.FieldVal:
		tr := f.mem() && f.sharable(x)
		t := f.typeOf(x)
		x.X = f.holder(x.X)
		if tr {
			return f.note(x, m, x.Sel.Pos(), t)
		}
		return x
	case types.MethodVal:
		t := f.typeOf(x.X)
		if types.IsInterface(t) {
			x.X = f.expr(x.X, read)
			return x
		}
		fn, _ := sel.Obj().(*types.Func)
		sig, _ := fn.Type().(*types.Signature)
		direct := len(sel.Index()) == 1
		ptrRecv := sig != nil && sig.Recv() != nil && isPtr(sig.Recv().Type())
		switch {
		case isPtr(t):
			x.X = f.expr(x.X, read)
			if direct && !ptrRecv && f.mem() && isStruct(under(t).(*types.Pointer).Elem()) {
				x.X = call(rt("RStruct"), x.X, f.site(x.Sel.Pos()))
			}
		case direct && !ptrRecv:
			x.X = f.expr(x.X, read)
		default:
			x.X = f.holder(x.X)
		}
	}
	return x
}

func (f *fileCtx) callExpr(x *ast.CallExpr, deferred bool) ast.Expr {
	if f.isType(x.Fun) {
		f.exprs(x.Args)
		return x
	}
	switch f.builtin(x.Fun) {
	case "":
		x.Fun = f.expr(x.Fun, read)
		f.exprs(x.Args)
		return x
	case "close":
		return call(rt("Close"), f.expr(x.Args[0], read))
	case "len":
		if isMap(f.typeOf(x.Args[0])) && f.mem() {
			x.Args[0] = call(rt("MR"), f.expr(x.Args[0], read), f.site(x.Pos()))
			return x
		}
		if isArray(f.typeOf(x.Args[0])) {
			x.Args[0] = f.expr(x.Args[0], addr)
			return x
		}
	case "delete", "clear":
		mp := isMap(f.typeOf(x.Args[0]))
		f.exprs(x.Args)
		if f.mem() && !deferred && mp {
			x.Args[0] = call(rt("MW"), x.Args[0], f.site(x.Pos()))
		}
		return x
	case "make", "new":
		f.exprs(x.Args[1:])
		return x
	}
	f.exprs(x.Args)
	return x
}

// calls reports whether evaluating e may run other code or block.
func (f *fileCtx) calls(es ...ast.Expr) bool {
	found := false
	for _, e := range es {
		if e == nil {
			continue
		}
		ast.Inspect(e, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncLit:
				return false
			case *ast.CallExpr:
				if !f.isType(x.Fun) && f.builtin(x.Fun) == "" {
					found = true
				}
			case *ast.UnaryExpr:
				if x.Op == token.ARROW {
					found = true
				}
			}
			return !found
		})
	}
	return found
}

// recvOf returns the channel expression if e is a receive.
func recvOf(e ast.Expr) (ast.Expr, bool) {
	if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u.X, true
	}
	return nil, false
}

func (f *fileCtx) valueSpec(vs *ast.ValueSpec) {
	if len(vs.Values) == 1 && len(vs.Names) == 2 {
		if ch, ok := recvOf(vs.Values[0]); ok {
			vs.Values[0] = call(rt("Recv2"), f.expr(ch, read))
			return
		}
	}
	f.exprs(vs.Values)
}

func (f *fileCtx) block(b *ast.BlockStmt) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	b.List = f.list(b.List)
	return b
}

func (f *fileCtx) list(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		out = append(out, f.stmt(s, nil)...)
	}
	return out
}

func blank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

// assign rewrites an assignment; statements to append are returned when the
// context allows them.
func (f *fileCtx) assign(s *ast.AssignStmt, canAppend bool) []ast.Stmt {
	rhsCalls := f.calls(s.Rhs...)
	if len(s.Rhs) == 1 && len(s.Lhs) == 2 {
		if ch, ok := recvOf(s.Rhs[0]); ok {
			s.Rhs[0] = call(rt("Recv2"), f.expr(ch, read))
		} else {
			f.exprs(s.Rhs)
		}
	} else {
		f.exprs(s.Rhs)
	}
	var after []ast.Stmt
	if s.Tok == token.DEFINE {
		for _, l := range s.Lhs {
			if f.mem() && canAppend && !blank(l) && f.trackedIdent(l) { // reused variable
				id := l.(*ast.Ident)
				after = append(after, exprStmt(call(rt("W"), &ast.UnaryExpr{Op: token.AND, X: ident(id.Name)}, f.site(id.Pos()))))
			}
		}
		return after
	}
	for i, l := range s.Lhs {
		if blank(l) {
			continue
		}
		if !f.mem() {
			s.Lhs[i] = f.expr(l, write)
			continue
		}
		if !rhsCalls {
			s.Lhs[i] = f.expr(l, write)
			continue
		}
		if f.calls(l) {
			f.level = -f.level // no access tracking inside
			s.Lhs[i] = f.expr(l, addr)
			f.level = -f.level
			continue
		}
		if !canAppend {
			continue
		}
		switch x := unparen(l).(type) {
		case *ast.Ident:
			if f.trackedIdent(x) {
				after = append(after, exprStmt(call(rt("W"), &ast.UnaryExpr{Op: token.AND, X: ident(x.Name)}, f.site(x.Pos()))))
			}
		case *ast.SelectorExpr:
			if f.info.Selections[x] != nil && f.sharable(x) && simplePath(x) {
				after = append(after, exprStmt(call(rt("W"), &ast.UnaryExpr{Op: token.AND, X: x}, f.site(x.Pos()))))
			}
		case *ast.IndexExpr:
			if isMap(f.typeOf(x.X)) && simplePath(x.X) {
				after = append(after, exprStmt(call(rt("MW"), x.X, f.site(x.Pos()))))
			}
		}
	}
	return after
}

// simplePath reports whether e is a chain of identifiers and fields.
func simplePath(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return simplePath(x.X)
	}
	return false
}

// simple rewrites a statement in a place where only one statement fits.
func (f *fileCtx) simple(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.AssignStmt:
		f.assign(x, false)
		return x
	}
	l := f.stmt(s, nil)
	if len(l) == 1 {
		return l[0]
	}
	return s
}

func (f *fileCtx) stmt(s ast.Stmt, label *ast.Ident) []ast.Stmt {
	one := func(s ast.Stmt) []ast.Stmt { return []ast.Stmt{labeled(label, s)} }
	switch x := s.(type) {
	case *ast.LabeledStmt:
		return f.stmt(x.Stmt, x.Label)
	case *ast.AssignStmt:
		after := f.assign(x, true)
		return append(one(x), after...)
	case *ast.ExprStmt:
		x.X = f.expr(x.X, read)
		return one(x)
	case *ast.IncDecStmt:
		x.X = f.expr(x.X, write)
		return one(x)
	case *ast.SendStmt:
		ch := f.expr(x.Chan, read)
		return one(exprStmt(call(call(rt("SendTo"), ch), f.expr(x.Value, read))))
	case *ast.GoStmt:
		return one(f.goStmt(x))
	case *ast.DeferStmt:
		c := f.callExpr(x.Call, true)
		x.Call = c.(*ast.CallExpr)
		return one(x)
	case *ast.ReturnStmt:
		f.exprs(x.Results)
		return one(x)
	case *ast.BlockStmt:
		return one(f.block(x))
	case *ast.IfStmt:
		x.Init = f.simple(x.Init)
		x.Cond = f.expr(x.Cond, read)
		x.Body = f.block(x.Body)
		if x.Else != nil {
			l := f.stmt(x.Else, nil)
			if len(l) == 1 {
				x.Else = l[0]
			}
		}
		return one(x)
	case *ast.ForStmt:
		x.Init = f.simple(x.Init)
		x.Cond = f.expr(x.Cond, read)
		x.Post = f.simple(x.Post)
		x.Body = f.loopBody(x.Body)
		return one(x)
	case *ast.RangeStmt:
		return f.rangeStmt(x, label)
	case *ast.SwitchStmt:
		x.Init = f.simple(x.Init)
		x.Tag = f.expr(x.Tag, read)
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			f.exprs(cc.List)
			cc.Body = f.list(cc.Body)
		}
		return one(x)
	case *ast.TypeSwitchStmt:
		x.Init = f.simple(x.Init)
		switch a := x.Assign.(type) {
		case *ast.AssignStmt:
			ta := a.Rhs[0].(*ast.TypeAssertExpr)
			ta.X = f.expr(ta.X, read)
		case *ast.ExprStmt:
			ta := a.X.(*ast.TypeAssertExpr)
			ta.X = f.expr(ta.X, read)
		}
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = f.list(cc.Body)
		}
		return one(x)
	case *ast.SelectStmt:
		return f.selectStmt(x, label)
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, sp := range g.Specs {
				f.valueSpec(sp.(*ast.ValueSpec))
			}
		}
		return one(x)
	}
	return one(s)
}

func (f *fileCtx) loopBody(b *ast.BlockStmt) *ast.BlockStmt {
	b = f.block(b)
	b.List = append([]ast.Stmt{exprStmt(call(rt("Loop")))}, b.List...)
	return b
}

func (f *fileCtx) rangeStmt(x *ast.RangeStmt, label *ast.Ident) []ast.Stmt {
	t := f.typeOf(x.X)
	switch {
	case isChan(t):
		c, ok := f.fresh("c"), f.fresh("ok")
		recv := func() ast.Expr { return call(rt("Recv2"), ident(c)) }
		stmts := []ast.Stmt{define1(c, f.expr(x.X, read))}
		var init ast.Stmt
		key := x.Key
		if key == nil {
			key = ident("_")
		}
		var postKey ast.Expr = key
		if x.Tok == token.DEFINE || x.Key == nil {
			init = define([]ast.Expr{key, ident(ok)}, recv())
			if id, isID := key.(*ast.Ident); isID {
				postKey = ident(id.Name)
			}
		} else {
			stmts = append(stmts, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ident(ok)}, Type: ident("bool")}}}})
			init = &ast.AssignStmt{Lhs: []ast.Expr{key, ident(ok)}, Tok: token.ASSIGN, Rhs: []ast.Expr{recv()}}
		}
		post := &ast.AssignStmt{Lhs: []ast.Expr{postKey, ident(ok)}, Tok: token.ASSIGN, Rhs: []ast.Expr{recv()}}
		loop := &ast.ForStmt{Init: init, Cond: ident(ok), Post: post, Body: f.block(x.Body)}
		f.noteRangeVars(x, loop.Body)
		stmts = append(stmts, labeled(label, loop))
		return []ast.Stmt{blockOf(stmts...)}
	case isMap(t):
		m, k, ok := f.fresh("m"), f.fresh("k"), f.fresh("ok")
		site := f.site(x.X.Pos())
		stmts := []ast.Stmt{define1(m, f.expr(x.X, read))}
		hasKey := x.Key != nil && !blank(x.Key)
		hasVal := x.Value != nil && !blank(x.Value)
		if x.Tok == token.DEFINE {
			if hasKey {
				stmts = append(stmts, define([]ast.Expr{x.Key}, call(rt("ZeroK"), ident(m))))
			}
			if hasVal {
				stmts = append(stmts, define([]ast.Expr{x.Value}, call(rt("ZeroV"), ident(m))))
			}
		}
		lhs := func(e ast.Expr) ast.Expr {
			if x.Tok == token.DEFINE {
				id := e.(*ast.Ident)
				if o := f.info.Defs[id]; o != nil && f.mem() && f.tracked[o] {
					return f.note(ident(id.Name), write, id.Pos(), o.Type())
				}
				return ident(id.Name)
			}
			return f.expr(e, write)
		}
		var head []ast.Stmt
		mr := call(rt("MR"), ident(m), site)
		idx := &ast.IndexExpr{X: mr, Index: ident(k)}
		if hasVal {
			v := f.fresh("v")
			head = append(head, define([]ast.Expr{ident(v), ident(ok)}, idx))
			head = append(head, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ident(ok)}, Body: blockOf(&ast.BranchStmt{Tok: token.CONTINUE})})
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{lhs(x.Value)}, Tok: token.ASSIGN, Rhs: []ast.Expr{ident(v)}})
		} else {
			head = append(head, &ast.IfStmt{Init: define([]ast.Expr{ident("_"), ident(ok)}, idx), Cond: &ast.UnaryExpr{Op: token.NOT, X: ident(ok)}, Body: blockOf(&ast.BranchStmt{Tok: token.CONTINUE})})
		}
		if hasKey {
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{lhs(x.Key)}, Tok: token.ASSIGN, Rhs: []ast.Expr{ident(k)}})
		}
		body := f.loopBody(x.Body)
		body.List = append(head, body.List...)
		loop := &ast.RangeStmt{Key: ident("_"), Value: ident(k), Tok: token.DEFINE, X: call(rt("MapKeys"), ident(m), site), Body: body}
		stmts = append(stmts, labeled(label, loop))
		return []ast.Stmt{blockOf(stmts...)}
	}
	x.X = f.expr(x.X, read)
	if x.Tok == token.ASSIGN {
		// assigned through plain variables; observed inside the body
	}
	x.Body = f.loopBody(x.Body)
	f.noteRangeVars(x, x.Body)
	return []ast.Stmt{labeled(label, x)}
}

// noteRangeVars records the implicit write of captured range variables.
func (f *fileCtx) noteRangeVars(x *ast.RangeStmt, body *ast.BlockStmt) {
	if !f.mem() {
		return
	}
	var head []ast.Stmt
	for _, e := range []ast.Expr{x.Key, x.Value} {
		id, ok := e.(*ast.Ident)
		if !ok || id.Name == "_" {
			continue
		}
		o := f.info.Defs[id]
		if o == nil {
			o = f.info.Uses[id]
		}
		if o != nil && f.tracked[o] {
			head = append(head, exprStmt(call(rt("W"), &ast.UnaryExpr{Op: token.AND, X: ident(id.Name)}, f.site(id.Pos()))))
		}
	}
	body.List = append(head, body.List...)
}

func (f *fileCtx) selectStmt(x *ast.SelectStmt, label *ast.Ident) []ast.Stmt {
	if len(x.Body.List) == 0 {
		return []ast.Stmt{labeled(label, &ast.ForStmt{Body: blockOf(exprStmt(call(rt("BlockForever"))))})}
	}
	hasDefault := false
	var pre []ast.Stmt
	var clauses []ast.Stmt
	var cases []ast.Expr
	for _, c := range x.Body.List {
		if c.(*ast.CommClause).Comm == nil {
			hasDefault = true
		}
	}
	n := len(x.Body.List)
	for i, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		var head []ast.Stmt
		if cc.Comm != nil {
			v := f.fresh("case")
			switch s := cc.Comm.(type) {
			case *ast.SendStmt:
				pre = append(pre, define1(v, call(call(rt("CaseSend"), f.expr(s.Chan, read)), f.expr(s.Value, read))))
			case *ast.ExprStmt:
				ch, _ := recvOf(s.X)
				pre = append(pre, define1(v, call(rt("CaseRecv"), f.expr(ch, read))))
			case *ast.AssignStmt:
				ch, _ := recvOf(s.Rhs[0])
				pre = append(pre, define1(v, call(rt("CaseRecv"), f.expr(ch, read))))
				a := &ast.AssignStmt{Tok: s.Tok}
				for j, l := range s.Lhs {
					if s.Tok == token.ASSIGN && !blank(l) {
						l = f.expr(l, write)
					}
					a.Lhs = append(a.Lhs, l)
					a.Rhs = append(a.Rhs, &ast.SelectorExpr{X: ident(v), Sel: ident([]string{"V", "OK"}[j])})
				}
				head = append(head, a)
			}
			cases = append(cases, ident(v))
		}
		body := append(head, f.list(cc.Body)...)
		cl := &ast.CaseClause{Body: body}
		if cc.Comm != nil && (hasDefault || i != n-1) {
			cl.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: itoa(len(cases) - 1)}}
		}
		clauses = append(clauses, cl)
	}
	hd := "false"
	if hasDefault {
		hd = "true"
	}
	sw := &ast.SwitchStmt{Tag: call(rt("Select"), append([]ast.Expr{ident(hd)}, cases...)...), Body: &ast.BlockStmt{List: clauses}}
	pre = append(pre, labeled(label, sw))
	return []ast.Stmt{blockOf(pre...)}
}

func itoa(n int) string {
	if n >= 10 {
		return itoa(n/10) + string(rune('0'+n%10))
	}
	return string(rune('0' + n))
}

func (f *fileCtx) goStmt(x *ast.GoStmt) ast.Stmt {
	c := x.Call
	wrap := func(e ast.Expr) ast.Stmt {
		return exprStmt(call(rt("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: blockOf(exprStmt(e))}))
	}
	if lit, ok := unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 {
		e := f.expr(lit, read)
		if lit.Type.Results == nil || len(lit.Type.Results.List) == 0 {
			return exprStmt(call(rt("Go"), e))
		}
		return wrap(call(e))
	}
	var pre []ast.Stmt
	isBuiltin := f.builtin(c.Fun) != ""
	if !isBuiltin && !f.isType(c.Fun) {
		fun := f.expr(c.Fun, read)
		if _, plain := f.info.Uses[identOf(c.Fun)].(*types.Func); plain && isIdent(c.Fun) {
			c.Fun = fun
		} else {
			v := f.fresh("f")
			pre = append(pre, define1(v, fun))
			c.Fun = ident(v)
		}
	}
	if len(c.Args) == 1 {
		if tup, ok := f.typeOf(c.Args[0]).(*types.Tuple); ok {
			var lhs, use []ast.Expr
			for i := 0; i < tup.Len(); i++ {
				v := f.fresh("a")
				lhs = append(lhs, ident(v))
				use = append(use, ident(v))
			}
			pre = append(pre, define(lhs, f.expr(c.Args[0], read)))
			c.Args = use
			pre = append(pre, wrap(c))
			return blockOf(pre...)
		}
	}
	for i, a := range c.Args {
		if f.isConst(a) || f.isType(a) {
			continue
		}
		ch := isBuiltin && f.builtin(c.Fun) == "close"
		v := f.fresh("a")
		pre = append(pre, define1(v, f.expr(a, read)))
		c.Args[i] = ident(v)
		if ch {
			pre = append(pre, wrap(call(rt("Close"), ident(v))))
			return blockOf(pre...)
		}
	}
	pre = append(pre, wrap(c))
	return blockOf(pre...)
}

func isIdent(e ast.Expr) bool { _, ok := e.(*ast.Ident); return ok }

func identOf(e ast.Expr) *ast.Ident {
	id, _ := e.(*ast.Ident)
	return id
}
