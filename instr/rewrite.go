package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/printer"
	"go/token"
	"go/types"
	"reflect"
)

var (
	exprT  = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	stmtT  = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
	posT   = reflect.TypeOf(token.Pos(0))
	objT   = reflect.TypeOf((*ast.Object)(nil))
	scopeT = reflect.TypeOf((*ast.Scope)(nil))
)

func (r *pkgRW) rt(name string) ast.Expr {
	r.rtIn[r.file] = true
	return sel("simrt_", name)
}

func (r *pkgRW) fresh() string {
	r.tmp++
	return fmt.Sprintf("v_%d", r.tmp)
}

func (r *pkgRW) yieldStmt(pos token.Pos) ast.Stmt {
	line := 0
	if pos.IsValid() {
		line = r.fset.Position(pos).Line
	}
	sites = append(sites, fmt.Sprintf("%s/%s:%d %s", r.tpkg.Name(), r.base, line, r.fn))
	return stmtOf(call(r.rt("Y"), num(len(sites)-1)))
}

// walk rewrites the children of a node in place.
func (r *pkgRW) walk(n any) {
	v := reflect.ValueOf(n)
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return
		}
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return
	}
	switch x := n.(type) {
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u, ok := ast.Unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				r.two[u] = true
			}
		}
	case *ast.ValueSpec:
		if len(x.Names) == 2 && len(x.Values) == 1 {
			if u, ok := ast.Unparen(x.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				r.two[u] = true
			}
		}
		x.Doc, x.Comment = nil, nil
	case *ast.TypeSpec:
		x.Doc, x.Comment = nil, nil
	case *ast.Field:
		x.Doc, x.Comment = nil, nil
	case *ast.FuncLit:
		r.lits = append(r.lits, x)
		defer func() { r.lits = r.lits[:len(r.lits)-1] }()
	case *ast.SelectStmt:
		return // handled as a whole by stmt
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		switch {
		case f.Type() == objT || f.Type() == scopeT || f.Type() == posT:
		case f.Type() == exprT:
			if !f.IsNil() {
				f.Set(reflect.ValueOf(r.expr(f.Interface().(ast.Expr))))
			}
		case f.Type() == stmtT:
			if !f.IsNil() {
				// single statement positions: init, post, else, comm, labeled
				s := r.stmt(f.Interface().(ast.Stmt), nil)
				if len(s) == 1 {
					f.Set(reflect.ValueOf(s[0]))
				} else {
					f.Set(reflect.ValueOf(ast.Stmt(&ast.BlockStmt{List: s})))
				}
			}
		case f.Kind() == reflect.Slice && f.Type().Elem() == exprT:
			for j := 0; j < f.Len(); j++ {
				if e := f.Index(j); !e.IsNil() {
					e.Set(reflect.ValueOf(r.expr(e.Interface().(ast.Expr))))
				}
			}
		case f.Kind() == reflect.Slice && f.Type().Elem() == stmtT:
			inSwitch := false
			if b, ok := n.(*ast.BlockStmt); ok && len(b.List) > 0 {
				switch b.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					inSwitch = true
				}
			}
			if inSwitch {
				for j := 0; j < f.Len(); j++ {
					r.walk(f.Index(j).Interface())
				}
			} else {
				f.Set(reflect.ValueOf(r.list(f.Interface().([]ast.Stmt))))
			}
		case f.Kind() == reflect.Slice && f.Type().Elem().Kind() == reflect.Interface:
			for j := 0; j < f.Len(); j++ {
				if e := f.Index(j); !e.IsNil() {
					r.walk(e.Interface())
				}
			}
		case f.Kind() == reflect.Slice && f.Type().Elem().Kind() == reflect.Ptr:
			for j := 0; j < f.Len(); j++ {
				r.walk(f.Index(j).Interface())
			}
		case f.Kind() == reflect.Ptr:
			if !f.IsNil() {
				r.walk(f.Interface())
			}
		}
	}
	if r.full {
		var b *ast.BlockStmt
		switch x := n.(type) {
		case *ast.ForStmt:
			b = x.Body
		case *ast.RangeStmt:
			b = x.Body
		}
		if b != nil && len(b.List) == 0 {
			b.List = []ast.Stmt{r.yieldStmt(b.Lbrace)}
		}
	} else if x, ok := n.(*ast.ForStmt); ok && (len(x.Body.List) == 0 || x.Post == nil || x.Cond == nil) {
		// a loop that could spin must be preemptible everywhere
		x.Body.List = append([]ast.Stmt{r.yieldStmt(x.Body.Lbrace)}, x.Body.List...)
	}
}

func (r *pkgRW) list(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		pos := s.Pos()
		_, decl := s.(*ast.DeclStmt)
		_, empty := s.(*ast.EmptyStmt)
		if r.full && !decl && !empty {
			out = append(out, r.yieldStmt(pos))
		}
		out = append(out, r.stmt(s, nil)...)
	}
	return out
}

func (r *pkgRW) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func chanOf(t types.Type) *types.Chan {
	if t == nil {
		return nil
	}
	if c, ok := t.Underlying().(*types.Chan); ok {
		return c
	}
	if tp, ok := t.(*types.TypeParam); ok {
		if c, ok := coreChan(tp); ok {
			return c
		}
	}
	return nil
}

func coreChan(tp *types.TypeParam) (*types.Chan, bool) {
	iface, ok := tp.Constraint().Underlying().(*types.Interface)
	if !ok || iface.NumEmbeddeds() != 1 {
		return nil, false
	}
	u, ok := iface.EmbeddedType(0).(*types.Union)
	if !ok || u.Len() != 1 {
		return nil, false
	}
	c, ok := u.Term(0).Type().Underlying().(*types.Chan)
	return c, ok
}

func (r *pkgRW) pkgOf(x ast.Expr) string {
	if id, ok := x.(*ast.Ident); ok {
		if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
			return pn.Imported().Path()
		}
	}
	return ""
}

func (r *pkgRW) builtin(f ast.Expr) string {
	if id, ok := ast.Unparen(f).(*ast.Ident); ok {
		if b, ok := r.info.Uses[id].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

func (r *pkgRW) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			name := "Recv"
			if r.two[x] {
				name = "Recv2"
			}
			r.walk(x)
			return call(r.rt(name), x.X)
		}
	case *ast.CallExpr:
		switch b := r.builtin(x.Fun); b {
		case "close":
			r.walk(x)
			return call(r.rt("Close"), x.Args[0])
		case "make":
			sl, ok := r.typeOf(x).Underlying().(*types.Slice)
			if !ok {
				break
			}
			size := int64(0)
			func() {
				defer func() { recover() }() // type parameters have no size
				size = types.SizesFor("gc", "amd64").Sizeof(sl.Elem())
			}()
			if size <= 0 || r.constant(x.Args[len(x.Args)-1]) {
				break
			}
			r.walk(x)
			n := len(x.Args) - 1
			x.Args[n] = call(r.rt("AllocN"), x.Args[n], &ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(size)})
			return x
		case "len":
			if c := chanOf(r.typeOf(x.Args[0])); c != nil {
				r.walk(x)
				if c.Dir() == types.SendOnly {
					return call(r.rt("LenS"), x.Args[0])
				}
				return call(r.rt("Len"), x.Args[0])
			}
		}
	case *ast.SelectorExpr:
		if x.Sel.Name == "Args" && r.pkgOf(x.X) == "os" {
			return &ast.ParenExpr{X: &ast.StarExpr{X: call(&ast.SelectorExpr{X: x.X, Sel: ast.NewIdent("Args_")})}}
		}
	}
	r.walk(e)
	return e
}

func (r *pkgRW) constant(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	return ok && (tv.Value != nil || tv.IsNil())
}

// nonLocal says that other goroutines may reach the variable.
func (r *pkgRW) nonLocal(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return r.nonLocal(x.X)
	case *ast.Ident:
		o, ok := r.info.ObjectOf(x).(*types.Var)
		if !ok {
			return false
		}
		if o.Parent() == r.tpkg.Scope() {
			return true
		}
		if n := len(r.lits); n > 0 {
			l := r.lits[n-1]
			return o.Pos() < l.Pos() || o.Pos() >= l.End()
		}
		return false
	case *ast.SelectorExpr, *ast.StarExpr, *ast.IndexExpr:
		return true
	}
	return false
}

func (r *pkgRW) addressable(e ast.Expr) bool {
	x, ok := ast.Unparen(e).(*ast.IndexExpr)
	if !ok {
		return true
	}
	t := r.typeOf(x.X)
	if t == nil {
		return false
	}
	_, isMap := t.Underlying().(*types.Map)
	return !isMap
}

func (r *pkgRW) numeric(e ast.Expr) bool {
	t := r.typeOf(e)
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsFloat) != 0
}

func text(n ast.Node) string {
	var b bytes.Buffer
	printer.Fprint(&b, token.NewFileSet(), n)
	return b.String()
}

func mentions(e ast.Expr, t string) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if x, ok := n.(ast.Expr); ok && !found && text(x) == t {
			found = true
		}
		return !found
	})
	return found
}

// stmt rewrites one statement; label is the label attached to it, if any.
func (r *pkgRW) stmt(s ast.Stmt, label *ast.LabeledStmt) []ast.Stmt {
	one := func(x ast.Stmt) []ast.Stmt {
		if label != nil {
			label.Stmt = x
			return []ast.Stmt{label}
		}
		return []ast.Stmt{x}
	}
	switch x := s.(type) {
	case *ast.LabeledStmt:
		return r.stmt(x.Stmt, x)
	case *ast.SendStmt:
		r.walk(x)
		return one(stmtOf(call(call(r.rt("SendTo"), x.Chan), x.Value)))
	case *ast.GoStmt:
		return one(r.goStmt(x))
	case *ast.SelectStmt:
		return r.selectStmt(x, label)
	case *ast.RangeStmt:
		t := r.typeOf(x.X)
		r.walk(x)
		if t != nil {
			if chanOf(t) != nil {
				x.X = call(r.rt("RangeChan"), x.X)
			} else if _, ok := t.Underlying().(*types.Map); ok {
				x.X = call(r.rt("RangeMap"), x.X)
			}
		}
		return one(x)
	case *ast.IncDecStmt:
		if r.nonLocal(x.X) && r.addressable(x.X) && r.full && r.numeric(x.X) {
			r.walk(x)
			f := "Add"
			if x.Tok == token.DEC {
				f = "Sub"
			}
			return one(stmtOf(call(r.rt(f), &ast.UnaryExpr{Op: token.AND, X: x.X}, num(1))))
		}
	case *ast.AssignStmt:
		if r.full && len(x.Lhs) == 1 && len(x.Rhs) == 1 && r.nonLocal(x.Lhs[0]) {
			if (x.Tok == token.ADD_ASSIGN || x.Tok == token.SUB_ASSIGN) && r.addressable(x.Lhs[0]) && r.numeric(x.Lhs[0]) {
				r.walk(x)
				f := "Add"
				if x.Tok == token.SUB_ASSIGN {
					f = "Sub"
				}
				return one(stmtOf(call(r.rt(f), &ast.UnaryExpr{Op: token.AND, X: x.Lhs[0]}, x.Rhs[0])))
			}
			if x.Tok == token.ASSIGN && !r.constant(x.Rhs[0]) {
				if t := r.typeOf(x.Rhs[0]); t != nil {
					b, isB := t.(*types.Basic)
					if !(isB && b.Info()&types.IsUntyped != 0) && mentions(x.Rhs[0], text(x.Lhs[0])) {
						r.walk(x)
						x.Rhs[0] = call(r.rt("Via"), x.Rhs[0])
						return one(x)
					}
				}
			}
		}
	}
	r.walk(s)
	return one(s)
}

func (r *pkgRW) goStmt(g *ast.GoStmt) ast.Stmt {
	c := g.Call
	var pre []ast.Stmt
	bind := func(e ast.Expr) ast.Expr {
		n := r.fresh()
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return ast.NewIdent(n)
	}
	// what may be left in place
	static := func(f ast.Expr) bool {
		switch f := ast.Unparen(f).(type) {
		case *ast.FuncLit:
			return true
		case *ast.Ident:
			_, isF := r.info.Uses[f].(*types.Func)
			return isF || r.builtin(f) != ""
		case *ast.SelectorExpr:
			return r.pkgOf(f.X) != "" && func() bool { _, ok := r.info.Uses[f.Sel].(*types.Func); return ok }()
		case *ast.IndexExpr, *ast.IndexListExpr:
			return true
		}
		return false
	}
	isStatic := static(c.Fun)
	isBuiltin := r.builtin(c.Fun) != ""
	tuple := false
	if len(c.Args) == 1 {
		if t, ok := r.typeOf(c.Args[0]).(*types.Tuple); ok {
			tuple = true
			var ls []ast.Expr
			arg := r.expr(c.Args[0])
			var names []ast.Expr
			for i := 0; i < t.Len(); i++ {
				n := r.fresh()
				ls = append(ls, ast.NewIdent(n))
				names = append(names, ast.NewIdent(n))
			}
			pre = append(pre, &ast.AssignStmt{Lhs: ls, Tok: token.DEFINE, Rhs: []ast.Expr{arg}})
			c.Args = names
		}
	}
	consts := make([]bool, len(c.Args))
	if !tuple {
		for i, a := range c.Args {
			consts[i] = r.constant(a)
		}
	}
	if isBuiltin && r.builtin(c.Fun) == "close" {
		ch := bind(r.expr(c.Args[0]))
		lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{stmtOf(call(r.rt("Close"), ch))}}}
		return &ast.BlockStmt{List: append(pre, stmtOf(call(r.rt("Go"), lit)))}
	}
	fun := r.expr(c.Fun)
	if !isStatic {
		fun = bind(fun)
	}
	if !tuple {
		for i, a := range c.Args {
			a = r.expr(a)
			if !consts[i] {
				a = bind(a)
			}
			c.Args[i] = a
		}
	}
	c.Fun = fun
	if l, ok := fun.(*ast.FuncLit); ok && len(c.Args) == 0 && (l.Type.Results == nil || len(l.Type.Results.List) == 0) {
		return &ast.BlockStmt{List: append(pre, stmtOf(call(r.rt("Go"), l)))}
	}
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{stmtOf(c)}}}
	return &ast.BlockStmt{List: append(pre, stmtOf(call(r.rt("Go"), lit)))}
}

func (r *pkgRW) selectStmt(x *ast.SelectStmt, label *ast.LabeledStmt) []ast.Stmt {
	if len(x.Body.List) == 0 {
		b := stmtOf(call(r.rt("BlockForever")))
		p := stmtOf(call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}))
		return []ast.Stmt{b, p}
	}
	hasDef := false
	for _, c := range x.Body.List {
		if c.(*ast.CommClause).Comm == nil {
			hasDef = true
		}
	}
	sv := r.fresh()
	var pre []ast.Stmt
	pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(sv)}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.rt("NewSelect"), ast.NewIdent(fmt.Sprint(hasDef)))}})
	sw := &ast.SwitchStmt{Tag: call(&ast.SelectorExpr{X: ast.NewIdent(sv), Sel: ast.NewIdent("Do")}), Body: &ast.BlockStmt{}}
	idx := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		var body []ast.Stmt
		tag := num(idx)
		switch comm := cc.Comm.(type) {
		case nil:
			tag = &ast.UnaryExpr{Op: token.SUB, X: num(1)}
		case *ast.SendStmt:
			r.walk(comm)
			pre = append(pre, stmtOf(call(call(r.rt("SelSend"), ast.NewIdent(sv), comm.Chan), comm.Value)))
			idx++
		default:
			var recv *ast.UnaryExpr
			var as *ast.AssignStmt
			switch q := comm.(type) {
			case *ast.ExprStmt:
				recv = ast.Unparen(q.X).(*ast.UnaryExpr)
			case *ast.AssignStmt:
				as = q
				recv = ast.Unparen(q.Rhs[0]).(*ast.UnaryExpr)
			}
			ch := r.expr(recv.X)
			rc := call(r.rt("SelRecv"), ast.NewIdent(sv), ch)
			if as == nil {
				pre = append(pre, stmtOf(rc))
			} else {
				cn := r.fresh()
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(cn)}, Tok: token.DEFINE, Rhs: []ast.Expr{rc}})
				m := "V"
				if len(as.Lhs) == 2 {
					m = "V2"
				}
				for i := range as.Lhs {
					as.Lhs[i] = r.expr(as.Lhs[i])
				}
				allBlank := true
				for _, l := range as.Lhs {
					if id, ok := l.(*ast.Ident); !ok || id.Name != "_" {
						allBlank = false
					}
				}
				tok := as.Tok
				if allBlank {
					tok = token.ASSIGN
				}
				body = append(body, &ast.AssignStmt{Lhs: as.Lhs, Tok: tok, Rhs: []ast.Expr{call(&ast.SelectorExpr{X: ast.NewIdent(cn), Sel: ast.NewIdent(m)})}})
			}
			idx++
		}
		body = append(body, r.list(cc.Body)...)
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{tag}, Body: body})
	}
	sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{stmtOf(call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}))}})
	var s ast.Stmt = sw
	if label != nil {
		label.Stmt = sw
		s = label
	}
	return []ast.Stmt{&ast.BlockStmt{List: append(pre, s)}}
}

// clearPos removes all positions, so that the printer lays the file out anew.
func clearPos(n any) { clearV(reflect.ValueOf(n), map[uintptr]bool{}) }

func clearV(v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || v.Type() == objT || v.Type() == scopeT {
			return
		}
		if seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		clearV(v.Elem(), seen)
	case reflect.Interface:
		if !v.IsNil() {
			clearV(v.Elem(), seen)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			clearV(v.Index(i), seen)
		}
	case reflect.Struct:
		keep := map[string]bool{}
		switch v.Addr().Interface().(type) {
		case *ast.CallExpr:
			keep["Ellipsis"] = true
		case *ast.GenDecl:
			keep["Lparen"] = true
		case *ast.TypeSpec:
			keep["Assign"] = true
		case *ast.ChanType:
			keep["Arrow"] = true
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.Type() == posT {
				if v.Type().Field(i).Name == "Func" { // set for func types
					continue
				}
				if keep[v.Type().Field(i).Name] && f.Int() != 0 {
					f.SetInt(1)
				} else {
					f.SetInt(0)
				}
				continue
			}
			if f.CanSet() {
				clearV(f, seen)
			}
		}
	}
}
