package drv

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// nativeRedirects: what native replays of the code under test call instead.
var nativeRedirects = map[string]string{
	"net.Listen":                "vnet__.Listen",
	"(*net.Dialer).DialContext": "vnet__.DialContext",
	"(*net.Dialer).Dial":        "vnet__.DialD",
	"net.Dial":                  "vnet__.Dial",
	"net.DialTimeout":           "vnet__.DialTimeout",
	"context.WithTimeout":       "vmodel__.WithTimeout",
	"context.WithDeadline":      "vmodel__.WithDeadline",
	"time.Now":                  "vnet__.Now",
}

type edit struct {
	off  int
	end  int // replaced up to here
	text string
	seq  int
}

type rewriter struct {
	fset  *token.FileSet
	info  *types.Info
	file  *ast.File
	src   []byte
	name  string
	edits []edit
	used  map[string]bool // original selectors redirected away
	uses  map[string]bool
	ctr   int
}

func (r *rewriter) off(p token.Pos) int { return r.fset.Position(p).Offset }

func (r *rewriter) insert(p token.Pos, text string) {
	r.edits = append(r.edits, edit{r.off(p), r.off(p), text, len(r.edits)})
}

func (r *rewriter) replace(a, b token.Pos, text string) {
	r.edits = append(r.edits, edit{r.off(a), r.off(b), text, len(r.edits)})
}

func (r *rewriter) at(p token.Pos) string {
	return fmt.Sprintf("%s:%d", r.name, r.fset.Position(p).Line)
}

func (r *rewriter) point(at string) string {
	r.uses["vsym__"] = true
	return fmt.Sprintf("vsym__.PointAt(%q); ", at)
}

// callee resolves the called function object.
func (r *rewriter) callee(c *ast.CallExpr) *types.Func {
	switch f := ast.Unparen(c.Fun).(type) {
	case *ast.SelectorExpr:
		if s := r.info.Selections[f]; s != nil {
			fn, _ := s.Obj().(*types.Func)
			return fn
		}
		fn, _ := r.info.Uses[f.Sel].(*types.Func)
		return fn
	case *ast.Ident:
		fn, _ := r.info.Uses[f].(*types.Func)
		return fn
	}
	return nil
}

func (r *rewriter) visible(c *ast.CallExpr) bool {
	if id, ok := ast.Unparen(c.Fun).(*ast.Ident); ok {
		if b, ok := r.info.Uses[id].(*types.Builtin); ok {
			return b.Name() == "close"
		}
	}
	fn := r.callee(c)
	if fn == nil || fn.Pkg() == nil {
		return false
	}
	m := fn.Name()
	sig := fn.Type().(*types.Signature)
	if sig.Recv() != nil && types.IsInterface(sig.Recv().Type()) {
		if n, ok := sig.Recv().Type().(*types.Named); ok && n.Obj().Pkg() != nil {
			pp := n.Obj().Pkg().Path()
			return pp == "sync" || pp == "net" && n.Obj().Name() == "Conn" && m == "Close"
		}
		return false
	}
	switch fn.Pkg().Path() {
	case "sync":
		switch m {
		case "Unlock", "RUnlock", "New", "Add", "Done", "NewCond", "Signal", "Broadcast":
			return false
		}
		return true
	case "sync/atomic", "go.uber.org/atomic":
		return m != "New" && m != "NewBool"
	}
	return false
}

// release reports whether c gives up a lock, behind which there is a scheduling point.
func (r *rewriter) release(c *ast.CallExpr) bool {
	fn := r.callee(c)
	return fn != nil && fn.Pkg() != nil && fn.Pkg().Path() == "sync" && (fn.Name() == "Unlock" || fn.Name() == "RUnlock")
}

func (r *rewriter) shared(lhs ast.Expr, module string) bool {
	se, ok := ast.Unparen(lhs).(*ast.SelectorExpr)
	if !ok {
		return false
	}
	s := r.info.Selections[se]
	if s == nil || s.Kind() != types.FieldVal {
		return false
	}
	t := r.info.TypeOf(se.X)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), module)
}

// ops lists the scheduling points of the nodes, without nested bodies.
func (r *rewriter) ops(nodes ...ast.Node) []string {
	type op struct {
		pos token.Pos
		at  string
	}
	var out []op
	for _, n := range nodes {
		if n == nil {
			continue
		}
		ast.Inspect(n, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.FuncLit, *ast.BlockStmt:
				return false
			case *ast.CallExpr:
				if r.visible(x) {
					out = append(out, op{x.Pos(), r.at(x.Lparen)})
				}
			case *ast.UnaryExpr:
				if x.Op == token.ARROW {
					out = append(out, op{x.Pos(), r.at(x.OpPos)})
				}
			case *ast.SendStmt:
				out = append(out, op{x.Pos(), r.at(x.Arrow)})
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					if r.shared(l, Module) {
						out = append(out, op{x.End(), r.at(l.Pos()) + ":m"})
					}
				}
			}
			return true
		})
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].pos < out[j].pos })
	var s []string
	for _, o := range out {
		s = append(s, o.at)
	}
	return s
}

func isNil(n ast.Node) bool {
	switch x := n.(type) {
	case nil:
		return true
	case ast.Stmt:
		return x == nil
	}
	return false
}

func (r *rewriter) points(ops []string) string {
	t := ""
	for _, o := range ops {
		t += r.point(o)
	}
	return t
}

func (r *rewriter) stmts(list []ast.Stmt) {
	for _, s := range list {
		r.stmt(s, s.Pos())
	}
}

// stmt instruments s; points go in front of position at (the label, if any).
func (r *rewriter) stmt(s ast.Stmt, at token.Pos) {
	switch s := s.(type) {
	case *ast.LabeledStmt:
		r.stmt(s.Stmt, at)
		return
	case *ast.BlockStmt:
		r.stmts(s.List)
		return
	case *ast.IfStmt:
		var ops []string
		for i := s; i != nil; {
			if i.Init != nil {
				ops = append(ops, r.ops(i.Init)...)
			}
			ops = append(ops, r.ops(i.Cond)...)
			n, ok := i.Else.(*ast.IfStmt)
			if !ok {
				break
			}
			i = n
		}
		r.insert(at, r.points(ops))
		for i := s; i != nil; {
			r.stmts(i.Body.List)
			switch e := i.Else.(type) {
			case *ast.IfStmt:
				i = e
				continue
			case *ast.BlockStmt:
				r.stmts(e.List)
			}
			break
		}
		return
	case *ast.ForStmt:
		var ops []string
		if s.Init != nil {
			r.insert(at, r.points(r.ops(s.Init)))
		}
		if s.Cond != nil {
			ops = r.ops(s.Cond)
			r.insert(at, r.points(ops))
		}
		r.stmts(s.Body.List)
		if len(ops) > 0 {
			r.insert(s.Body.Rbrace, "; "+r.points(ops))
		}
		return
	case *ast.RangeStmt:
		r.insert(at, r.points(r.ops(s.X)))
		ch := false
		if t := r.info.TypeOf(s.X); t != nil {
			_, ch = t.Underlying().(*types.Chan)
		}
		if ch {
			r.insert(at, r.point(r.at(s.For)))
		}
		r.stmts(s.Body.List)
		if ch {
			r.insert(s.Body.Rbrace, "; "+r.point(r.at(s.For)))
		}
		return
	case *ast.SwitchStmt:
		var ns []ast.Node
		if s.Init != nil {
			ns = append(ns, s.Init)
		}
		if s.Tag != nil {
			ns = append(ns, s.Tag)
		}
		r.insert(at, r.points(r.ops(ns...)))
		for _, c := range s.Body.List {
			r.stmts(c.(*ast.CaseClause).Body)
		}
		return
	case *ast.TypeSwitchStmt:
		r.insert(at, r.points(r.ops(s.Assign)))
		for _, c := range s.Body.List {
			r.stmts(c.(*ast.CaseClause).Body)
		}
		return
	case *ast.SelectStmt:
		r.insert(at, r.point(r.at(s.Select)))
		for _, c := range s.Body.List {
			r.stmts(c.(*ast.CommClause).Body)
		}
		return
	case *ast.DeferStmt:
		if r.visible(s.Call) {
			r.uses["vsym__"] = true
			r.insert(s.End(), fmt.Sprintf("; defer vsym__.PointAt(%q)", r.at(s.Defer)))
		}
		return
	case *ast.GoStmt:
		r.goStmt(s)
		return
	case *ast.ExprStmt:
		if c, ok := ast.Unparen(s.X).(*ast.CallExpr); ok && r.release(c) {
			r.insert(s.End(), "; "+strings.TrimSuffix(r.point(r.at(c.Lparen)+":u"), "; "))
		}
	}
	r.insert(at, r.points(r.ops(s)))
}

func (r *rewriter) text(n ast.Node) string { return string(r.src[r.off(n.Pos()):r.off(n.End())]) }

func (r *rewriter) goStmt(s *ast.GoStmt) {
	r.uses["vsym__"] = true
	if _, ok := ast.Unparen(s.Call.Fun).(*ast.FuncLit); ok && len(s.Call.Args) == 0 {
		r.replace(s.Go, s.Call.Pos(), "vsym__.Go(func() { ")
		r.insert(s.Call.End(), " })")
		return
	}
	if s.Call.Ellipsis.IsValid() {
		return
	}
	lit := false
	for _, a := range s.Call.Args {
		ast.Inspect(a, func(n ast.Node) bool {
			if _, ok := n.(*ast.FuncLit); ok {
				lit = true
			}
			return true
		})
	}
	if lit {
		return
	}
	r.ctr++
	pre, args := "", ""
	fl, isLit := ast.Unparen(s.Call.Fun).(*ast.FuncLit)
	_ = fl
	for i, a := range s.Call.Args {
		tv := r.info.Types[a]
		if i > 0 {
			args += ", "
		}
		if tv.Value != nil || tv.IsNil() {
			args += r.text(a)
			continue
		}
		v := fmt.Sprintf("ga__%d_%d", r.ctr, i)
		pre += fmt.Sprintf("%s := %s; ", v, r.text(a))
		args += v
	}
	if isLit {
		// keep the literal in place so that its body's edits apply
		r.replace(s.Go, s.Call.Pos(), "{ "+pre+fmt.Sprintf("gf__%d := ", r.ctr))
		r.replace(s.Call.Lparen, s.Call.End(), fmt.Sprintf("; vsym__.Go(func() { gf__%d(%s) }) }", r.ctr, args))
		return
	}
	r.replace(s.Go, s.End(), fmt.Sprintf("{ gf__%d := %s; %svsym__.Go(func() { gf__%d(%s) }) }", r.ctr, r.text(s.Call.Fun), pre, r.ctr, args))
}

func (r *rewriter) run() []byte {
	ast.Inspect(r.file, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			if n.Body != nil {
				r.stmts(n.Body.List)
			}
		case *ast.FuncLit:
			r.stmts(n.Body.List)
		case *ast.CallExpr:
			fn := r.callee(n)
			if fn == nil {
				return true
			}
			to, ok := nativeRedirects[fn.FullName()]
			if !ok {
				return true
			}
			se, ok := ast.Unparen(n.Fun).(*ast.SelectorExpr)
			if !ok {
				return true
			}
			r.uses[to[:strings.IndexByte(to, '.')]] = true
			if r.info.Selections[se] == nil {
				r.used[r.text(se)] = true
				r.replace(se.Pos(), se.End(), to)
				return true
			}
			recv := r.text(se.X)
			if _, ptr := r.info.TypeOf(se.X).Underlying().(*types.Pointer); !ptr {
				recv = "&" + recv
			}
			sep := ""
			if len(n.Args) > 0 {
				sep = ", "
			}
			r.replace(se.Pos(), n.Lparen+1, to+"("+recv+sep)
		}
		return true
	})
	sort.SliceStable(r.edits, func(i, j int) bool {
		a, b := r.edits[i], r.edits[j]
		if a.off != b.off {
			return a.off < b.off
		}
		// pure insertions before replacements at the same place
		return (a.end == a.off) && (b.end != b.off)
	})
	var out []byte
	last := 0
	for _, e := range r.edits {
		if e.off < last {
			continue // inside replaced text
		}
		out = append(out, r.src[last:e.off]...)
		out = append(out, e.text...)
		last = e.end
	}
	out = append(out, r.src[last:]...)
	// imports and references, on existing lines
	hdr := ""
	for _, u := range []string{"vsym__", "vnet__", "vmodel__"} {
		if r.uses[u] {
			hdr += fmt.Sprintf("; import %s %q", u, Models+"/"+strings.TrimSuffix(u, "__"))
		}
	}
	p := r.off(r.file.Name.End())
	res := string(out)
	// package clause precedes every edit
	res = res[:p] + hdr + res[p:]
	var refs []string
	for u := range r.used {
		refs = append(refs, u)
	}
	sort.Strings(refs)
	for _, u := range refs {
		res += "\nvar _ = " + u
	}
	return []byte(res + "\n")
}

// BuildNative writes the instrumented sources and builds the replay binary.
func (p *Paths) BuildNative(harnesses []string, extra ...string) (string, error) {
	files, err := p.harnessFiles()
	if err != nil {
		return "", err
	}
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps,
		Dir:  p.Repo, Env: env,
	}
	pkgs, err := packages.Load(cfg, Module, Module+"/kademlia", Module+"/gossip")
	if err != nil {
		return "", err
	}
	ov := map[string]string{}
	for k, f := range files {
		ov[k] = f
	}
	if err := os.MkdirAll(p.Work, 0o755); err != nil {
		return "", err
	}
	n := 0
	for _, pk := range pkgs {
		if len(pk.Errors) > 0 {
			return "", fmt.Errorf("package %s: %v", pk.PkgPath, pk.Errors[0])
		}
		for i, f := range pk.Syntax {
			name := pk.CompiledGoFiles[i]
			src, err := os.ReadFile(name)
			if err != nil {
				return "", err
			}
			r := &rewriter{fset: pk.Fset, info: pk.TypesInfo, file: f, src: src, name: name, used: map[string]bool{}, uses: map[string]bool{}}
			out := r.run()
			n++
			to := filepath.Join(p.Work, fmt.Sprintf("r%d_%s", n, filepath.Base(name)))
			if err := os.WriteFile(to, out, 0o644); err != nil {
				return "", err
			}
			ov[name] = to
		}
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package main\n\nimport (\n\t\"fmt\"\n\t\"os\"\n\t%q\n\t%q\n)\n\nfunc main() {\n\tvsym.Setup()\n\tswitch os.Args[1] {\n", Models+"/h", Models+"/vsym")
	for _, h := range harnesses {
		fmt.Fprintf(&sb, "\tcase %q:\n\t\th.%s()\n", h, h)
	}
	sb.WriteString("\tdefault:\n\t\tfmt.Println(\"VSYM-ERROR no such harness\")\n\t\tos.Exit(20)\n\t}\n\tfmt.Println(\"VSYM-DONE\")\n\tos.Exit(0)\n}\n")
	mainGo := filepath.Join(p.Work, "main.go")
	if err := os.WriteFile(mainGo, []byte(sb.String()), 0o644); err != nil {
		return "", err
	}
	ov[filepath.Join(p.Repo, "verif", "vmain", "main.go")] = mainGo
	b, _ := json.MarshalIndent(map[string]any{"Replace": ov}, "", " ")
	ovf := filepath.Join(p.Work, "overlay.json")
	if err := os.WriteFile(ovf, b, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(p.Work, "native")
	args := append([]string{"build"}, extra...)
	args = append(args, "-overlay", ovf, "-o", bin, "./verif/vmain")
	cmd := exec.Command("go", args...)
	cmd.Dir = p.Repo
	cmd.Env = env
	o, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build: %v\n%s", err, o)
	}
	return bin, nil
}
