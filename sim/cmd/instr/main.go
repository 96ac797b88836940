// instr rewrites the Go packages under test for the simulated build and emits an overlay for "go build -overlay".
// The sources themselves stay as they are. What it puts behind the simulator's seam: goroutines, channel operations and
// select, locks and the other primitives of package sync, atomics, clocks and timers, contexts, random numbers, map
// iteration order, and (in the packages that hold shared state) every access to a struct field through a pointer and to
// a map. The rewriting is by node, driven by type information; it knows nothing of particular functions or names.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type pkgInfo struct {
	Dir        string
	ImportPath string
	Export     string
	GoFiles    []string
	Standard   bool
	Module     *struct{ GoVersion string }
	Error      *struct{ Err string }
}

var shims = map[string]string{
	"sync": "sync", "time": "time", "context": "context", "math/rand": "rand", "math/rand/v2": "rand2", "runtime": "runtime",
}

func fatal(f string, a ...any) { fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...); os.Exit(3) }

func main() {
	repo := flag.String("repo", "/repo", "module under test")
	out := flag.String("out", "", "output directory")
	flag.Parse()
	if *out == "" {
		fatal("-out needed")
	}
	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=Dir,ImportPath,Export,GoFiles,Standard,Module,Error", "./mqtt/...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	js, err := cmd.Output()
	if err != nil {
		fatal("go list: %v", err)
	}
	exports := map[string]string{}
	var pkgs []*pkgInfo
	dec := json.NewDecoder(bytes.NewReader(js))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal("%v", err)
		}
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		if !p.Standard {
			q := p
			pkgs = append(pkgs, &q)
		}
	}
	overlay := map[string]string{}
	done := map[string]*types.Package{}
	fset := token.NewFileSet()
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	imp := importerFunc(func(path string) (*types.Package, error) {
		if p, ok := done[path]; ok {
			return p, nil
		}
		return gc.Import(path)
	})
	root := ""
	for _, p := range pkgs {
		i := strings.Index(p.ImportPath, "/mqtt")
		if i > 0 {
			root = p.ImportPath[:i+5]
			break
		}
	}
	for _, p := range pkgs {
		info := &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{},
		}
		var files []*ast.File
		var names []string
		srcs := map[*ast.File][]byte{}
		for _, g := range p.GoFiles {
			name := filepath.Join(p.Dir, g)
			src, err := os.ReadFile(name)
			if err != nil {
				fatal("%v", err)
			}
			f, err := parser.ParseFile(fset, name, src, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				fatal("%v", err)
			}
			files = append(files, f)
			names = append(names, name)
			srcs[f] = src
		}
		conf := types.Config{Importer: imp}
		if p.Module != nil && p.Module.GoVersion != "" {
			conf.GoVersion = "go" + p.Module.GoVersion
		}
		tp, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			fatal("type check %s: %v", p.ImportPath, err)
		}
		done[p.ImportPath] = tp
		// Wire-format packages hold plain values owned by one task at a time; everything else is watched for sharing.
		plain := strings.HasPrefix(p.ImportPath, root+"/packets")
		for i, f := range files {
			r := &rw{fset: fset, info: info, src: srcs[f], base: fset.File(f.Pos()), plain: plain, pkg: tp, file: f}
			txt := r.doFile()
			rel, err := filepath.Rel(*repo, names[i])
			if err != nil {
				fatal("%v", err)
			}
			dst := filepath.Join(*out, "src", rel)
			if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
				fatal("%v", err)
			}
			if err := os.WriteFile(dst, []byte(txt), 0o644); err != nil {
				fatal("%v", err)
			}
			overlay[names[i]] = dst
		}
	}
	if len(overlay) == 0 {
		fatal("nothing to instrument")
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		fatal("%v", err)
	}
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(p string) (*types.Package, error) { return f(p) }

type rw struct {
	fset  *token.FileSet
	info  *types.Info
	src   []byte
	base  *token.File
	plain bool
	pkg   *types.Package
	file  *ast.File
	tmp   int
}

func (r *rw) off(p token.Pos) int { return r.base.Offset(p) }
func (r *rw) fresh(s string) string {
	r.tmp++
	return fmt.Sprintf("__%s%d", s, r.tmp)
}
func (r *rw) at(n ast.Node) string {
	p := r.fset.Position(n.Pos())
	return fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line)
}

func (r *rw) doFile() string {
	body := r.render(r.file)
	// after the package clause, on the same line so that line numbers survive
	head := r.off(r.file.Name.End()) - r.off(r.file.Pos())
	pre := string(r.src[:r.off(r.file.Pos())])
	return pre + body[:head] + `; import __simrt "verifsim/simrt"` + body[head:] + "\nvar _ = __simrt.Tick\n"
}

type edit struct {
	from, to int // absolute offsets
	text     string
}

// children returns the immediate child nodes in source order.
func children(n ast.Node) []ast.Node {
	var out []ast.Node
	ast.Inspect(n, func(c ast.Node) bool {
		if c == nil {
			return false
		}
		if c == n {
			return true
		}
		switch c.(type) {
		case *ast.Comment, *ast.CommentGroup:
			return false
		}
		out = append(out, c)
		return false
	})
	sort.SliceStable(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// splice renders n by copying its source and replacing its children by their renderings, plus extra edits.
func (r *rw) splice(n ast.Node, kids []ast.Node, extra ...edit) string {
	var eds []edit
	for _, c := range kids {
		if c == nil || !c.Pos().IsValid() {
			continue
		}
		eds = append(eds, edit{r.off(c.Pos()), r.off(c.End()), r.render(c)})
	}
	eds = append(eds, extra...)
	return r.apply(n, eds)
}

func (r *rw) apply(n ast.Node, eds []edit) string {
	sort.SliceStable(eds, func(i, j int) bool { return eds[i].from < eds[j].from })
	var sb strings.Builder
	pos, end := r.off(n.Pos()), r.off(n.End())
	for _, e := range eds {
		if e.from < pos {
			fatal("overlapping edits in %s", r.at(n))
		}
		sb.Write(r.src[pos:e.from])
		sb.WriteString(e.text)
		pos = e.to
	}
	sb.Write(r.src[pos:end])
	return sb.String()
}

func (r *rw) typeOf(e ast.Expr) types.Type { return r.info.TypeOf(e) }

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func isMap(t types.Type) bool { _, ok := under(t).(*types.Map); return ok }
func isChan(t types.Type) bool {
	_, ok := under(t).(*types.Chan)
	return ok
}

func fromPkg(t types.Type, paths ...string) bool {
	if t == nil {
		return false
	}
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	nt, ok := types.Unalias(t).(*types.Named)
	if !ok || nt.Obj().Pkg() == nil {
		return false
	}
	for _, p := range paths {
		if nt.Obj().Pkg().Path() == p {
			return true
		}
	}
	return false
}

// tracked reports whether sel is a field access through a pointer whose target lives in the package under test.
func (r *rw) tracked(sel *ast.SelectorExpr) bool {
	if r.plain {
		return false
	}
	s := r.info.Selections[sel]
	if s == nil || s.Kind() != types.FieldVal {
		return false
	}
	if fromPkg(s.Type(), "sync") { // the primitives are the seam themselves
		if _, ptr := s.Type().(*types.Pointer); !ptr {
			return false
		}
	}
	if fromPkg(s.Type(), "sync/atomic") {
		if _, ptr := s.Type().(*types.Pointer); !ptr {
			return false
		}
	}
	recv := r.typeOf(sel.X)
	p, ok := under(recv).(*types.Pointer)
	if !ok {
		return false
	}
	nt, ok := types.Unalias(p.Elem()).(*types.Named)
	return ok && nt.Obj().Pkg() == r.pkg
}

// element reports whether e is an element of a slice, which several tasks may share.
func (r *rw) element(e ast.Expr) (*ast.IndexExpr, bool) {
	x, ok := ast.Unparen(e).(*ast.IndexExpr)
	if !ok || r.plain {
		return nil, false
	}
	t := r.typeOf(x.X)
	if t == nil {
		return nil, false
	}
	if _, ok = under(t).(*types.Slice); !ok || fromPkg(r.typeOf(x), "sync", "sync/atomic") {
		return nil, false
	}
	return x, true
}

// elementField reports whether sel is a field of (a struct nested in) an element of a slice.
func (r *rw) elementField(sel *ast.SelectorExpr) bool {
	if r.plain {
		return false
	}
	s := r.info.Selections[sel]
	if s == nil || s.Kind() != types.FieldVal || fromPkg(s.Type(), "sync", "sync/atomic") {
		return false
	}
	if _, ptr := under(r.typeOf(sel.X)).(*types.Pointer); ptr {
		return false
	}
	switch x := ast.Unparen(sel.X).(type) {
	case *ast.IndexExpr:
		_, ok := r.element(x)
		return ok
	case *ast.SelectorExpr:
		return r.elementField(x)
	}
	return false
}

func (r *rw) isElemField(e ast.Expr) bool {
	x, ok := ast.Unparen(e).(*ast.SelectorExpr)
	return ok && r.elementField(x)
}

// place renders an element or a field of one without announcing an access of it.
func (r *rw) place(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return "(" + r.place(x.X) + ")"
	case *ast.IndexExpr:
		return r.splice(x, []ast.Node{x.X, x.Index})
	case *ast.SelectorExpr:
		if _, ok := r.element(x.X); ok {
			return r.apply(x, []edit{{r.off(x.X.Pos()), r.off(x.X.End()), r.place(x.X)}})
		}
		if in, ok := ast.Unparen(x.X).(*ast.SelectorExpr); ok && r.elementField(in) {
			return r.apply(x, []edit{{r.off(x.X.Pos()), r.off(x.X.End()), r.place(x.X)}})
		}
	}
	return r.render(e)
}

func (r *rw) elemHook(kind string, e ast.Expr) string {
	return fmt.Sprintf("(*__simrt.%s(&%s, %q))", kind, r.place(e), "element "+r.elemName(e)+" @"+r.at(e))
}

func (r *rw) elemName(e ast.Expr) string {
	switch x := ast.Unparen(e).(type) {
	case *ast.IndexExpr:
		return r.exprName(x.X)
	case *ast.SelectorExpr:
		return r.elemName(x.X) + "." + x.Sel.Name
	}
	return "slice"
}

func (r *rw) sliceName(e ast.Expr) string {
	if x, ok := ast.Unparen(e).(*ast.SliceExpr); ok {
		return r.sliceName(x.X)
	}
	return r.exprName(e)
}

// pointerMethod reports whether sel selects a method with a pointer receiver of a value that is not a pointer.
func (r *rw) pointerMethod(sel *ast.SelectorExpr) bool {
	s := r.info.Selections[sel]
	if s == nil || s.Kind() != types.MethodVal {
		return false
	}
	if _, ptr := under(r.typeOf(sel.X)).(*types.Pointer); ptr {
		return false
	}
	f, ok := s.Obj().(*types.Func)
	if !ok {
		return false
	}
	rv := f.Type().(*types.Signature).Recv()
	if rv == nil {
		return false
	}
	_, ptr := rv.Type().(*types.Pointer)
	return ptr
}

func isBytes(t types.Type) bool {
	sl, ok := under(t).(*types.Slice)
	if !ok {
		return false
	}
	b, ok := under(sl.Elem()).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (r *rw) fieldName(sel *ast.SelectorExpr) string {
	s := r.info.Selections[sel]
	t := s.Recv()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n := t.String()
	if nt, ok := types.Unalias(t).(*types.Named); ok {
		n = nt.Obj().Name()
	}
	return fmt.Sprintf("%s.%s @%s", n, sel.Sel.Name, r.at(sel))
}

func (r *rw) hook(kind string, sel *ast.SelectorExpr) string {
	return fmt.Sprintf("(*__simrt.%s(&%s, %q))", kind, r.splice(sel, []ast.Node{sel.X}), r.fieldName(sel))
}

// lhs renders an assignment target (the access is a write).
func (r *rw) lhs(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return "(" + r.lhs(x.X) + ")"
	case *ast.SelectorExpr:
		if r.tracked(x) {
			return r.hook("W", x)
		}
		if r.elementField(x) {
			return r.elemHook("W", x)
		}
		if s := r.info.Selections[x]; s != nil && s.Kind() == types.FieldVal {
			if _, ptr := under(r.typeOf(x.X)).(*types.Pointer); !ptr { // a.b.c = v writes into a.b
				return r.apply(x, []edit{{r.off(x.X.Pos()), r.off(x.X.End()), r.lhs(x.X)}})
			}
		}
	case *ast.IndexExpr:
		if _, ok := r.element(x); ok {
			return r.elemHook("W", x)
		}
		if isMap(r.typeOf(x.X)) && !r.plain {
			return r.apply(x, []edit{
				{r.off(x.X.Pos()), r.off(x.X.End()), r.mapRef("MW", x.X)},
				{r.off(x.Index.Pos()), r.off(x.Index.End()), r.render(x.Index)},
			})
		}
		if _, arr := under(r.typeOf(x.X)).(*types.Array); arr {
			return r.apply(x, []edit{
				{r.off(x.X.Pos()), r.off(x.X.End()), r.lhs(x.X)},
				{r.off(x.Index.Pos()), r.off(x.Index.End()), r.render(x.Index)},
			})
		}
	}
	return r.render(e)
}

func (r *rw) exprName(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.SelectorExpr:
		return x.Sel.Name
	case *ast.Ident:
		return x.Name
	}
	return "map"
}

func (r *rw) mapRef(kind string, e ast.Expr) string {
	return fmt.Sprintf("__simrt.%s(%s, %q)", kind, r.render(e), "map "+r.exprName(e)+" @"+r.at(e))
}

func (r *rw) hasCall(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			if tv, ok := r.info.Types[x.Fun]; ok && (tv.IsType() || tv.IsBuiltin()) {
				return true
			}
			found = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		}
		return !found
	})
	return found
}

func isHookedLHS(s string) bool {
	return strings.Contains(s, "__simrt.W(") || strings.Contains(s, "__simrt.MW(")
}

func (r *rw) builtin(c *ast.CallExpr) string {
	id, ok := ast.Unparen(c.Fun).(*ast.Ident)
	if !ok {
		return ""
	}
	if b, ok := r.info.Uses[id].(*types.Builtin); ok {
		return b.Name()
	}
	return ""
}

func (r *rw) atomicCall(c *ast.CallExpr) bool {
	sel, ok := ast.Unparen(c.Fun).(*ast.SelectorExpr)
	if !ok {
		return false
	}
	f, ok := r.info.Uses[sel.Sel].(*types.Func)
	return ok && f.Pkg() != nil && f.Pkg().Path() == "sync/atomic"
}

func (r *rw) block(b *ast.BlockStmt, prefix string) string {
	return r.splice(b, children(b), edit{r.off(b.Lbrace) + 1, r.off(b.Lbrace) + 1, " " + prefix + ";"})
}

func (r *rw) render(n ast.Node) string {
	switch x := n.(type) {
	case *ast.ImportSpec:
		path := strings.Trim(x.Path.Value, `"`)
		if s, ok := shims[path]; ok {
			name := filepath.Base(path)
			if path == "math/rand/v2" {
				name = "rand"
			}
			if x.Name != nil {
				name = x.Name.Name
			}
			return fmt.Sprintf("%s %q", name, "verifsim/shim/"+s)
		}
		return string(r.src[r.off(x.Pos()):r.off(x.End())])

	case *ast.FuncDecl:
		if x.Body == nil {
			return r.splice(x, nil)
		}
		return r.splice(x, []ast.Node{x.Body})

	case *ast.FuncLit:
		return r.splice(x, []ast.Node{x.Body})

	case *ast.FuncType, *ast.StructType, *ast.InterfaceType, *ast.Ident, *ast.BasicLit:
		return string(r.src[r.off(n.Pos()):r.off(n.End())])

	case *ast.SelectorExpr:
		if r.tracked(x) {
			return r.hook("R", x)
		}
		if r.elementField(x) {
			return r.elemHook("R", x)
		}
		if _, ok := r.element(x.X); ok || r.isElemField(x.X) {
			// the method of an element, or a primitive in it
			if s := r.info.Selections[x]; s != nil && (s.Kind() == types.FieldVal || r.pointerMethod(x)) {
				if _, ptr := under(r.typeOf(x.X)).(*types.Pointer); !ptr {
					return r.apply(x, []edit{{r.off(x.X.Pos()), r.off(x.X.End()), r.place(x.X)}})
				}
			}
		}
		return r.splice(x, []ast.Node{x.X})

	case *ast.KeyValueExpr:
		if _, ok := x.Key.(*ast.Ident); ok { // struct field names are not expressions
			return r.splice(x, []ast.Node{x.Value})
		}

	case *ast.UnaryExpr:
		switch x.Op {
		case token.ARROW:
			return "__simrt.Recv(" + r.render(x.X) + ")"
		case token.AND:
			if s, ok := ast.Unparen(x.X).(*ast.SelectorExpr); ok && r.tracked(s) {
				return "&" + r.splice(s, []ast.Node{s.X})
			}
			if _, ok := r.element(x.X); ok || r.isElemField(x.X) {
				return "&" + r.place(ast.Unparen(x.X))
			}
		}

	case *ast.IndexExpr:
		if _, ok := r.element(x); ok {
			return r.elemHook("R", x)
		}
		if tv := r.typeOf(x.X); tv != nil && isMap(tv) && !r.plain {
			return r.apply(x, []edit{
				{r.off(x.X.Pos()), r.off(x.X.End()), r.mapRef("MR", x.X)},
				{r.off(x.Index.Pos()), r.off(x.Index.End()), r.render(x.Index)},
			})
		}

	case *ast.CallExpr:
		switch r.builtin(x) {
		case "close":
			return "__simrt.Close(" + r.render(x.Args[0]) + ")"
		case "delete":
			if !r.plain {
				return "delete(" + r.mapRef("MW", x.Args[0]) + ", " + r.render(x.Args[1]) + ")"
			}
		case "clear":
			if !r.plain && isMap(r.typeOf(x.Args[0])) {
				return "clear(" + r.mapRef("MW", x.Args[0]) + ")"
			}
		case "append", "copy":
			if !r.plain && len(x.Args) > 1 && !isBytes(r.typeOf(x.Args[0])) {
				if _, ok := under(r.typeOf(x.Args[0])).(*types.Slice); ok {
					var args []string
					for _, a := range x.Args {
						args = append(args, r.render(a))
					}
					dots := ""
					if x.Ellipsis.IsValid() {
						dots = "..."
					}
					name := strings.ToUpper(r.builtin(x)[:1]) + r.builtin(x)[1:]
					return fmt.Sprintf("__simrt.%s(%q, %s%s)", name, "element "+r.sliceName(x.Args[0])+" @"+r.at(x), strings.Join(args, ", "), dots)
				}
			}
		case "len":
			if !r.plain && isMap(r.typeOf(x.Args[0])) {
				return "len(" + r.mapRef("MR", x.Args[0]) + ")"
			}
		}
		if r.atomicCall(x) {
			sel := ast.Unparen(x.Fun).(*ast.SelectorExpr)
			if s := r.info.Selections[sel]; s != nil { // method of an atomic type
				recv := r.render(sel.X)
				if _, ptr := under(r.typeOf(sel.X)).(*types.Pointer); !ptr {
					recv = "&" + recv
				}
				eds := []edit{{r.off(sel.X.Pos()), r.off(sel.X.End()), "__simrt.Y(" + recv + ")"}}
				for _, a := range x.Args {
					eds = append(eds, edit{r.off(a.Pos()), r.off(a.End()), r.render(a)})
				}
				return r.apply(x, eds)
			}
			if len(x.Args) > 0 {
				var eds []edit
				for i, a := range x.Args {
					t := r.render(a)
					if i == 0 {
						t = "__simrt.Y(" + t + ")"
					}
					eds = append(eds, edit{r.off(a.Pos()), r.off(a.End()), t})
				}
				return r.apply(x, eds)
			}
		}

	case *ast.IncDecStmt:
		return r.apply(x, []edit{{r.off(x.X.Pos()), r.off(x.X.End()), r.lhs(x.X)}})

	case *ast.AssignStmt:
		return r.assign(x)

	case *ast.SendStmt:
		return "__simrt.Send(" + r.render(x.Chan) + ")(" + r.render(x.Value) + ")"

	case *ast.GoStmt:
		return r.goStmt(x)

	case *ast.ForStmt:
		kids := []ast.Node{}
		for _, c := range children(x) {
			if c != ast.Node(x.Body) {
				kids = append(kids, c)
			}
		}
		return r.splice(x, kids, edit{r.off(x.Body.Pos()), r.off(x.Body.End()), r.block(x.Body, "__simrt.Tick()")})

	case *ast.RangeStmt:
		return r.rangeStmt(x, "")

	case *ast.LabeledStmt:
		if s, ok := x.Stmt.(*ast.RangeStmt); ok {
			return r.rangeStmt(s, x.Label.Name+": ")
		}
		if s, ok := x.Stmt.(*ast.SelectStmt); ok {
			return r.selectStmt(s, x.Label.Name+": ")
		}

	case *ast.SelectStmt:
		return r.selectStmt(x, "")
	}
	return r.splice(n, children(n))
}

func (r *rw) assign(x *ast.AssignStmt) string {
	// v, ok := <-ch
	if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
		if u, ok := ast.Unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			return r.apply(x, []edit{
				{r.off(x.Lhs[0].Pos()), r.off(x.Lhs[0].End()), r.lhs(x.Lhs[0])},
				{r.off(x.Lhs[1].Pos()), r.off(x.Lhs[1].End()), r.lhs(x.Lhs[1])},
				{r.off(x.Rhs[0].Pos()), r.off(x.Rhs[0].End()), "__simrt.Recv2(" + r.render(u.X) + ")"},
			})
		}
	}
	if x.Tok == token.DEFINE {
		var kids []ast.Node
		for _, e := range x.Rhs {
			kids = append(kids, e)
		}
		return r.splice(x, kids)
	}
	var eds []edit
	hooked, calls := false, false
	var l []string
	for _, e := range x.Lhs {
		s := r.lhs(e)
		l = append(l, s)
		hooked = hooked || isHookedLHS(s)
		eds = append(eds, edit{r.off(e.Pos()), r.off(e.End()), s})
	}
	for _, e := range x.Rhs {
		calls = calls || r.hasCall(e)
		eds = append(eds, edit{r.off(e.Pos()), r.off(e.End()), r.render(e)})
	}
	if hooked && calls && x.Tok == token.ASSIGN && !r.inHeader(x) {
		// evaluate the right-hand side before announcing the write
		var tl, rl []string
		if len(x.Rhs) == len(x.Lhs) {
			for _, e := range x.Rhs {
				tv := r.info.Types[e]
				if tv.Value != nil || tv.IsNil() || !r.hasCall(e) {
					rl = append(rl, r.render(e))
					continue
				}
				t := r.fresh("t")
				tl = append(tl, t+" := "+r.render(e))
				rl = append(rl, t)
			}
		} else {
			var ts []string
			for range x.Lhs {
				ts = append(ts, r.fresh("t"))
			}
			tl = append(tl, strings.Join(ts, ", ")+" := "+r.render(x.Rhs[0]))
			rl = ts
		}
		return "{ " + strings.Join(tl, "; ") + "; " + strings.Join(l, ", ") + " = " + strings.Join(rl, ", ") + " }"
	}
	return r.apply(x, eds)
}

// inHeader reports whether x is the init or post statement of an if, for or switch.
func (r *rw) inHeader(x ast.Stmt) bool {
	found := false
	ast.Inspect(r.file, func(n ast.Node) bool {
		if found || n == nil || n.Pos() > x.Pos() || n.End() < x.End() {
			return false
		}
		switch s := n.(type) {
		case *ast.IfStmt:
			found = s.Init == x
		case *ast.ForStmt:
			found = s.Init == x || s.Post == x
		case *ast.SwitchStmt:
			found = s.Init == x
		case *ast.TypeSwitchStmt:
			found = s.Init == x || s.Assign == x
		case *ast.CommClause:
			found = s.Comm == x
		case *ast.LabeledStmt:
			found = s.Stmt == x
		}
		return !found
	})
	return found
}

func (r *rw) goStmt(x *ast.GoStmt) string {
	call := x.Call
	if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
		return "__simrt.Go(" + r.render(fl) + ")"
	}
	var pre []string
	var args []string
	fun := ""
	if r.builtin(call) != "" {
		return "__simrt.Go(func() { " + r.render(call) + " })"
	}
	f := r.fresh("f")
	pre = append(pre, f+" := "+r.render(call.Fun))
	fun = f
	for _, a := range call.Args {
		if tv := r.info.Types[a]; tv.Value != nil || tv.IsNil() {
			args = append(args, r.render(a))
			continue
		}
		t := r.fresh("a")
		pre = append(pre, t+" := "+r.render(a))
		args = append(args, t)
	}
	dots := ""
	if call.Ellipsis.IsValid() {
		dots = "..."
	}
	return "{ " + strings.Join(pre, "; ") + "; __simrt.Go(func() { " + fun + "(" + strings.Join(args, ", ") + dots + ") }) }"
}

func (r *rw) rangeStmt(x *ast.RangeStmt, label string) string {
	t := r.typeOf(x.X)
	switch {
	case isMap(t):
		e := r.fresh("e")
		what := ""
		if !r.plain {
			what = "map " + r.exprName(x.X) + " @" + r.at(x.X)
		}
		set := ""
		blank := func(n ast.Expr) bool { id, ok := n.(*ast.Ident); return n == nil || ok && id.Name == "_" }
		var l, v []string
		if !blank(x.Key) {
			l, v = append(l, r.lhs(x.Key)), append(v, e+".Key()")
		}
		if !blank(x.Value) {
			l, v = append(l, r.lhs(x.Value)), append(v, e+".Val()")
		}
		if len(l) > 0 {
			set = strings.Join(l, ", ") + " " + x.Tok.String() + " " + strings.Join(v, ", ") + ";"
		}
		return label + fmt.Sprintf("for _, %s := range __simrt.Range(%s, %q) %s", e, r.render(x.X), what,
			r.block(x.Body, fmt.Sprintf("__simrt.Tick(); if !%s.Live() { continue }; %s", e, set)))
	case isChan(t):
		v, ok := r.fresh("v"), r.fresh("ok")
		set := ""
		if id, isId := x.Key.(*ast.Ident); x.Key != nil && !(isId && id.Name == "_") {
			set = r.lhs(x.Key) + " " + x.Tok.String() + " " + v + ";"
		} else {
			set = "_ = " + v + ";"
		}
		c := r.fresh("c")
		return label + fmt.Sprintf("for %s := %s; ; %s", c, r.render(x.X),
			r.block(x.Body, fmt.Sprintf("__simrt.Tick(); %s, %s := __simrt.Recv2(%s); if !%s { break }; %s", v, ok, c, ok, set)))
	}
	if sl, ok := under(t).(*types.Slice); ok && !r.plain && x.Tok == token.DEFINE && x.Value != nil && !fromPkg(sl.Elem(), "sync", "sync/atomic") {
		key, val := "_", x.Value.(*ast.Ident).Name
		if id, ok := x.Key.(*ast.Ident); ok {
			key = id.Name
		}
		if key == "_" {
			key = r.fresh("i")
		}
		if val != "_" {
			xs := r.fresh("x")
			return fmt.Sprintf("%s := %s; %sfor %s, %s := range %s %s", xs, r.render(x.X), label, key, val, xs,
				r.block(x.Body, fmt.Sprintf("__simrt.Tick(); __simrt.R(&%s[%s], %q)", xs, key, "element "+r.sliceName(x.X)+" @"+r.at(x.X))))
		}
	}
	var kids []ast.Node
	eds := []edit{{r.off(x.Body.Pos()), r.off(x.Body.End()), r.block(x.Body, "__simrt.Tick()")}}
	for _, c := range children(x) {
		if c == ast.Node(x.Body) {
			continue
		}
		if c == ast.Node(x.Key) || c == ast.Node(x.Value) {
			if x.Tok == token.ASSIGN {
				eds = append(eds, edit{r.off(c.Pos()), r.off(c.End()), r.lhs(c.(ast.Expr))})
			}
			continue
		}
		kids = append(kids, c)
	}
	return label + r.splice(x, kids, eds...)
}

func (r *rw) selectStmt(s *ast.SelectStmt, label string) string {
	if len(s.Body.List) == 0 {
		return "{ __simrt.BlockForever(); panic(\"unreachable\") }"
	}
	hasDef := "false"
	var pre, cases []string
	i, v, ok := r.fresh("i"), r.fresh("v"), r.fresh("ok")
	var body strings.Builder
	idx := 0
	for _, st := range s.Body.List {
		cc := st.(*ast.CommClause)
		stmts := func() string {
			var sb strings.Builder
			for _, b := range cc.Body {
				sb.WriteString(r.render(b))
				sb.WriteString("\n")
			}
			return sb.String()
		}
		if cc.Comm == nil {
			hasDef = "true"
			body.WriteString("case -1:\n" + stmts())
			continue
		}
		c := r.fresh("c")
		set := ""
		recvOf := func(e ast.Expr) ast.Expr { return ast.Unparen(e).(*ast.UnaryExpr).X }
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, c+" := "+r.render(cm.Chan))
			cases = append(cases, fmt.Sprintf("__simrt.SendCase(%s)(%s)", c, r.render(cm.Value)))
		case *ast.ExprStmt:
			pre = append(pre, c+" := "+r.render(recvOf(cm.X)))
			cases = append(cases, fmt.Sprintf("__simrt.RecvCase(%s)", c))
		case *ast.AssignStmt:
			pre = append(pre, c+" := "+r.render(recvOf(cm.Rhs[0])))
			cases = append(cases, fmt.Sprintf("__simrt.RecvCase(%s)", c))
			var l, vs []string
			for k, e := range cm.Lhs {
				if cm.Tok == token.DEFINE {
					l = append(l, string(r.src[r.off(e.Pos()):r.off(e.End())]))
				} else {
					l = append(l, r.lhs(e))
				}
				if k == 0 {
					vs = append(vs, fmt.Sprintf("__simrt.Val(%s, %s)", c, v))
				} else {
					vs = append(vs, ok)
				}
			}
			set = strings.Join(l, ", ") + " " + cm.Tok.String() + " " + strings.Join(vs, ", ") + "\n"
		default:
			fatal("unsupported select clause at %s", r.at(cc))
		}
		body.WriteString(fmt.Sprintf("case %d:\n%s%s", idx, set, stmts()))
		idx++
	}
	args := ""
	if len(cases) > 0 {
		args = ", " + strings.Join(cases, ", ")
	}
	p := ""
	if len(pre) > 0 {
		p = strings.Join(pre, "; ") + "; "
	}
	return fmt.Sprintf("{ %s%s, %s, %s := __simrt.Select(%s%s); _, _, _ = %s, %s, %s\n%sswitch %s {\n%sdefault: panic(\"unreachable\")\n} }",
		p, i, v, ok, hasDef, args, i, v, ok, label, i, body.String())
}
