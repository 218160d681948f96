package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed value number: two values with the same term are equal
// on every execution that follows the analysed path.
type Term struct {
	ID   int
	Op   string
	Str  string
	Args []*Term
	Type types.Type
	Aux  interface{}
	strp *Term
}

var (
	termTab = map[string]*Term{}
	termSeq int
)

func tkey(op, str string, args []*Term) string {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(str)
	for _, a := range args {
		b.WriteByte('|')
		b.WriteString(strconv.Itoa(a.ID))
	}
	return b.String()
}

// mk returns the unique term op[str](args...).
func mk(op, str string, args ...*Term) *Term {
	k := tkey(op, str, args)
	if t, ok := termTab[k]; ok {
		return t
	}
	termSeq++
	t := &Term{ID: termSeq, Op: op, Str: str, Args: args}
	termTab[k] = t
	termIDs[t.ID] = t
	return t
}

func mkT(typ types.Type, op, str string, args ...*Term) *Term {
	t := mk(op, str, args...)
	if t.Type == nil {
		t.Type = typ
	}
	return t
}

var (
	tNil   = mk("nil", "")
	tTrue  = mk("const", "bool:true")
	tFalse = mk("const", "bool:false")
)

func boolT(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func intT(i int64) *Term { return mk("const", "int:"+strconv.FormatInt(i, 10)) }
func strT(s string) *Term {
	return mk("const", "string:"+strconv.Quote(s))
}

func constTerm(v constant.Value, typ types.Type) *Term {
	if v == nil {
		return zeroTerm(typ)
	}
	switch v.Kind() {
	case constant.Bool:
		return boolT(constant.BoolVal(v))
	case constant.String:
		return strT(constant.StringVal(v))
	case constant.Int:
		if b, ok := typ.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return mk("const", "float:"+v.ExactString())
		}
		return mk("const", "int:"+v.ExactString())
	default:
		return mk("const", "float:"+v.ExactString())
	}
}

// intConst returns the integer value of a constant term.
func intConst(t *Term) (int64, bool) {
	if t != nil && t.Op == "const" && strings.HasPrefix(t.Str, "int:") {
		i, err := strconv.ParseInt(t.Str[4:], 10, 64)
		return i, err == nil
	}
	return 0, false
}

func isConst(t *Term) bool { return t.Op == "const" }

// zeroTerm returns the zero value of typ.
func zeroTerm(typ types.Type) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return strT("")
		case u.Info()&types.IsInteger != 0:
			return intT(0)
		case u.Info()&types.IsFloat != 0:
			return mk("const", "float:0")
		case u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer:
			return tNil
		}
		return mk("zero", typ.String())
	case *types.Struct:
		if !expandable(typ) {
			return mkT(typ, "zero", typ.String())
		}
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = zeroTerm(u.Field(i).Type())
		}
		return mkStruct(typ, args)
	case *types.Array:
		return mkT(typ, "zero", typ.String())
	case *types.Tuple:
		args := make([]*Term, u.Len())
		for i := range args {
			args[i] = zeroTerm(u.At(i).Type())
		}
		return mk("tuple", "", args...)
	}
	return tNil
}

// expandable tells whether values of the struct type are tracked field by field.
func expandable(typ types.Type) bool {
	st, ok := typ.Underlying().(*types.Struct)
	if !ok || st.NumFields() == 0 || st.NumFields() > 24 {
		return false
	}
	if n, ok := types.Unalias(typ).(*types.Named); ok {
		if n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), "sync") {
			return false
		}
	}
	return true
}

func mkStruct(typ types.Type, args []*Term) *Term {
	// a struct rebuilt from all the fields of the same value is that value
	if len(args) > 0 {
		if b := wholeOf(args); b != nil {
			return b
		}
	}
	return mkT(typ, "struct", typ.String(), args...)
}

func wholeOf(args []*Term) *Term {
	var base *Term
	for i, a := range args {
		var b *Term
		switch a.Op {
		case "field":
			b = a.Args[0]
			if b.Type == nil {
				return nil
			}
			st, ok := b.Type.Underlying().(*types.Struct)
			if !ok || i >= st.NumFields() || a.Str != fieldKey(b.Type, i) {
				return nil
			}
		case "struct":
			// nested struct value made only of the fields of base.i
			return nil
		default:
			return nil
		}
		if base == nil {
			base = b
		} else if base != b {
			return nil
		}
	}
	if base != nil && base.Type != nil {
		if st, ok := base.Type.Underlying().(*types.Struct); ok && st.NumFields() == len(args) {
			return base
		}
	}
	return nil
}

// fieldKey names field i of the struct type typ.
func fieldKey(typ types.Type, i int) string {
	typ = derefType(typ)
	st := typ.Underlying().(*types.Struct)
	return types.TypeString(typ, nil) + "." + st.Field(i).Name()
}

// mkField returns field i of the struct value t of type styp.
func mkField(t *Term, styp types.Type, i int) *Term {
	if t.Op == "struct" && i < len(t.Args) {
		return t.Args[i]
	}
	ft := styp.Underlying().(*types.Struct).Field(i).Type()
	if t.Op == "zero" {
		return zeroTerm(ft)
	}
	return mkT(ft, "field", fieldKey(styp, i), t)
}

func mkNot(t *Term) *Term {
	switch {
	case t == tTrue:
		return tFalse
	case t == tFalse:
		return tTrue
	case t.Op == "not":
		return t.Args[0]
	}
	return mk("not", "", t)
}

// mkAdd returns a+b in the normal form sum of terms plus constant.
func mkAdd(a, b *Term) *Term {
	var parts []*Term
	var c int64
	add := func(t *Term) bool {
		if i, ok := intConst(t); ok {
			c += i
			return true
		}
		if t.Op == "add" {
			parts = append(parts, t.Args...)
			k, _ := strconv.ParseInt(t.Str, 10, 64)
			c += k
			return true
		}
		parts = append(parts, t)
		return true
	}
	add(a)
	add(b)
	if len(parts) == 0 {
		return intT(c)
	}
	if len(parts) == 1 && c == 0 {
		return parts[0]
	}
	sort.Slice(parts, func(i, j int) bool { return parts[i].ID < parts[j].ID })
	return mk("add", strconv.FormatInt(c, 10), parts...)
}

// splitAdd returns the non constant part and the constant part of t.
func splitAdd(t *Term) (*Term, int64) {
	if i, ok := intConst(t); ok {
		return nil, i
	}
	if t.Op == "add" {
		c, _ := strconv.ParseInt(t.Str, 10, 64)
		if len(t.Args) == 1 {
			return t.Args[0], c
		}
		return mk("add", "0", t.Args...), c
	}
	return t, 0
}

func isLen(t *Term) bool { return t.Op == "len" }

// nonNeg tells whether the integer term is known not to be negative.
func nonNeg(t *Term) bool {
	if i, ok := intConst(t); ok {
		return i >= 0
	}
	switch t.Op {
	case "len", "cap", "iter":
		return true
	case "add":
		c, _ := strconv.ParseInt(t.Str, 10, 64)
		if c < 0 {
			return false
		}
		for _, a := range t.Args {
			if !nonNeg(a) {
				return false
			}
		}
		return true
	}
	return false
}

// mkSub returns a-b in the normal form difference of terms plus constant.
func mkSub(a, b *Term) *Term {
	ap, ac := splitAdd(a)
	bp, bc := splitAdd(b)
	switch {
	case ap == bp:
		return intT(ac - bc)
	case bp == nil:
		return mkAdd(a, intT(-bc))
	case ap == nil:
		ap = intT(0)
	}
	return mkAdd(mk("sub", "", ap, bp), intT(ac-bc))
}

// hasIter tells whether the integer term counts the iterations of a loop.
func hasIter(t *Term) bool {
	if t == nil {
		return false
	}
	if t.Op == "add" {
		for _, a := range t.Args {
			if a.Op == "iter" {
				return true
			}
		}
	}
	return t.Op == "iter"
}

// iterLt returns a < b for integers one of which is the number of the
// iteration plus a constant, as a condition on that number.
func iterLt(a, b *Term) *Term {
	ap, ac := splitAdd(a)
	bp, bc := splitAdd(b)
	switch {
	case ap != nil && ap.Op == "iter":
		return mkLt(ap, mkAdd(b, intT(-ac)))
	case bp != nil && bp.Op == "iter":
		return mkNot(mkLt(bp, mkAdd(a, intT(1-bc))))
	}
	return mkLt(a, b)
}

func mkLt(a, b *Term) *Term {
	ap, ac := splitAdd(a)
	bp, bc := splitAdd(b)
	if bp != nil && bp.Op == "sub" && ap != bp {
		return iterLt(mkAdd(a, bp.Args[1]), mkAdd(bp.Args[0], intT(bc)))
	}
	if ap != nil && ap.Op == "sub" && ap != bp {
		return iterLt(mkAdd(ap.Args[0], intT(ac)), mkAdd(b, ap.Args[1]))
	}
	if ap == bp {
		return boolT(ac < bc)
	}
	if af, ok := a.constFloat(); ok {
		if bf, ok := b.constFloat(); ok {
			return boolT(af < bf)
		}
	}
	// comparisons of a length with 0 are equalities
	if bp == nil && nonNeg(a) {
		if bc <= 0 {
			return tFalse
		}
		if bc == 1 && ac == 0 {
			return mkEq(a, intT(0))
		}
	}
	if ap == nil && nonNeg(b) {
		if ac < 0 {
			return tTrue
		}
		if ac == 0 && bc == 0 {
			return mkNot(mkEq(b, intT(0)))
		}
	}
	return mk("lt", "", a, b)
}

func (t *Term) constFloat() (float64, bool) {
	if t.Op == "const" && (strings.HasPrefix(t.Str, "float:") || strings.HasPrefix(t.Str, "int:")) {
		s := t.Str[strings.Index(t.Str, ":")+1:]
		if i := strings.Index(s, "/"); i > 0 {
			a, e1 := strconv.ParseFloat(s[:i], 64)
			b, e2 := strconv.ParseFloat(s[i+1:], 64)
			return a / b, e1 == nil && e2 == nil && b != 0
		}
		f, err := strconv.ParseFloat(s, 64)
		return f, err == nil
	}
	return 0, false
}

// nonNil tells whether t can not be nil whatever the execution.
func nonNil(t *Term) bool {
	switch t.Op {
	case "alloc", "makemap", "makechan", "makeslice", "iface", "closure", "func", "gaddr", "faddr", "iaddr", "seq", "errorf", "extnew", "after":
		return true
	case "gval":
		return isErrorType(t.Type)
	case "struct":
		return true
	}
	return false
}

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

// fresh tells whether t names an object created on the path.
func freshOp(t *Term) bool {
	switch t.Op {
	case "alloc", "makemap", "makechan", "makeslice", "closure", "func":
		return true
	}
	return false
}

// distinct tells whether a and b are known to be different values.
func distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	a, b = strip(a), strip(b)
	if a == b {
		return false
	}
	if isConst(a) && isConst(b) {
		return true
	}
	if a == tNil && nonNil(b) || b == tNil && nonNil(a) {
		return true
	}
	if freshOp(a) && freshOp(b) {
		return true
	}
	if a.Op == "gval" && b.Op == "gval" && nonNil(a) && nonNil(b) {
		return true
	}
	if (a.Op == "gval" && nonNil(a) && (b.Op == "errorf" || freshOp(b))) || (b.Op == "gval" && nonNil(b) && (a.Op == "errorf" || freshOp(a))) {
		return true
	}
	ap, ac := splitAdd(a)
	bp, bc := splitAdd(b)
	if ap == bp && ac != bc {
		return true
	}
	return false
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	// interface wrappers: a non nil concrete value in an interface
	if a == tNil && b.Op == "iface" || b == tNil && a.Op == "iface" {
		return tFalse
	}
	sa, sb := strip(a), strip(b)
	if sa == sb {
		return tTrue
	}
	// what is left of a sequence is empty
	for _, x := range [][2]*Term{{sa, sb}, {sb, sa}} {
		if x[0].Op == "sub" && x[1] == intT(0) && isLen(x[0].Args[0]) && hasIter(x[0].Args[1]) {
			return mkNot(iterLt(x[0].Args[1], x[0].Args[0]))
		}
	}
	if distinct(a, b) {
		return tFalse
	}
	if a.Op == "const" && strings.HasPrefix(a.Str, "bool:") {
		a, b = b, a
		sa, sb = sb, sa
	}
	if b == tTrue {
		return a
	}
	if b == tFalse {
		return mkNot(a)
	}
	if sa.ID > sb.ID {
		sa, sb = sb, sa
	}
	return mk("eq", "", sa, sb)
}

// strip removes interface wrappers at the top of t.
func strip(t *Term) *Term {
	for t.Op == "iface" {
		t = t.Args[0]
	}
	return t
}

// deep removes interface wrappers everywhere in t.
func deep(t *Term) *Term {
	if t.strp != nil {
		return t.strp
	}
	s := strip(t)
	ch := false
	args := make([]*Term, len(s.Args))
	for i, a := range s.Args {
		args[i] = deep(a)
		if args[i] != a {
			ch = true
		}
	}
	r := s
	if ch {
		r = mkT(s.Type, s.Op, s.Str, args...)
		if r.Aux == nil {
			r.Aux = s.Aux
		}
		r.strp = r
	}
	t.strp = r
	return r
}

func same(a, b *Term) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a == b || deep(a) == deep(b)
}

// walk visits t and every subterm until f returns false.
func (t *Term) walk(f func(*Term) bool) {
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if !f(t) {
			return
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
}

func (t *Term) contains(x *Term) bool {
	found := false
	t.walk(func(s *Term) bool {
		if s == x {
			found = true
		}
		return !found
	})
	return found
}

func (t *Term) String() string { return t.render(0) }

func (t *Term) render(d int) string {
	if t == nil {
		return "<none>"
	}
	if d > 7 {
		return "…"
	}
	arg := func(i int) string { return t.Args[i].render(d + 1) }
	all := func(from int) string {
		var s []string
		for i := from; i < len(t.Args); i++ {
			s = append(s, arg(i))
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case "nil":
		return "nil"
	case "const":
		return t.Str[strings.Index(t.Str, ":")+1:]
	case "param", "freevar":
		return t.Str
	case "faddr":
		return "&" + arg(0) + "." + fieldName(t)
	case "load":
		a := t.Args[0]
		if a.Op == "faddr" {
			return a.Args[0].render(d+1) + "." + fieldName(a)
		}
		return "*" + arg(0)
	case "field":
		return arg(0) + "." + fieldName(t)
	case "iface":
		return arg(0)
	case "pure":
		return arg(0) + "." + t.Str + "(" + all(1) + ")"
	case "lookup":
		return arg(0) + "[" + arg(1) + "]"
	case "in":
		return arg(1) + " in " + arg(0)
	case "eq":
		return arg(0) + " == " + arg(1)
	case "lt":
		return arg(0) + " < " + arg(1)
	case "not":
		return "!(" + arg(0) + ")"
	case "add":
		s := all(0)
		s = strings.ReplaceAll(s, ", ", "+")
		if t.Str != "0" {
			s += "+" + t.Str
		}
		return s
	case "gval":
		return t.Str
	case "sub":
		return arg(0) + "-" + arg(1)
	case "call":
		return t.Str[:strings.IndexAny(t.Str+"@", "@")] + "(" + all(0) + ")"
	case "res":
		if t.Str == "0" {
			return arg(0)
		}
		return arg(0) + "#" + t.Str
	case "seq":
		return "[" + all(0) + "]"
	case "elem":
		return arg(0) + "[" + arg(1) + "]"
	case "alloc":
		if t.Type != nil {
			return "new " + types.TypeString(t.Type, func(p *types.Package) string { return p.Name() })
		}
		return "new"
	case "struct":
		n := t.Str
		if i := strings.LastIndex(n, "/"); i >= 0 {
			n = n[i+1:]
		}
		return n + "{" + all(0) + "}"
	case "closure", "func":
		n := t.Str
		if i := strings.LastIndex(n, "/"); i >= 0 {
			n = n[i+1:]
		}
		if i := strings.Index(n, "@"); i >= 0 {
			n = n[:i]
		}
		return n
	case "iter":
		return "i"
	}
	s := t.Op
	if len(t.Args) > 0 {
		s += "(" + all(0) + ")"
	}
	return s
}

func fieldName(t *Term) string {
	return t.Str[strings.LastIndex(t.Str, ".")+1:]
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, _ := t.Underlying().(*types.Struct)
	return st
}

func derefType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func namedOf(t types.Type) *types.Named {
	if t == nil {
		return nil
	}
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

func posOf(i ssa.Instruction) string {
	p := i.Parent().Prog.Fset.Position(i.Pos())
	return fmt.Sprintf("%s:%d", shortFile(p.Filename), p.Line)
}

func shortFile(f string) string {
	return strings.TrimPrefix(strings.TrimPrefix(f, repoDir), "/")
}
