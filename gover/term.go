package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Terms are hash-consed SMT terms with light simplification.

type Sort string

const (
	SInt   Sort = "Int"
	SBool  Sort = "Bool"
	SReal  Sort = "Real"
	SIface Sort = "Iface"
	SSlice Sort = "Slice"
)

func ArrSort(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

func arrParts(s Sort) (Sort, Sort) {
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		panic("not an array sort: " + str)
	}
	str = str[7 : len(str)-1]
	d := 0
	for i, c := range str {
		switch c {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return Sort(str[:i]), Sort(str[i+1:])
			}
		}
	}
	panic("bad array sort")
}

type Term struct {
	Op    string // lit, sym, bound, app (uninterpreted), forall, or SMT op
	Name  string
	Args  []*Term
	Sort  Sort
	Lit   *big.Int
	ID    int
	Bound bool // contains free bound variables
	Pats  []*Term
	Quant bool // contains a quantifier
}

var (
	termMu  sync.Mutex
	termTab = map[string]*Term{}
	termCnt = 0
)

func mk(op, name string, s Sort, lit *big.Int, args ...*Term) *Term {
	return mkp(op, name, s, lit, nil, args...)
}

func mkp(op, name string, s Sort, lit *big.Int, pats []*Term, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(string(s))
	if lit != nil {
		sb.WriteByte('#')
		sb.WriteString(lit.String())
	}
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.ID))
	}
	for _, a := range pats {
		sb.WriteByte(';')
		sb.WriteString(strconv.Itoa(a.ID))
	}
	k := sb.String()
	termMu.Lock()
	defer termMu.Unlock()
	if t, ok := termTab[k]; ok {
		return t
	}
	termCnt++
	t := &Term{Op: op, Name: name, Args: args, Sort: s, Lit: lit, ID: termCnt, Pats: pats}
	if op == "bound" {
		t.Bound = true
	}
	for _, a := range args {
		if a.Quant {
			t.Quant = true
		}
	}
	if op == "forall" {
		// args: vars..., body (last). Free bound vars of the body minus vars.
		t.Quant = true
		free := map[*Term]bool{}
		freeBound(args[len(args)-1], free)
		for _, v := range args[:len(args)-1] {
			delete(free, v)
		}
		t.Bound = len(free) > 0
	} else {
		for _, a := range args {
			if a.Bound {
				t.Bound = true
			}
		}
	}
	termTab[k] = t
	return t
}

func freeBound(t *Term, out map[*Term]bool) {
	if !t.Bound {
		return
	}
	if t.Op == "bound" {
		out[t] = true
		return
	}
	if t.Op == "forall" {
		in := map[*Term]bool{}
		freeBound(t.Args[len(t.Args)-1], in)
		for _, v := range t.Args[:len(t.Args)-1] {
			delete(in, v)
		}
		for v := range in {
			out[v] = true
		}
		return
	}
	for _, a := range t.Args {
		freeBound(a, out)
	}
}

func I(n int64) *Term            { return mk("lit", "", SInt, big.NewInt(n)) }
func IBig(n *big.Int) *Term      { return mk("lit", "", SInt, new(big.Int).Set(n)) }
func RLit(n *big.Int) *Term      { return mk("lit", "", SReal, new(big.Int).Set(n)) }
func Sym(n string, s Sort) *Term { return mk("sym", n, s, nil) }
func BoundVar(n string, s Sort) *Term {
	return mk("bound", n, s, nil)
}
func App(n string, s Sort, args ...*Term) *Term { return mk("app", n, s, nil, args...) }

var True = mk("true", "", SBool, nil)
var False = mk("false", "", SBool, nil)

func BoolT(b bool) *Term {
	if b {
		return True
	}
	return False
}

func (t *Term) isLit() bool { return t.Op == "lit" }

func Not(a *Term) *Term {
	if a == True {
		return False
	}
	if a == False {
		return True
	}
	if a.Op == "not" {
		return a.Args[0]
	}
	return mk("not", "", SBool, nil, a)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a == False {
			return False
		}
		if a == True {
			continue
		}
		if a.Op == "and" {
			for _, b := range a.Args {
				if !seen[b] {
					seen[b] = true
					out = append(out, b)
				}
			}
			continue
		}
		if !seen[a] {
			seen[a] = true
			out = append(out, a)
		}
	}
	for _, a := range out {
		if seen[Not(a)] {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", "", SBool, nil, out...)
}

func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a == True {
			return True
		}
		if a == False {
			continue
		}
		if a.Op == "or" {
			for _, b := range a.Args {
				if !seen[b] {
					seen[b] = true
					out = append(out, b)
				}
			}
			continue
		}
		if !seen[a] {
			seen[a] = true
			out = append(out, a)
		}
	}
	for _, a := range out {
		if seen[Not(a)] {
			return True
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("or", "", SBool, nil, out...)
}

func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	return mk("=>", "", SBool, nil, a, b)
}

// linear normal form helpers: base + const
func splitConst(t *Term) (*Term, *big.Int) {
	if t.isLit() {
		return nil, t.Lit
	}
	if t.Op == "+" {
		last := t.Args[len(t.Args)-1]
		if last.isLit() {
			rest := t.Args[:len(t.Args)-1]
			if len(rest) == 1 {
				return rest[0], last.Lit
			}
			return mk("+", "", t.Sort, nil, rest...), last.Lit
		}
	}
	return t, big.NewInt(0)
}

// definitely distinct ints
var subTop = big.NewInt(-1000000)

func isSub(t *Term) bool { return t.Op == "app" && strings.HasPrefix(t.Name, "sub:") }

func distinctInts(a, b *Term) bool {
	if a.Sort != SInt || b.Sort != SInt {
		return false
	}
	if sa, sb := isSub(a), isSub(b); sa && sb {
		return a.Name != b.Name || distinctInts(a.Args[0], b.Args[0])
	} else if sa && b.isLit() || sb && a.isLit() {
		// addresses of parts of objects are below every other address
		if sa {
			return b.Lit.Cmp(subTop) >= 0
		}
		return a.Lit.Cmp(subTop) >= 0
	}
	ba, ca := splitConst(a)
	bb, cb := splitConst(b)
	return ba == bb && ca.Cmp(cb) != 0
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq sorts %s %s: %s / %s", a.Sort, b.Sort, a, b))
	}
	if a.Sort == SInt && distinctInts(a, b) {
		return False
	}
	if a.isLit() && b.isLit() {
		return False
	}
	if a.Sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if a.Op == "mkI" && b.Op == "mkI" {
		return And(Eq(a.Args[0], b.Args[0]), Eq(a.Args[1], b.Args[1]))
	}
	if a.Op == "mkS" && b.Op == "mkS" {
		return And(Eq(a.Args[0], b.Args[0]), Eq(a.Args[1], b.Args[1]), Eq(a.Args[2], b.Args[2]), Eq(a.Args[3], b.Args[3]))
	}
	if a.Sort == SInt {
		// ite with literal branches vs literal
		if a.Op == "ite" && b.isLit() {
			x, y := a.Args[1], a.Args[2]
			if x.isLit() && y.isLit() {
				return Or(And(a.Args[0], Eq(x, b)), And(Not(a.Args[0]), Eq(y, b)))
			}
		}
		if b.Op == "ite" && a.isLit() {
			return Eq(b, a)
		}
		// move constants to one side
		ba, ca := splitConst(a)
		bb, cb := splitConst(b)
		if ba != nil && bb != nil && ca.Sign() != 0 && cb.Sign() != 0 {
			return Eq(ba, Add(bb, IBig(new(big.Int).Sub(cb, ca))))
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("=", "", SBool, nil, a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.Sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	return mk("ite", "", a.Sort, nil, c, a, b)
}

func Add(as ...*Term) *Term {
	if len(as) == 0 {
		return I(0)
	}
	s := as[0].Sort
	cst := big.NewInt(0)
	coef := map[*Term]*big.Int{}
	var order []*Term
	var add func(t *Term, c *big.Int)
	add = func(t *Term, c *big.Int) {
		switch {
		case t.isLit():
			cst.Add(cst, new(big.Int).Mul(t.Lit, c))
		case t.Op == "+":
			for _, a := range t.Args {
				add(a, c)
			}
		case t.Op == "*" && t.Args[0].isLit():
			add(t.Args[1], new(big.Int).Mul(c, t.Args[0].Lit))
		default:
			if _, ok := coef[t]; !ok {
				coef[t] = big.NewInt(0)
				order = append(order, t)
			}
			coef[t].Add(coef[t], c)
		}
	}
	one := big.NewInt(1)
	for _, a := range as {
		add(a, one)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].ID < order[j].ID })
	var out []*Term
	for _, t := range order {
		c := coef[t]
		if c.Sign() == 0 {
			continue
		}
		if c.Cmp(one) == 0 {
			out = append(out, t)
		} else {
			out = append(out, mk("*", "", s, nil, mk("lit", "", s, new(big.Int).Set(c)), t))
		}
	}
	if cst.Sign() != 0 || len(out) == 0 {
		out = append(out, mk("lit", "", s, cst))
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("+", "", s, nil, out...)
}

func Neg(a *Term) *Term { return MulC(big.NewInt(-1), a) }
func Sub(a, b *Term) *Term {
	return Add(a, Neg(b))
}
func MulC(c *big.Int, a *Term) *Term {
	if a.isLit() {
		return mk("lit", "", a.Sort, new(big.Int).Mul(c, a.Lit))
	}
	if c.Sign() == 0 {
		return mk("lit", "", a.Sort, big.NewInt(0))
	}
	if c.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	if a.Op == "+" {
		var out []*Term
		for _, x := range a.Args {
			out = append(out, MulC(c, x))
		}
		return Add(out...)
	}
	if a.Op == "*" && a.Args[0].isLit() {
		return MulC(new(big.Int).Mul(c, a.Args[0].Lit), a.Args[1])
	}
	return mk("*", "", a.Sort, nil, mk("lit", "", a.Sort, new(big.Int).Set(c)), a)
}
func Mul(a, b *Term) *Term {
	if a.isLit() {
		return MulC(a.Lit, b)
	}
	if b.isLit() {
		return MulC(b.Lit, a)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("nlmul", "", a.Sort, nil, a, b)
}

// floor division / modulo by positive literal (SMT-LIB div/mod agree for positive divisor)
func DivC(a *Term, c *big.Int) *Term {
	if c.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	if a.isLit() {
		q := new(big.Int)
		m := new(big.Int)
		q.DivMod(a.Lit, c, m)
		return IBig(q)
	}
	if a.Op == "div" && a.Args[1].isLit() && a.Args[1].Lit.Sign() > 0 {
		return DivC(a.Args[0], new(big.Int).Mul(c, a.Args[1].Lit))
	}
	return mk("div", "", SInt, nil, a, IBig(c))
}
func ModC(a *Term, c *big.Int) *Term {
	if a.isLit() {
		q := new(big.Int)
		m := new(big.Int)
		q.DivMod(a.Lit, c, m)
		return IBig(m)
	}
	if a.Op == "mod" && a.Args[1].isLit() && a.Args[1].Lit.Cmp(c) == 0 {
		return a
	}
	if a.Op == "mod" && a.Args[1].isLit() && new(big.Int).Mod(a.Args[1].Lit, c).Sign() == 0 {
		return ModC(a.Args[0], c)
	}
	return mk("mod", "", SInt, nil, a, IBig(c))
}

func Le(a, b *Term) *Term {
	if a == b {
		return True
	}
	ba, ca := splitConst(a)
	bb, cb := splitConst(b)
	if ba == bb {
		return BoolT(ca.Cmp(cb) <= 0)
	}
	return mk("<=", "", SBool, nil, a, b)
}
func Lt(a, b *Term) *Term {
	if a.Sort == SReal {
		return Not(mk("<=", "", SBool, nil, b, a))
	}
	return Not(Le(b, a))
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func Select(a, i *Term) *Term {
	for a.Op == "store" {
		if a.Args[1] == i {
			return a.Args[2]
		}
		d := distinctInts(a.Args[1], i)
		if !d && a.Args[1].Op == "mkI" && i.Op == "mkI" {
			d = Eq(a.Args[1], i) == False
		}
		if d {
			a = a.Args[0]
			continue
		}
		break
	}
	if a.Op == "constarr" {
		return a.Args[0]
	}
	if a.Op == "copyarr" {
		// copyarr(D, S, lo, so, n)[i] = lo<=i<lo+n ? S[i-lo+so] : D[i]
		lo, so, n := a.Args[2], a.Args[3], a.Args[4]
		return Ite(And(Le(lo, i), Lt(i, Add(lo, n))),
			Select(a.Args[1], Add(Sub(i, lo), so)), Select(a.Args[0], i))
	}
	if a.Op == "select" && a.Args[0].Op == "store" {
		st := a.Args[0]
		c := Eq(st.Args[1], a.Args[1])
		return Ite(c, Select(st.Args[2], i), Select(Select(st.Args[0], a.Args[1]), i))
	}
	if a.Op == "ite" {
		x := Select(a.Args[1], i)
		y := Select(a.Args[2], i)
		return Ite(a.Args[0], x, y)
	}
	_, v := arrParts(a.Sort)
	return mk("select", "", v, nil, a, i)
}
func Store(a, i, v *Term) *Term {
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return mk("store", "", a.Sort, nil, a, i, v)
}
func CopyArr(d, s, lo, so, n *Term) *Term {
	if n.isLit() && n.Lit.Sign() <= 0 {
		return d
	}
	return mk("copyarr", "", d.Sort, nil, d, s, lo, so, n)
}
func ConstArr(s Sort, v *Term) *Term { return mk("constarr", "", s, nil, v) }

func MkI(t, v *Term) *Term {
	if t.Op == "ityp" && v.Op == "ival" && t.Args[0] == v.Args[0] {
		return t.Args[0]
	}
	return mk("mkI", "", SIface, nil, t, v)
}
func ITyp(a *Term) *Term {
	if a.Op == "mkI" {
		return a.Args[0]
	}
	if a.Op == "ite" {
		return Ite(a.Args[0], ITyp(a.Args[1]), ITyp(a.Args[2]))
	}
	return mk("ityp", "", SInt, nil, a)
}
func IVal(a *Term) *Term {
	if a.Op == "mkI" {
		return a.Args[1]
	}
	if a.Op == "ite" {
		return Ite(a.Args[0], IVal(a.Args[1]), IVal(a.Args[2]))
	}
	return mk("ival", "", SInt, nil, a)
}
func MkS(b, o, l, c *Term) *Term {
	if b.Op == "sbase" && o.Op == "soff" && l.Op == "slen" && c.Op == "scap" &&
		b.Args[0] == o.Args[0] && o.Args[0] == l.Args[0] && l.Args[0] == c.Args[0] {
		return b.Args[0]
	}
	return mk("mkS", "", SSlice, nil, b, o, l, c)
}
func sacc(op string, i int, a *Term) *Term {
	if a.Op == "mkS" {
		return a.Args[i]
	}
	if a.Op == "ite" {
		return Ite(a.Args[0], sacc(op, i, a.Args[1]), sacc(op, i, a.Args[2]))
	}
	return mk(op, "", SInt, nil, a)
}
func SBase(a *Term) *Term { return sacc("sbase", 0, a) }
func SOff(a *Term) *Term  { return sacc("soff", 1, a) }
func SLen(a *Term) *Term  { return sacc("slen", 2, a) }
func SCap(a *Term) *Term  { return sacc("scap", 3, a) }

var NilI = MkI(I(0), I(0))
var NilS = MkS(I(0), I(0), I(0), I(0))

func Forall(vars []*Term, body *Term, pats ...*Term) *Term {
	if body == True {
		return True
	}
	if !body.Bound {
		return body
	}
	return mkp("forall", "", SBool, nil, pats, append(append([]*Term{}, vars...), body)...)
}

// Subst replaces terms (memoised) by a mapping.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			var pats []*Term
			for _, p := range t.Pats {
				pats = append(pats, rec(p))
			}
			r = rebuild(t, args, pats)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, a []*Term, pats []*Term) *Term {
	switch t.Op {
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "=>":
		return Implies(a[0], a[1])
	case "=":
		return Eq(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "+":
		return Add(a...)
	case "*", "nlmul":
		return Mul(a[0], a[1])
	case "div":
		if a[1].isLit() && a[1].Lit.Sign() > 0 {
			return DivC(a[0], a[1].Lit)
		}
	case "mod":
		if a[1].isLit() && a[1].Lit.Sign() > 0 {
			return ModC(a[0], a[1].Lit)
		}
	case "<=":
		return Le(a[0], a[1])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	case "copyarr":
		return CopyArr(a[0], a[1], a[2], a[3], a[4])
	case "mkI":
		return MkI(a[0], a[1])
	case "ityp":
		return ITyp(a[0])
	case "ival":
		return IVal(a[0])
	case "mkS":
		return MkS(a[0], a[1], a[2], a[3])
	case "sbase":
		return SBase(a[0])
	case "soff":
		return SOff(a[0])
	case "slen":
		return SLen(a[0])
	case "scap":
		return SCap(a[0])
	case "forall":
		return Forall(a[:len(a)-1], a[len(a)-1], pats...)
	}
	return mkp(t.Op, t.Name, t.Sort, t.Lit, pats, a...)
}

func smtName(n string) string {
	ok := true
	for _, c := range n {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '!' || c == '$') {
			ok = false
		}
	}
	if ok && n != "" && !(n[0] >= '0' && n[0] <= '9') {
		return n
	}
	return "|" + strings.ReplaceAll(n, "|", "_") + "|"
}

func litStr(l *big.Int, real bool) string {
	suf := ""
	if real {
		suf = ".0"
	}
	if l.Sign() < 0 {
		return "(- " + new(big.Int).Neg(l).String() + suf + ")"
	}
	return l.String() + suf
}

func (t *Term) String() string {
	return t.str(nil, 0)
}

func (t *Term) str(named map[*Term]string, depth int) string {
	if named != nil {
		if n, ok := named[t]; ok {
			return n
		}
	}
	switch t.Op {
	case "lit":
		return litStr(t.Lit, t.Sort == SReal)
	case "sym", "bound":
		return smtName(t.Name)
	case "true", "false":
		return t.Op
	case "app":
		if len(t.Args) == 0 {
			return smtName(t.Name)
		}
		var sb strings.Builder
		sb.WriteString("(" + smtName(t.Name))
		for _, a := range t.Args {
			sb.WriteString(" " + a.str(named, depth+1))
		}
		return sb.String() + ")"
	case "constarr":
		return "((as const " + string(t.Sort) + ") " + t.Args[0].str(named, depth+1) + ")"
	case "forall":
		var sb strings.Builder
		sb.WriteString("(forall (")
		n := len(t.Args) - 1
		for _, v := range t.Args[:n] {
			sb.WriteString("(" + smtName(v.Name) + " " + string(v.Sort) + ")")
		}
		sb.WriteString(") ")
		if len(t.Pats) > 0 {
			sb.WriteString("(! ")
		}
		sb.WriteString(t.Args[n].str(named, depth+1))
		if len(t.Pats) > 0 {
			for _, p := range t.Pats {
				sb.WriteString(" :pattern (" + p.str(named, depth+1) + ")")
			}
			sb.WriteString(")")
		}
		return sb.String() + ")"
	}
	op := t.Op
	if op == "nlmul" {
		op = "*"
	}
	if op == "copyarr" {
		op = smtName(copyName(t))
	}
	var sb strings.Builder
	sb.WriteString("(" + op)
	for _, a := range t.Args {
		sb.WriteString(" " + a.str(named, depth+1))
	}
	return sb.String() + ")"
}
