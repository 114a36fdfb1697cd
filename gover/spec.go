package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Clause is one specification clause.
type Clause struct {
	Expr  ast.Expr
	Text  string
	Tags  []string
	Kind  string     // event kind for onevent clauses
	Exprs []ast.Expr // for modifies
	Ghost bool       // mentions a ghost parameter
	File  string
	Line  int
}

// FuncSpec is the contract of a function (IsContract) or a verified entry point.
type FuncSpec struct {
	Name       string // unique name, with the @tag suffix for extra units
	Fn         string // function in /repo
	IsContract bool
	Params     []string
	Results    []string
	Props      []string
	Ghosts     []ghostParam
	Requires   []*Clause
	Ensures    []*Clause
	Modifies   []*Clause
	HasMod     bool
	LoopInv    []*Clause
	Iter       []*Clause
	SegInv     []*Clause // invariants of shared data: assumed where a goroutine segment starts, checked where it ends
	Preserves  []*Clause
	OnEvent    []*Clause
	Hints      []*Clause
	Panics     *Clause
	Opaque     map[string]bool
	OpaqueFn   map[string]bool
	Inline     map[string]bool
	LockOnly   bool
	Merge      bool
	Patient    bool // spend the full solver budget on loop invariants
	NoSpawn    bool // bodies of goroutines started here are checked by another unit
	Optional   bool
	File       string
	Line       int
}

type ghostParam struct {
	name string
	typ  string
}

type Def struct {
	name   string
	params []string
	body   ast.Expr
	rec    bool
	text   string
}

type guardSpec struct {
	lock   string
	global string
}

type Specs struct {
	ByName       map[string]*FuncSpec
	Order        []*FuncSpec
	Defs         map[string]*Def
	Guards       map[string]guardSpec
	GlobalGuards map[string]string
	Shared       map[string]bool // unlocked fields that another thread may change between goroutine segments
	Lines        int
}

var specs = &Specs{ByName: map[string]*FuncSpec{}, Defs: map[string]*Def{}, Guards: map[string]guardSpec{}, GlobalGuards: map[string]string{}, Shared: map[string]bool{}}

var clauseKw = map[string]bool{"props": true, "ghost": true, "requires": true, "ensures": true, "modifies": true, "loopinv": true,
	"iter": true, "seginv": true, "preserves": true, "onevent": true, "panics": true, "opaque": true, "opaquefn": true, "inline": true, "hint": true, "lockonly": true, "include": true, "merge": true, "nospawn": true, "patient": true}
var topKw = map[string]bool{"def": true, "rec": true, "guard": true, "shared": true, "func": true, "unit": true, "group": true}

func firstWord(s string) string {
	i := strings.IndexAny(s, " \t(")
	if i < 0 {
		return s
	}
	return s[:i]
}

// groups: named lists of clauses shared by units ("group name" ... / "include name")
func LoadSpecs(dir string) error {
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	groups := map[string][]rawLine{}
	type pending struct {
		s  *FuncSpec
		it rawLine
	}
	var later []pending
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		var items []rawLine
		for n, l := range strings.Split(string(b), "\n") {
			if i := strings.Index(l, "//"); i >= 0 {
				l = l[:i]
			}
			t := strings.TrimSpace(l)
			if t == "" {
				continue
			}
			specs.Lines++
			w := firstWord(t)
			if topKw[w] && (l[0] != ' ' && l[0] != '\t') || clauseKw[w] && (l[0] == ' ' || l[0] == '\t') {
				items = append(items, rawLine{t, f, n + 1})
			} else {
				if len(items) == 0 {
					return fmt.Errorf("%s:%d: stray line", f, n+1)
				}
				items[len(items)-1].text += " " + t
			}
		}
		var cur *FuncSpec
		grp := ""
		for _, it := range items {
			w := firstWord(it.text)
			rest := strings.TrimSpace(it.text[len(w):])
			if topKw[w] {
				cur = nil
				grp = ""
			}
			switch w {
			case "group":
				grp = rest
				groups[grp] = nil
				continue
			case "def", "rec":
				if err := addDef(rest, w == "rec"); err != nil {
					return fmt.Errorf("%s:%d: %v", f, it.line, err)
				}
				continue
			case "guard":
				p := strings.Fields(rest)
				if len(p) != 2 {
					return fmt.Errorf("%s:%d: guard", f, it.line)
				}
				if strings.Contains(p[0], ".") {
					specs.Guards["F:"+p[0]] = guardSpec{lock: p[1]}
				} else {
					specs.GlobalGuards[p[0]] = p[1]
				}
				continue
			case "shared":
				specs.Shared[rest] = true
				continue
			case "func", "unit":
				s, err := parseHeader(rest)
				if err != nil {
					return fmt.Errorf("%s:%d: %v", f, it.line, err)
				}
				s.IsContract = w == "func"
				s.File, s.Line = filepath.Base(f), it.line
				if specs.ByName[s.Name] != nil {
					return fmt.Errorf("%s:%d: duplicate %s", f, it.line, s.Name)
				}
				specs.ByName[s.Name] = s
				specs.Order = append(specs.Order, s)
				cur = s
				continue
			}
			if grp != "" {
				groups[grp] = append(groups[grp], it)
				continue
			}
			if cur == nil {
				return fmt.Errorf("%s:%d: clause outside a block", f, it.line)
			}
			later = append(later, pending{cur, it})
		}
	}
	for _, p := range later {
		if err := p.s.addClause(p.it, groups); err != nil {
			return fmt.Errorf("%s:%d: %v", p.it.file, p.it.line, err)
		}
	}
	return nil
}

type rawLine struct {
	text string
	file string
	line int
}

func (s *FuncSpec) addClause(it rawLine, groups map[string][]rawLine) error {
	w := firstWord(it.text)
	rest := strings.TrimSpace(it.text[len(w):])
	switch w {
	case "include":
		g, ok := groups[rest]
		if !ok {
			return fmt.Errorf("unknown group %s", rest)
		}
		for _, l := range g {
			if err := s.addClause(l, groups); err != nil {
				return err
			}
		}
		return nil
	case "props":
		s.Props = append(s.Props, strings.Fields(rest)...)
		return nil
	case "ghost":
		p := strings.SplitN(rest, " ", 2)
		s.Ghosts = append(s.Ghosts, ghostParam{p[0], strings.TrimSpace(p[1])})
		return nil
	case "opaque":
		for _, m := range strings.Fields(rest) {
			s.Opaque[m] = true
		}
		return nil
	case "opaquefn":
		for _, m := range strings.Fields(rest) {
			s.OpaqueFn[m] = true
		}
		return nil
	case "inline":
		for _, m := range strings.Fields(rest) {
			s.Inline[m] = true
		}
		return nil
	case "lockonly":
		s.LockOnly = true
		return nil
	case "patient":
		s.Patient = true
		return nil
	case "nospawn":
		s.NoSpawn = true
		return nil
	case "merge":
		s.Merge = true
		return nil
	}
	cl := &Clause{File: it.file, Line: it.line}
	if strings.HasPrefix(rest, "[") {
		i := strings.Index(rest, "]")
		cl.Tags = strings.Fields(rest[1:i])
		rest = strings.TrimSpace(rest[i+1:])
	}
	if w == "onevent" {
		k := firstWord(rest)
		cl.Kind = k
		rest = strings.TrimSpace(rest[len(k):])
	}
	cl.Text = rest
	if w == "modifies" {
		s.HasMod = true
		if rest == "nothing" {
			return nil
		}
		e, err := parser.ParseExpr("f(" + rest + ")")
		if err != nil {
			return err
		}
		cl.Exprs = e.(*ast.CallExpr).Args
		s.Modifies = append(s.Modifies, cl)
		return nil
	}
	e, err := parser.ParseExpr(rest)
	if err != nil {
		return fmt.Errorf("%v in %q", err, rest)
	}
	cl.Expr = e
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			for _, g := range s.Ghosts {
				if g.name == id.Name {
					cl.Ghost = true
				}
			}
		}
		return true
	})
	switch w {
	case "requires":
		s.Requires = append(s.Requires, cl)
	case "ensures":
		s.Ensures = append(s.Ensures, cl)
	case "loopinv":
		s.LoopInv = append(s.LoopInv, cl)
	case "iter":
		s.Iter = append(s.Iter, cl)
	case "seginv":
		s.SegInv = append(s.SegInv, cl)
	case "preserves":
		s.Preserves = append(s.Preserves, cl)
	case "onevent":
		s.OnEvent = append(s.OnEvent, cl)
	case "hint":
		s.Hints = append(s.Hints, cl)
	case "panics":
		s.Panics = cl
	}
	return nil
}

// header: name(params) (results)
func parseHeader(h string) (*FuncSpec, error) {
	s := &FuncSpec{Opaque: map[string]bool{}, OpaqueFn: map[string]bool{}, Inline: map[string]bool{}}
	i := 0
	if strings.HasPrefix(h, "(") {
		i = strings.Index(h, ")") + 1
	}
	j := strings.Index(h[i:], "(")
	if j < 0 {
		return nil, fmt.Errorf("bad header %q", h)
	}
	s.Name = strings.TrimSpace(h[:i+j])
	s.Fn = s.Name
	if k := strings.Index(s.Name, "@"); k >= 0 {
		s.Fn = s.Name[:k]
	}
	rest := h[i+j:]
	e := strings.Index(rest, ")")
	split := func(t string) []string {
		var o []string
		for _, p := range strings.Split(t, ",") {
			p = strings.TrimSpace(p)
			if p != "" {
				o = append(o, p)
			}
		}
		return o
	}
	s.Params = split(rest[1:e])
	rest = strings.TrimSpace(rest[e+1:])
	if strings.HasPrefix(rest, "(") {
		s.Results = split(rest[1:strings.Index(rest, ")")])
	}
	return s, nil
}

func addDef(t string, rec bool) error {
	i := strings.Index(t, "=")
	for i > 0 && (t[i+1] == '=' || t[i-1] == '<' || t[i-1] == '>' || t[i-1] == '!') {
		return fmt.Errorf("bad def")
	}
	hd, body := strings.TrimSpace(t[:i]), strings.TrimSpace(t[i+1:])
	d := &Def{rec: rec, text: body}
	p := strings.Index(hd, "(")
	if p < 0 {
		d.name = hd
	} else {
		d.name = strings.TrimSpace(hd[:p])
		for _, a := range strings.Split(strings.TrimSuffix(hd[p+1:], ")"), ",") {
			if a = strings.TrimSpace(a); a != "" {
				d.params = append(d.params, a)
			}
		}
	}
	e, err := parser.ParseExpr(body)
	if err != nil {
		return fmt.Errorf("%v in def %s", err, d.name)
	}
	d.body = e
	if specs.Defs[d.name] != nil {
		return fmt.Errorf("duplicate def %s", d.name)
	}
	specs.Defs[d.name] = d
	return nil
}
