package main

// Contract language: Gobra-flavoured comments-style contracts kept in *.spec files,
// keyed by function. See /verif/DESIGN.md.

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type Expr struct {
	Op   string // ident,int,str,call,field,index,slice,un,bin,tern,forall,exists,assertT,nil,true,false
	Name string
	Val  *big.Int
	A    []*Expr
	Vars [][2]string
	Pos  string
}

func (e *Expr) String() string {
	switch e.Op {
	case "ident", "nil", "true", "false":
		return e.Name
	case "int":
		return e.Val.String()
	case "str":
		return fmt.Sprintf("%q", e.Name)
	case "call":
		var s []string
		for _, a := range e.A {
			s = append(s, a.String())
		}
		return e.Name + "(" + strings.Join(s, ", ") + ")"
	case "field":
		return e.A[0].String() + "." + e.Name
	case "index":
		return e.A[0].String() + "[" + e.A[1].String() + "]"
	case "un":
		return e.Name + e.A[0].String()
	case "bin":
		return "(" + e.A[0].String() + " " + e.Name + " " + e.A[1].String() + ")"
	case "tern":
		return "(" + e.A[0].String() + " ? " + e.A[1].String() + " : " + e.A[2].String() + ")"
	case "forall", "exists":
		return e.Op + " ... :: " + e.A[0].String()
	case "assertT":
		return e.A[0].String() + ".(" + e.Name + ")"
	}
	return e.Op
}

type tok struct {
	k string // id,int,str,op,eof
	s string
}

func lex(s string) ([]tok, error) {
	var ts []tok
	ops := []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", "<<", ">>", "(", ")", "[", "]", "{", "}", ".", ",", "+", "-", "*", "/", "%", "<", ">", "!", "?", ":", "&", "|", "="}
	i := 0
outer:
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '$':
			j := i + 1
			for j < len(s) && (s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] == '_' || s[j] >= '0' && s[j] <= '9' || s[j] == '$') {
				j++
			}
			ts = append(ts, tok{"id", s[i:j]})
			i = j
		case c >= '0' && c <= '9':
			j := i + 1
			for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] == 'x' || s[j] == '_' || s[j] >= 'a' && s[j] <= 'f' || s[j] >= 'A' && s[j] <= 'F') {
				j++
			}
			ts = append(ts, tok{"int", s[i:j]})
			i = j
		case c == '"':
			j := i + 1
			var sb strings.Builder
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' && j+1 < len(s) {
					j++
					switch s[j] {
					case 'n':
						sb.WriteByte('\n')
					case 'x':
						var v int
						fmt.Sscanf(s[j+1:j+3], "%02x", &v)
						sb.WriteByte(byte(v))
						j += 2
					default:
						sb.WriteByte(s[j])
					}
					j++
					continue
				}
				sb.WriteByte(s[j])
				j++
			}
			if j >= len(s) {
				return nil, fmt.Errorf("unterminated string")
			}
			ts = append(ts, tok{"str", sb.String()})
			i = j + 1
		default:
			for _, o := range ops {
				if strings.HasPrefix(s[i:], o) {
					ts = append(ts, tok{"op", o})
					i += len(o)
					continue outer
				}
			}
			return nil, fmt.Errorf("bad char %q in %q", c, s)
		}
	}
	ts = append(ts, tok{"eof", ""})
	return ts, nil
}

type parser struct {
	ts  []tok
	p   int
	pos string
}

func parseExpr(s, pos string) (e *Expr, err error) {
	ts, err := lex(s)
	if err != nil {
		return nil, fmt.Errorf("%s: %v", pos, err)
	}
	p := &parser{ts: ts, pos: pos}
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%s: %v in %q", pos, r, s)
		}
	}()
	e = p.expr(0)
	if p.cur().k != "eof" {
		panic("trailing " + p.cur().s)
	}
	return e, nil
}

func (p *parser) cur() tok { return p.ts[p.p] }
func (p *parser) is(s string) bool {
	return p.cur().k == "op" && p.cur().s == s
}
func (p *parser) eat(s string) {
	if !p.is(s) {
		panic("expected " + s + " got " + p.cur().s)
	}
	p.p++
}

var precs = map[string]int{"<==>": 1, "==>": 2, "||": 4, "&&": 5, "==": 6, "!=": 6, "<": 6, "<=": 6, ">": 6, ">=": 6, "+": 7, "-": 7, "*": 8, "/": 8, "%": 8, "<<": 9, ">>": 9}

func (p *parser) expr(min int) *Expr {
	if p.cur().k == "id" && (p.cur().s == "forall" || p.cur().s == "exists") {
		q := p.cur().s
		p.p++
		var vars [][2]string
		for {
			n := p.cur().s
			p.p++
			ty := p.typ()
			vars = append(vars, [2]string{n, ty})
			if p.is(",") {
				p.p++
				continue
			}
			break
		}
		p.eat("::")
		body := p.expr(0)
		return &Expr{Op: q, Vars: vars, A: []*Expr{body}, Pos: p.pos}
	}
	l := p.unary()
	for {
		t := p.cur()
		if t.k != "op" {
			return l
		}
		if t.s == "?" && min <= 3 {
			p.p++
			a := p.expr(0)
			p.eat(":")
			c := p.expr(3)
			l = &Expr{Op: "tern", A: []*Expr{l, a, c}, Pos: p.pos}
			continue
		}
		pr, ok := precs[t.s]
		if !ok || pr < min {
			return l
		}
		p.p++
		var r *Expr
		if t.s == "==>" {
			r = p.expr(pr)
		} else {
			r = p.expr(pr + 1)
		}
		l = &Expr{Op: "bin", Name: t.s, A: []*Expr{l, r}, Pos: p.pos}
	}
}

// typ parses a type text: *pkg.Name, []byte, int, ...
func (p *parser) typ() string {
	s := ""
	for {
		if p.is("*") {
			s += "*"
			p.p++
			continue
		}
		if p.is("[") {
			p.p++
			p.eat("]")
			s += "[]"
			continue
		}
		break
	}
	if p.cur().k != "id" {
		panic("type expected, got " + p.cur().s)
	}
	s += p.cur().s
	p.p++
	if s == "map" || strings.HasSuffix(s, "]map") || strings.HasSuffix(s, "*map") {
		p.eat("[")
		k := p.typ()
		p.eat("]")
		v := p.typ()
		return s + "[" + k + "]" + v
	}
	if p.is(".") {
		p.p++
		s += "." + p.cur().s
		p.p++
	}
	return s
}

func (p *parser) unary() *Expr {
	if p.is("!") || p.is("-") {
		o := p.cur().s
		p.p++
		return &Expr{Op: "un", Name: o, A: []*Expr{p.unary()}, Pos: p.pos}
	}
	return p.postfix(p.primary())
}

func (p *parser) primary() *Expr {
	t := p.cur()
	p.p++
	switch t.k {
	case "int":
		v, ok := new(big.Int).SetString(strings.ReplaceAll(t.s, "_", ""), 0)
		if !ok {
			panic("bad int " + t.s)
		}
		return &Expr{Op: "int", Val: v, Pos: p.pos}
	case "str":
		return &Expr{Op: "str", Name: t.s, Pos: p.pos}
	case "id":
		switch t.s {
		case "nil", "true", "false":
			return &Expr{Op: t.s, Name: t.s, Pos: p.pos}
		}
		if p.is("(") {
			p.p++
			var as []*Expr
			for !p.is(")") {
				if t.s == "is" && len(as) == 1 {
					as = append(as, &Expr{Op: "ident", Name: p.typ(), Pos: p.pos})
				} else {
					as = append(as, p.expr(0))
				}
				if p.is(",") {
					p.p++
				}
			}
			p.eat(")")
			return &Expr{Op: "call", Name: t.s, A: as, Pos: p.pos}
		}
		return &Expr{Op: "ident", Name: t.s, Pos: p.pos}
	case "op":
		if t.s == "(" {
			e := p.expr(0)
			p.eat(")")
			return e
		}
	}
	panic("unexpected " + t.s)
}

func (p *parser) postfix(e *Expr) *Expr {
	for {
		switch {
		case p.is("."):
			p.p++
			if p.is("(") {
				p.p++
				ty := p.typ()
				p.eat(")")
				e = &Expr{Op: "assertT", Name: ty, A: []*Expr{e}, Pos: p.pos}
				continue
			}
			n := p.cur().s
			p.p++
			if p.is("(") && e.Op == "ident" {
				p.p++
				var as []*Expr
				for !p.is(")") {
					as = append(as, p.expr(0))
					if p.is(",") {
						p.p++
					}
				}
				p.eat(")")
				e = &Expr{Op: "call", Name: e.Name + "." + n, A: as, Pos: p.pos}
				continue
			}
			e = &Expr{Op: "field", Name: n, A: []*Expr{e}, Pos: p.pos}
		case p.is("["):
			p.p++
			var lo, hi *Expr
			if !p.is(":") {
				lo = p.expr(4)
			}
			if p.is(":") {
				p.p++
				if !p.is("]") {
					hi = p.expr(4)
				}
				p.eat("]")
				e = &Expr{Op: "slice", A: []*Expr{e, lo, hi}, Pos: p.pos}
				continue
			}
			p.eat("]")
			e = &Expr{Op: "index", A: []*Expr{e, lo}, Pos: p.pos}
		default:
			return e
		}
	}
}

// ---------- spec files ----------

type Clause struct {
	Kind  string // requires ensures inv
	Label string
	E     *Expr
	Text  string
	Vars  [][2]string // placeholders for inv
	Pos   string
	Props []string
}

type ModItem struct {
	E    *Expr  // field expr p.f, or elems(s), map(m), big(p), obj(p)
	Heap string // heap-name prefix: "F:contexts.meteringContext.*"
	Text string
}

type Contract struct {
	Func        string
	Params      []string
	Requires    []*Clause
	Ensures     []*Clause
	Invs        []*Clause
	Ghosts      []*Clause // assume-on-entry lemmas instantiation (proved separately)
	Mods        []*ModItem
	ModAll      bool
	Keeps       []string
	Trusted     bool
	Iface       bool
	Pure        bool
	Inline      bool // never use contract at call sites, always inline
	NoPanic     bool
	MayPanic    bool
	NoMerge     bool // do not join paths where branches meet
	Opaque      bool
	Unroll      int
	Helper      bool
	Merge       bool // join paths where branches meet
	Covers      []*Clause
	File        string
	Line        int
	Fresh       []string
	InlineCalls map[string]bool
	Bounded     string
	Setup       bool             // run first the package's init functions that use the function's package variables
	Bind        map[string]*Expr // parameters with a constant value
	FreshRes    bool
	Props       []string
	Lets        []letDef
	Returns     map[int]*Clause
}

type letDef struct {
	Name string
	E    *Expr
}

type Def struct {
	Name   string
	Params []string
	Body   *Expr
}

type GhostFn struct {
	Name string
	Args []string
	Ret  string
}

type Axiom struct {
	E    *Expr
	Text string
	Pos  string
}

type Specs struct {
	C         map[string]*Contract
	Order     []string
	Defs      map[string]*Def
	Ghosts    map[string]*GhostFn
	Impl      map[string]string
	Axioms    []*Axiom
	GhostVars map[string]string // $name -> sort text
	Trusted   []string
	Props     map[string][]string
}

func loadSpecs(dir string) (*Specs, error) {
	S := &Specs{C: map[string]*Contract{}, Defs: map[string]*Def{}, Ghosts: map[string]*GhostFn{}, Impl: map[string]string{}, GhostVars: map[string]string{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		if err := S.loadFile(f); err != nil {
			return nil, err
		}
	}
	return S, nil
}

func (S *Specs) loadFile(f string) error {
	data, err := os.ReadFile(f)
	if err != nil {
		return err
	}
	lines := strings.Split(string(data), "\n")
	base := filepath.Base(f)
	var cur *Contract
	prop := ""
	i := 0
	next := func() (string, int, bool) {
		for i < len(lines) {
			ln := lines[i]
			no := i + 1
			i++
			if k := strings.Index(ln, "//"); k >= 0 && strings.Count(ln[:k], "\"")%2 == 0 {
				ln = ln[:k]
			}
			if strings.TrimSpace(ln) == "" {
				continue
			}
			// continuation: following lines that start with 4+ spaces more... use trailing backslash or leading '|'
			for i < len(lines) {
				nx := strings.TrimSpace(lines[i])
				if strings.HasPrefix(nx, "| ") {
					nl := nx[2:]
					if k := strings.Index(nl, "//"); k >= 0 && strings.Count(nl[:k], "\"")%2 == 0 {
						nl = nl[:k]
					}
					ln += " " + nl
					i++
					continue
				}
				break
			}
			return ln, no, true
		}
		return "", 0, false
	}
	for {
		ln, no, ok := next()
		if !ok {
			break
		}
		pos := fmt.Sprintf("%s:%d", base, no)
		t := strings.TrimSpace(ln)
		word := t
		rest := ""
		if k := strings.IndexAny(t, " \t"); k >= 0 {
			word, rest = t[:k], strings.TrimSpace(t[k:])
		}
		label := ""
		if k := strings.Index(word, "["); k > 0 && strings.HasSuffix(word, "]") {
			label = word[k+1 : len(word)-1]
			word = word[:k]
		}
		mk := func(kind, text string) (*Clause, error) {
			e, err := parseExpr(text, pos)
			if err != nil {
				return nil, err
			}
			return &Clause{Kind: kind, Label: label, E: e, Text: text, Pos: pos}, nil
		}
		switch word {
		case "impl":
			k := strings.Split(rest, "=")
			S.Impl[strings.TrimSpace(k[0])] = strings.TrimSpace(k[1])
			cur = nil
		case "property":
			prop = rest
			cur = nil
		case "ghostvar":
			k := strings.Fields(rest)
			S.GhostVars[k[0]] = strings.Join(k[1:], " ")
			cur = nil
		case "pred", "def":
			// def name(a,b) = expr
			k := strings.Index(rest, "=")
			if o := strings.Index(rest, "("); o < 0 || o > k {
				rest = rest[:k] + "() " + rest[k:]
			}
			// find the "=" after closing paren
			cp := strings.Index(rest, ")")
			k = cp + 1 + strings.Index(rest[cp+1:], "=")
			head := rest[:cp]
			op := strings.Index(head, "(")
			name := strings.TrimSpace(head[:op])
			var ps []string
			for _, p := range strings.Split(head[op+1:], ",") {
				if p = strings.TrimSpace(p); p != "" {
					ps = append(ps, p)
				}
			}
			e, err := parseExpr(rest[k+1:], pos)
			if err != nil {
				return err
			}
			if S.Defs[name] != nil {
				return fmt.Errorf("%s: duplicate def %s", pos, name)
			}
			S.Defs[name] = &Def{Name: name, Params: ps, Body: e}
			cur = nil
		case "ghost":
			// ghost name(Int,Str) Int
			op := strings.Index(rest, "(")
			cp := strings.Index(rest, ")")
			g := &GhostFn{Name: strings.TrimSpace(rest[:op]), Ret: strings.TrimSpace(rest[cp+1:])}
			for _, p := range strings.Split(rest[op+1:cp], ",") {
				if p = strings.TrimSpace(p); p != "" {
					g.Args = append(g.Args, p)
				}
			}
			S.Ghosts[g.Name] = g
			cur = nil
		case "axiom":
			e, err := parseExpr(rest, pos)
			if err != nil {
				return err
			}
			S.Axioms = append(S.Axioms, &Axiom{E: e, Text: rest, Pos: pos})
			cur = nil
		case "func", "case", "trusted", "iface", "inline":
			c := &Contract{File: base, Line: no, InlineCalls: map[string]bool{}}
			if prop != "" {
				c.Props = []string{prop}
			}
			if word == "trusted" {
				c.Trusted = true
			}
			if word == "iface" {
				c.Iface = true
				c.Trusted = true
			}
			if word == "inline" {
				c.Inline = true
			}
			// name(params): last paren group is the params
			r := rest
			op := strings.LastIndex(r, "(")
			cp := strings.LastIndex(r, ")")
			if op < 0 || cp < op || strings.HasPrefix(r[op:], "(*") {
				c.Func = r
			} else {
				c.Func = strings.TrimSpace(r[:op])
				for _, p := range strings.Split(r[op+1:cp], ",") {
					if p = strings.TrimSpace(p); p != "" {
						c.Params = append(c.Params, p)
					}
				}
			}
			if (word == "case") != strings.Contains(c.Func, "@") {
				return fmt.Errorf("%s: a case needs a label after @", pos)
			}
			if S.C[c.Func] != nil {
				return fmt.Errorf("%s: duplicate contract %s", pos, c.Func)
			}
			S.C[c.Func] = c
			S.Order = append(S.Order, c.Func)
			cur = c
		default:
			if cur == nil {
				return fmt.Errorf("%s: unexpected %q", pos, t)
			}
			switch word {
			case "requires", "ensures", "inv", "cover", "assumes":
				text := rest
				var vars [][2]string
				if word == "inv" && strings.HasPrefix(text, "{") {
					k, d := 0, 0
					for ; k < len(text); k++ {
						if text[k] == '{' {
							d++
						} else if text[k] == '}' {
							if d--; d == 0 {
								break
							}
						}
					}
					for _, p := range strings.Split(text[1:k], ",") {
						f := strings.Fields(p)
						vars = append(vars, [2]string{f[0], strings.Join(f[1:], " ")})
					}
					text = strings.TrimSpace(text[k+1:])
				}
				c, err := mk(word, text)
				if err != nil {
					return err
				}
				c.Vars = vars
				switch word {
				case "requires":
					cur.Requires = append(cur.Requires, c)
				case "ensures":
					cur.Ensures = append(cur.Ensures, c)
				case "inv":
					cur.Invs = append(cur.Invs, c)
				case "cover":
					cur.Covers = append(cur.Covers, c)
				case "assumes":
					cur.Ghosts = append(cur.Ghosts, c)
				}
			case "returns", "returns0", "returns1", "returns2", "returns3":
				c, err := mk("returns", rest)
				if err != nil {
					return err
				}
				n := 0
				if len(word) > 7 {
					n = int(word[7] - '0')
				}
				if cur.Returns == nil {
					cur.Returns = map[int]*Clause{}
				}
				cur.Returns[n] = c
			case "let":
				k := strings.Index(rest, "=")
				e, err := parseExpr(rest[k+1:], pos)
				if err != nil {
					return err
				}
				cur.Lets = append(cur.Lets, letDef{strings.TrimSpace(rest[:k]), e})
			case "modifies":
				for _, it := range splitTop(rest) {
					it = strings.TrimSpace(it)
					if it == "*" {
						cur.ModAll = true
						continue
					}
					if it == "nothing" {
						continue
					}
					if strings.HasPrefix(it, "heap ") {
						cur.Mods = append(cur.Mods, &ModItem{Heap: strings.TrimSpace(it[5:]), Text: it})
						continue
					}
					e, err := parseExpr(it, pos)
					if err != nil {
						return err
					}
					cur.Mods = append(cur.Mods, &ModItem{E: e, Text: it})
				}
			case "keeps":
				for _, it := range strings.Split(rest, ",") {
					cur.Keeps = append(cur.Keeps, strings.TrimSpace(it))
				}
			case "also":
				cur.Props = append(cur.Props, strings.Fields(rest)...)
			case "pure", "nopanic", "maypanic", "helper", "opaque", "freshresult", "nomerge":
				for _, w := range append([]string{word}, strings.Fields(rest)...) {
					switch w {
					case "pure":
						cur.Pure = true
					case "nopanic":
						cur.NoPanic = true
					case "maypanic":
						cur.MayPanic = true
					case "helper":
						cur.Helper = true
					case "opaque":
						cur.Opaque = true
					case "freshresult":
						cur.FreshRes = true
					case "nomerge":
						cur.NoMerge = true
					default:
						return fmt.Errorf("%s: unknown flag %q", pos, w)
					}
				}
			case "bounded":
				cur.Bounded = rest
			case "setup":
				cur.Setup = true
			case "bind":
				nm, ex, _ := strings.Cut(rest, " ")
				e, err := parseExpr(ex, pos)
				if err != nil {
					return err
				}
				if cur.Bind == nil {
					cur.Bind = map[string]*Expr{}
				}
				cur.Bind[nm] = e
			case "inlines":
				for _, n := range strings.Split(rest, ",") {
					cur.InlineCalls[strings.TrimSpace(n)] = true
				}
			default:
				return fmt.Errorf("%s: unknown clause %q", pos, word)
			}
		}
	}
	return nil
}

func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i, c := range s {
		switch c {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				out = append(out, s[st:i])
				st = i + 1
			}
		}
	}
	return append(out, s[st:])
}
