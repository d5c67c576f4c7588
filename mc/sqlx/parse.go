package sqlx

import (
	"fmt"
	"strings"
)

// Expr is an expression tree.  K is the node kind:
//
//	col(S, Q=qualifiers) str num hex bit null bool star param default
//	func(S, A) bin(S, A[2]) un(S, A[1]) is(S="NULL"/"NOT NULL"/"TRUE"..., A[1]) between(S=""/"NOT", A[3])
//	in(S, A[0], rest) insub(S,A[0],Sel) like(S="LIKE"/"NOT LIKE"..., A) case(A pairs, S="val"/"" , else flag)
//	cast(Type, A[1]) subq exists row array any(S=op,..) collate(S,A) interval(S unit,A)
type Expr struct {
	K    string
	S    string
	Qual []string
	Quo  bool // identifier was quoted
	A    []*Expr
	Sel  *Select
	Type string // cast target, canonical spelling as written
	Else bool   // case has else (last element of A)
	Val  bool   // case has operand (first element of A)
	Dist bool   // aggregate DISTINCT
	Pre  string // string prefix
}

type SelItem struct {
	E      *Expr
	Alias  string
	Star   []string // qualifiers of qualified star, non-nil when star
	IsStar bool
}

type From struct {
	K      string // table join sub
	Schema string
	Name   string
	Alias  string
	Join   string // JOIN, LEFT JOIN, RIGHT JOIN, CROSS JOIN, FULL JOIN
	L, R   *From
	On     *Expr
	Using  []string
	Sub    *Select
}

type OrderItem struct {
	E     *Expr
	Desc  bool
	Nulls string
}

type Select struct {
	Distinct bool
	Items    []SelItem
	From     []*From
	Where    *Expr
	Group    []*Expr
	Having   *Expr
	Op       string // UNION, UNION ALL ...: then L,R are set
	L, R     *Select
	Order    []OrderItem
	Limit    *Expr
	Offset   *Expr
	Top      *Expr
	Paren    bool
}

// P is a token cursor.
type P struct {
	T   []Tok
	I   int
	D   Dialect
	Src string
}

func NewP(src string, d Dialect) (*P, error) {
	t, err := Lex(src, d)
	if err != nil {
		return nil, err
	}
	return &P{T: t, D: d, Src: src}, nil
}

// Bail is panicked by the parser and recovered by Try.
type Bail struct{ Err error }

func (p *P) Fail(format string, a ...interface{}) {
	panic(Bail{&SyntaxError{fmt.Sprintf(format, a...)}})
}
func (p *P) Unexpected() {
	t := p.Peek()
	if t.K == EOF {
		p.Fail("syntax error at end of input")
	}
	p.Fail("syntax error at or near %q", p.Src[t.Pos:])
}

// Try runs f and turns a Bail into an error.
func Try(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if b, ok := r.(Bail); ok {
				err = b.Err
				return
			}
			panic(r)
		}
	}()
	f()
	return nil
}

func (p *P) Peek() Tok { return p.T[p.I] }
func (p *P) PeekN(n int) Tok {
	if p.I+n >= len(p.T) {
		return p.T[len(p.T)-1]
	}
	return p.T[p.I+n]
}
func (p *P) Next() Tok {
	t := p.T[p.I]
	if t.K != EOF {
		p.I++
	}
	return t
}
func (p *P) EOF() bool { return p.Peek().K == EOF }

// Is reports whether the next tokens are the given words or operators.
func (p *P) Is(words ...string) bool {
	for i, w := range words {
		t := p.PeekN(i)
		if t.K == Word && t.U == w || t.K == Op && t.S == w {
			continue
		}
		return false
	}
	return true
}
func (p *P) Acc(words ...string) bool {
	if p.Is(words...) {
		p.I += len(words)
		return true
	}
	return false
}
func (p *P) Exp(words ...string) {
	for _, w := range words {
		if !p.Acc(w) {
			p.Unexpected()
		}
	}
}

// Reserved words that cannot be bare identifiers (common core of the three servers).
var reservedCommon = words(`SELECT FROM WHERE GROUP ORDER HAVING UNION AND OR NOT NULL IN IS LIKE CASE WHEN THEN ELSE
 CREATE TABLE PRIMARY FOREIGN REFERENCES CONSTRAINT CHECK UNIQUE DEFAULT ON AS JOIN LEFT INNER CROSS DISTINCT ALL
 INTO GRANT TO USING FOR END`)
var reservedMy = words(`ADD ALTER ANALYZE BETWEEN BY CASCADE CHANGE COLLATE COLUMN CONVERT DATABASE DELETE DESC ASC DESCRIBE
 DROP EXISTS EXPLAIN FALSE TRUE FULLTEXT INDEX INSERT INTERVAL KEY KEYS LIMIT LOCK MATCH MOD RANGE READ RENAME
 REPLACE RIGHT SET SHOW SPATIAL TRIGGER UPDATE VALUES WITH WRITE IF INT INTEGER BIGINT SMALLINT TINYINT VARCHAR CHAR
 CHARACTER DECIMAL NUMERIC FLOAT DOUBLE BLOB TEXTUAL EACH DATABASES LONGTEXT MEDIUMTEXT TINYTEXT PROCEDURE REGEXP XOR DIV
 UNSIGNED ZEROFILL CURRENT_DATE CURRENT_TIME CURRENT_TIMESTAMP LOCALTIME LOCALTIMESTAMP`)
var reservedPg = words(`ANALYSE ANALYZE ANY ARRAY ASC ASYMMETRIC BOTH CAST COLLATE COLUMN CURRENT_DATE CURRENT_ROLE CURRENT_TIME
 CURRENT_TIMESTAMP CURRENT_USER DEFERRABLE DESC DO EXCEPT FALSE FETCH INITIALLY INTERSECT LATERAL LEADING LIMIT
 LOCALTIME LOCALTIMESTAMP OFFSET ONLY PLACING RETURNING SESSION_USER SOME SYMMETRIC TRAILING TRUE USER VARIADIC WINDOW
 WITH CONCURRENTLY FULL ILIKE ISNULL NATURAL NOTNULL OUTER RIGHT VERBOSE SIMILAR OVERLAPS`)
var reservedMs = words(`ADD ALTER ANY ASC AUTHORIZATION BACKUP BEGIN BETWEEN BREAK BROWSE BULK BY CASCADE CHECKPOINT CLOSE CLUSTERED
 COALESCE COLLATE COLUMN COMMIT COMPUTE CONTAINS CONTINUE CONVERT CURRENT CURSOR DATABASE DBCC DEALLOCATE DECLARE
 DELETE DENY DESC DISK DISTRIBUTED DOUBLE DROP DUMP ERRLVL ESCAPE EXCEPT EXEC EXECUTE EXISTS EXIT EXTERNAL FETCH FILE
 FILLFACTOR FULL FUNCTION GOTO HOLDLOCK IDENTITY IDENTITY_INSERT IF INDEX INSERT INTERSECT KEY KILL LINENO LOAD MERGE
 NATIONAL NOCHECK NONCLUSTERED NULLIF OF OFF OFFSETS OPEN OPTION OUTER OVER PERCENT PIVOT PLAN PRECISION PRINT PROC
 PROCEDURE PUBLIC RAISERROR READ READTEXT RECONFIGURE REPLICATION RESTORE RESTRICT RETURN REVERT REVOKE RIGHT ROLLBACK
 ROWCOUNT RULE SAVE SCHEMA SESSION_USER SET SHUTDOWN SOME STATISTICS SYSTEM_USER TEXTSIZE TOP TRAN TRANSACTION TRIGGER
 TRUNCATE UPDATE USE USER VALUES VARYING VIEW WAITFOR WHILE WITH`)

var reservedSq = words(`ADD ALTER BETWEEN COLLATE COMMIT DEFERRABLE DELETE DROP ESCAPE EXCEPT EXISTS INDEX INSERT INTERSECT ISNULL LIMIT NOTHING
 NOTNULL RETURNING SET TRANSACTION UPDATE VALUES`)

func words(s string) map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(s) {
		m[w] = true
	}
	return m
}

func Reserved(u string, d Dialect) bool {
	if reservedCommon[u] {
		return true
	}
	switch d {
	case MySQL:
		return reservedMy[u]
	case PG:
		return reservedPg[u]
	case MSSQL:
		return reservedMs[u]
	case SQLite:
		return reservedSq[u]
	}
	return false
}

// IsIdent reports whether the next token can be an identifier.
func (p *P) IsIdent() bool {
	t := p.Peek()
	return t.K == Quoted || t.K == Word && !Reserved(t.U, p.D)
}

// Ident reads an identifier, folding case the way the server does.
func (p *P) Ident() string {
	if !p.IsIdent() {
		p.Unexpected()
	}
	t := p.Next()
	if t.K == Word && p.D == PG {
		return strings.ToLower(t.S)
	}
	return t.S
}

// Label reads an identifier where any keyword is allowed too (after AS, after a dot).
func (p *P) Label() string {
	t := p.Peek()
	if t.K == Word {
		p.Next()
		if p.D == PG {
			return strings.ToLower(t.S)
		}
		return t.S
	}
	return p.Ident()
}

// QName reads a possibly qualified name.
func (p *P) QName() []string {
	out := []string{p.Ident()}
	for p.Is(".") {
		p.Next()
		out = append(out, p.Label())
	}
	return out
}

func (p *P) IdentList() []string {
	var out []string
	p.Exp("(")
	for {
		out = append(out, p.Ident())
		if !p.Acc(",") {
			break
		}
	}
	p.Exp(")")
	return out
}

// ---- expressions

func bin(op string, a, b *Expr) *Expr { return &Expr{K: "bin", S: op, A: []*Expr{a, b}} }
func un(op string, a *Expr) *Expr     { return &Expr{K: "un", S: op, A: []*Expr{a}} }

func (p *P) Expr() *Expr { return p.exprOr() }

// BExpr reads what may follow DEFAULT: no AND, OR, NOT, IS, IN, LIKE or BETWEEN on top.
func (p *P) BExpr() *Expr { return p.exprLow() }

func (p *P) exprOr() *Expr {
	l := p.exprXor()
	for {
		if p.Acc("OR") || p.D == MySQL && p.Acc("||") {
			l = bin("OR", l, p.exprXor())
			continue
		}
		return l
	}
}
func (p *P) exprXor() *Expr {
	l := p.exprAnd()
	for p.D == MySQL && p.Acc("XOR") {
		l = bin("XOR", l, p.exprAnd())
	}
	return l
}
func (p *P) exprAnd() *Expr {
	l := p.exprNot()
	for p.Acc("AND") || p.D == MySQL && p.Acc("&&") {
		l = bin("AND", l, p.exprNot())
	}
	return l
}
func (p *P) exprNot() *Expr {
	if p.Acc("NOT") {
		return un("NOT", p.exprNot())
	}
	return p.exprCmp()
}

var cmpOps = map[string]string{"=": "=", "<": "<", ">": ">", "<=": "<=", ">=": ">=", "<>": "<>", "!=": "<>", "<=>": "<=>"}

func (p *P) exprCmp() *Expr {
	l := p.exprLow()
	for {
		t := p.Peek()
		if t.K == Op {
			if op, ok := cmpOps[t.S]; ok && (t.S != "<=>" || p.D == MySQL) {
				p.Next()
				if p.Is("ANY") || p.Is("ALL") || p.Is("SOME") {
					q := p.Next().U
					p.Exp("(")
					if p.Is("SELECT") {
						s := p.Select()
						p.Exp(")")
						l = &Expr{K: "quant", S: op + " " + q, A: []*Expr{l, {K: "subq", Sel: s}}}
					} else {
						e := p.Expr()
						p.Exp(")")
						l = &Expr{K: "quant", S: op + " " + q, A: []*Expr{l, e}}
					}
					continue
				}
				l = bin(op, l, p.exprLow())
				continue
			}
			if p.D == PG && (t.S == "~" || t.S == "!~" || t.S == "~*" || t.S == "!~*") {
				p.Next()
				l = bin(t.S, l, p.exprLow())
				continue
			}
		}
		if p.Acc("IS") {
			not := ""
			if p.Acc("NOT") {
				not = "NOT "
			}
			switch {
			case p.Acc("NULL"):
				l = &Expr{K: "is", S: not + "NULL", A: []*Expr{l}}
			case p.D != MSSQL && p.Acc("TRUE"):
				l = &Expr{K: "is", S: not + "TRUE", A: []*Expr{l}}
			case p.D != MSSQL && p.Acc("FALSE"):
				l = &Expr{K: "is", S: not + "FALSE", A: []*Expr{l}}
			case p.D != MSSQL && p.Acc("UNKNOWN"):
				l = &Expr{K: "is", S: not + "UNKNOWN", A: []*Expr{l}}
			case p.D == PG && p.Acc("DISTINCT", "FROM"):
				l = &Expr{K: "distinct", S: not, A: []*Expr{l, p.exprLow()}}
			default:
				p.Unexpected()
			}
			continue
		}
		if p.D == PG && p.Acc("ISNULL") {
			l = &Expr{K: "is", S: "NULL", A: []*Expr{l}}
			continue
		}
		if p.D == PG && p.Acc("NOTNULL") {
			l = &Expr{K: "is", S: "NOT NULL", A: []*Expr{l}}
			continue
		}
		save := p.I
		not := ""
		if p.Acc("NOT") {
			not = "NOT "
		}
		switch {
		case p.Acc("BETWEEN"):
			a := p.exprLow()
			p.Exp("AND")
			b := p.exprLow()
			l = &Expr{K: "between", S: not, A: []*Expr{l, a, b}}
			continue
		case p.Acc("IN"):
			p.Exp("(")
			if p.Is("SELECT") {
				s := p.Select()
				p.Exp(")")
				l = &Expr{K: "insub", S: not, A: []*Expr{l}, Sel: s}
				continue
			}
			e := &Expr{K: "in", S: not, A: []*Expr{l}}
			for {
				e.A = append(e.A, p.Expr())
				if !p.Acc(",") {
					break
				}
			}
			p.Exp(")")
			l = e
			continue
		case p.Is("LIKE") || p.D == PG && p.Is("ILIKE") || p.D == MySQL && (p.Is("REGEXP") || p.Is("RLIKE")):
			op := p.Next().U
			if op == "RLIKE" {
				op = "REGEXP"
			}
			e := &Expr{K: "like", S: not + op, A: []*Expr{l, p.exprLow()}}
			if p.Acc("ESCAPE") {
				e.A = append(e.A, p.exprLow())
			}
			l = e
			continue
		}
		p.I = save
		return l
	}
}

// binary operators below comparison, loosest first.
func (p *P) exprLow() *Expr {
	if p.D == PG {
		return p.pgOther()
	}
	if p.D == MySQL {
		return p.myBitOr()
	}
	return p.add()
}

func (p *P) pgOther() *Expr {
	l := p.add()
	for {
		t := p.Peek()
		if t.K == Op {
			switch t.S {
			case "||", "&", "|", "#", "<<", ">>", "->", "->>", "@>", "<@", "&&":
				p.Next()
				l = bin(t.S, l, p.add())
				continue
			}
		}
		return l
	}
}
func (p *P) myBitOr() *Expr {
	l := p.myBitAnd()
	for p.Acc("|") {
		l = bin("|", l, p.myBitAnd())
	}
	return l
}
func (p *P) myBitAnd() *Expr {
	l := p.myShift()
	for p.Acc("&") {
		l = bin("&", l, p.myShift())
	}
	return l
}
func (p *P) myShift() *Expr {
	l := p.add()
	for {
		if p.Acc("<<") {
			l = bin("<<", l, p.add())
		} else if p.Acc(">>") {
			l = bin(">>", l, p.add())
		} else {
			return l
		}
	}
}
func (p *P) add() *Expr {
	l := p.mul()
	for {
		t := p.Peek()
		if t.K == Op && (t.S == "+" || t.S == "-" || p.D == MSSQL && (t.S == "&" || t.S == "|" || t.S == "^") || p.D == SQLite && t.S == "||") {
			p.Next()
			if p.D == MySQL && p.Acc("INTERVAL") {
				e := p.Expr()
				u := p.Label()
				l = bin(t.S, l, &Expr{K: "interval", S: strings.ToLower(u), A: []*Expr{e}})
				continue
			}
			l = bin(t.S, l, p.mul())
			continue
		}
		return l
	}
}
func (p *P) mul() *Expr {
	l := p.pow()
	for {
		t := p.Peek()
		if t.K == Op && (t.S == "*" || t.S == "/" || t.S == "%") {
			p.Next()
			l = bin(t.S, l, p.pow())
			continue
		}
		if p.D == MySQL && (p.Is("DIV") || p.Is("MOD")) {
			u := p.Next().U
			if u == "MOD" {
				u = "%"
			}
			l = bin(u, l, p.pow())
			continue
		}
		return l
	}
}
func (p *P) pow() *Expr {
	l := p.unary()
	for p.D != MSSQL && p.Is("^") {
		p.Next()
		l = bin("^", l, p.unary())
	}
	return l
}
func (p *P) unary() *Expr {
	t := p.Peek()
	if t.K == Op && (t.S == "-" || t.S == "+" || t.S == "~" || p.D == MySQL && t.S == "!") {
		p.Next()
		return un(t.S, p.unary())
	}
	if p.D == MySQL && p.Is("BINARY") {
		p.Next()
		return &Expr{K: "cast", Type: "binary", A: []*Expr{p.unary()}}
	}
	return p.postfix()
}
func (p *P) postfix() *Expr {
	e := p.primary()
	for {
		if p.D == PG && p.Acc("::") {
			e = &Expr{K: "cast", Type: p.TypeName(), A: []*Expr{e}}
			continue
		}
		if p.D == PG && p.Is("[") {
			p.Next()
			i := p.Expr()
			p.Exp("]")
			e = &Expr{K: "index", A: []*Expr{e, i}}
			continue
		}
		if p.D == PG && p.Is("AT", "TIME", "ZONE") {
			p.I += 3
			e = &Expr{K: "func", S: "timezone", A: []*Expr{p.primary(), e}}
			continue
		}
		if p.Is("COLLATE") {
			p.Next()
			n := p.QName()
			e = &Expr{K: "collate", S: strings.Join(n, "."), A: []*Expr{e}}
			continue
		}
		return e
	}
}

// TypeName reads a type name with its modifiers and returns it lower-cased, single-spaced.
func (p *P) TypeName() string {
	var b strings.Builder
	t := p.Next()
	if t.K != Word && t.K != Quoted {
		p.I--
		p.Unexpected()
	}
	n := strings.ToLower(t.S)
	if t.K == Quoted && p.D != MSSQL {
		n = "\"" + t.S + "\""
	}
	b.WriteString(n)
	for p.Is(".") {
		p.Next()
		b.WriteString("." + p.Label())
	}
	word := func(ws ...string) bool {
		if p.Acc(ws...) {
			for _, w := range ws {
				b.WriteString(" " + strings.ToLower(w))
			}
			return true
		}
		return false
	}
	mods := func() {
		if p.Is("(") {
			p.Next()
			b.WriteString("(")
			for i := 0; ; i++ {
				if i > 0 {
					b.WriteString(",")
				}
				t := p.Next()
				switch {
				case t.K == Num:
					b.WriteString(t.S)
				case t.K == Str && p.D == MySQL:
					b.WriteString("'" + strings.Replace(t.S, "'", "''", -1) + "'")
				case t.K == Word && t.U == "MAX" && p.D == MSSQL:
					b.WriteString("max")
				default:
					p.I--
					p.Unexpected()
				}
				if !p.Acc(",") {
					break
				}
			}
			p.Exp(")")
			b.WriteString(")")
		}
	}
	switch n {
	case "double":
		word("PRECISION")
	case "character", "char", "nchar", "national", "bit":
		if n == "national" {
			if !word("CHARACTER") && !word("CHAR") {
				word("VARCHAR")
			}
		}
		word("VARYING")
	case "long":
		if !word("VARCHAR") {
			word("VARBINARY")
		}
	}
	mods()
	switch n {
	case "time", "timestamp":
		if p.D == PG {
			if !word("WITH", "TIME", "ZONE") {
				word("WITHOUT", "TIME", "ZONE")
			}
		}
	case "interval":
	}
	if p.D == MySQL {
		for word("UNSIGNED") || word("SIGNED") || word("ZEROFILL") {
		}
	}
	if p.D == PG {
		for p.Is("[") {
			p.Next()
			if p.Peek().K == Num {
				p.Next()
			}
			p.Exp("]")
			b.WriteString("[]")
		}
		if p.Acc("ARRAY") {
			b.WriteString("[]")
		}
	}
	return b.String()
}

func (p *P) primary() *Expr {
	t := p.Peek()
	switch t.K {
	case Str:
		p.Next()
		s := t.S
		for p.Peek().K == Str && p.D == MySQL { // adjacent strings concatenate
			s += p.Next().S
		}
		return &Expr{K: "str", S: s, Pre: t.Pre}
	case Num:
		p.Next()
		return &Expr{K: "num", S: t.S}
	case Hex:
		p.Next()
		return &Expr{K: "hex", S: t.S}
	case Bit:
		p.Next()
		return &Expr{K: "bit", S: t.S}
	case Param:
		p.Next()
		return &Expr{K: "param", S: t.S}
	case Op:
		if t.S == "(" {
			p.Next()
			if p.Is("SELECT") || p.Is("WITH") {
				s := p.Select()
				p.Exp(")")
				return &Expr{K: "subq", Sel: s}
			}
			e := p.Expr()
			if p.Is(",") {
				r := &Expr{K: "row", A: []*Expr{e}}
				for p.Acc(",") {
					r.A = append(r.A, p.Expr())
				}
				p.Exp(")")
				return r
			}
			p.Exp(")")
			return e
		}
		if t.S == "*" {
			p.Next()
			return &Expr{K: "star"}
		}
		if t.S == "?" {
			p.Next()
			return &Expr{K: "param", S: "?"}
		}
		p.Unexpected()
	case EOF:
		p.Unexpected()
	}
	if t.K == Word {
		switch t.U {
		case "NULL":
			p.Next()
			return &Expr{K: "null"}
		case "TRUE", "FALSE":
			if p.D != MSSQL {
				p.Next()
				return &Expr{K: "bool", S: t.U}
			}
		case "CASE":
			p.Next()
			e := &Expr{K: "case"}
			if !p.Is("WHEN") {
				e.Val = true
				e.A = append(e.A, p.Expr())
			}
			for p.Acc("WHEN") {
				e.A = append(e.A, p.Expr())
				p.Exp("THEN")
				e.A = append(e.A, p.Expr())
			}
			if p.Acc("ELSE") {
				e.Else = true
				e.A = append(e.A, p.Expr())
			}
			p.Exp("END")
			return e
		case "EXISTS":
			p.Next()
			p.Exp("(")
			s := p.Select()
			p.Exp(")")
			return &Expr{K: "exists", Sel: s}
		case "CAST":
			if p.PeekN(1).S == "(" {
				p.I += 2
				e := p.Expr()
				p.Exp("AS")
				ty := p.TypeName()
				p.Exp(")")
				return &Expr{K: "cast", Type: ty, A: []*Expr{e}}
			}
		case "CONVERT":
			if p.D == MSSQL && p.PeekN(1).S == "(" {
				p.I += 2
				ty := p.TypeName()
				p.Exp(",")
				e := &Expr{K: "convert", Type: ty, A: []*Expr{p.Expr()}}
				for p.Acc(",") {
					e.A = append(e.A, p.Expr())
				}
				p.Exp(")")
				return e
			}
		case "ARRAY":
			if p.D == PG && p.PeekN(1).S == "[" {
				p.I += 2
				e := &Expr{K: "array"}
				if !p.Is("]") {
					for {
						e.A = append(e.A, p.Expr())
						if !p.Acc(",") {
							break
						}
					}
				}
				p.Exp("]")
				return e
			}
		case "CURRENT_TIMESTAMP", "CURRENT_DATE", "CURRENT_TIME", "CURRENT_USER", "LOCALTIME", "LOCALTIMESTAMP", "SESSION_USER", "USER", "CURRENT_ROLE":
			if t.U == "USER" && p.D != PG {
				break
			}
			p.Next()
			e := &Expr{K: "kwfunc", S: t.U}
			if p.Is("(") && (p.D == MySQL || p.D == PG) {
				p.Next()
				if p.Peek().K == Num {
					e.A = append(e.A, &Expr{K: "num", S: p.Next().S})
				} else if p.D == PG {
					p.Unexpected()
				}
				p.Exp(")")
			}
			return e
		case "INTERVAL":
			if p.D == MySQL {
				p.Next()
				e := p.Expr()
				u := p.Label()
				return &Expr{K: "interval", S: strings.ToLower(u), A: []*Expr{e}}
			}
			if p.D == PG && p.PeekN(1).K == Str {
				p.Next()
				return &Expr{K: "cast", Type: "interval", A: []*Expr{{K: "str", S: p.Next().S}}}
			}
		case "DATE", "TIMESTAMP", "TIME":
			if p.D == PG && p.PeekN(1).K == Str {
				ty := strings.ToLower(p.Next().S)
				return &Expr{K: "cast", Type: ty, A: []*Expr{{K: "str", S: p.Next().S}}}
			}
		case "DEFAULT":
			p.Next()
			return &Expr{K: "default"}
		case "NEXT":
			if p.D == MSSQL && p.Is("NEXT", "VALUE", "FOR") {
				p.I += 3
				n := p.QName()
				return &Expr{K: "nextval", Qual: n}
			}
		}
	}
	// function call allows some reserved names
	if t.K == Word && p.PeekN(1).K == Op && p.PeekN(1).S == "(" && (!Reserved(t.U, p.D) || funcWords[t.U]) {
		p.Next()
		return p.call([]string{t.S})
	}
	if !p.IsIdent() {
		p.Unexpected()
	}
	t = p.Next()
	name := func(t Tok) string {
		if t.K == Word && p.D == PG {
			return strings.ToLower(t.S)
		}
		return t.S
	}
	e := &Expr{K: "col", S: name(t), Quo: t.K == Quoted}
	for p.Is(".") {
		if p.PeekN(1).K == Op && p.PeekN(1).S == "*" {
			p.I += 2
			return &Expr{K: "star", Qual: append(e.Qual, e.S)}
		}
		p.Next()
		e.Qual = append(e.Qual, e.S)
		nt := p.Peek()
		if nt.K != Word && nt.K != Quoted {
			p.Unexpected()
		}
		p.Next()
		e.S = name(nt)
		e.Quo = nt.K == Quoted
	}
	if p.Is("(") {
		return p.call(append(e.Qual, e.S))
	}
	return e
}

var funcWords = words("LEFT RIGHT REPLACE IF MOD VALUES CHAR INSERT CONVERT COALESCE NULLIF DATABASE ISNULL CURRENT_TIMESTAMP USER UPDATE INT")

func (p *P) call(name []string) *Expr {
	p.Exp("(")
	e := &Expr{K: "func", S: strings.ToLower(strings.Join(name, "."))}
	if p.D == MySQL && p.Acc("DISTINCT") || p.D != MySQL && p.Acc("DISTINCT") {
		e.Dist = true
	}
	if !p.Is(")") {
		for {
			e.A = append(e.A, p.Expr())
			if p.D == MySQL && p.Acc("USING") {
				e.A = append(e.A, &Expr{K: "word", S: p.Label()})
				break
			}
			if (e.S == "trim" || e.S == "substring" || e.S == "extract") && (p.Acc("FROM")) {
				continue
			}
			if !p.Acc(",") {
				break
			}
		}
	}
	p.Exp(")")
	if p.Acc("OVER") {
		p.Exp("(")
		o := &Expr{K: "over", A: []*Expr{e}}
		if p.Acc("PARTITION", "BY") {
			for {
				o.A = append(o.A, p.Expr())
				if !p.Acc(",") {
					break
				}
			}
		}
		if p.Acc("ORDER", "BY") {
			o.Sel = &Select{Order: p.orderList()}
		}
		p.Exp(")")
		return o
	}
	return e
}

// ---- SELECT

func (p *P) Select() *Select {
	s := p.selUnion()
	if p.Acc("ORDER", "BY") {
		s.Order = p.orderList()
	}
	if p.D != MSSQL {
		for {
			if p.Acc("LIMIT") {
				a := p.Expr()
				if p.D != PG && p.Acc(",") {
					s.Offset = a
					a = p.Expr()
				}
				s.Limit = a
				continue
			}
			if p.Acc("OFFSET") {
				s.Offset = p.Expr()
				p.Acc("ROWS")
				continue
			}
			break
		}
	}
	return s
}

func (p *P) orderList() []OrderItem {
	var out []OrderItem
	for {
		o := OrderItem{E: p.Expr()}
		if p.Acc("DESC") {
			o.Desc = true
		} else {
			p.Acc("ASC")
		}
		if p.D == PG && p.Acc("NULLS") {
			o.Nulls = p.Next().U
		}
		out = append(out, o)
		if !p.Acc(",") {
			return out
		}
	}
}

func (p *P) selUnion() *Select {
	l := p.selCore()
	for {
		op := ""
		switch {
		case p.Acc("UNION"):
			op = "UNION"
		case p.D != MySQL && p.Acc("EXCEPT"):
			op = "EXCEPT"
		case p.D != MySQL && p.Acc("INTERSECT"):
			op = "INTERSECT"
		default:
			return l
		}
		if p.Acc("ALL") {
			op += " ALL"
		} else {
			p.Acc("DISTINCT")
		}
		r := p.selCore()
		l = &Select{Op: op, L: l, R: r}
	}
}

func (p *P) selCore() *Select {
	if p.Acc("(") {
		s := p.Select()
		p.Exp(")")
		s.Paren = true
		return s
	}
	p.Exp("SELECT")
	s := &Select{}
	if p.Acc("DISTINCT") {
		s.Distinct = true
	} else {
		p.Acc("ALL")
	}
	if p.D == MSSQL && p.Acc("TOP") {
		if p.Acc("(") {
			s.Top = p.Expr()
			p.Exp(")")
		} else {
			s.Top = p.primary()
		}
	}
	for {
		it := SelItem{E: p.Expr()}
		if it.E.K == "star" {
			it.IsStar = true
			it.Star = it.E.Qual
		} else if p.Acc("AS") {
			if p.Peek().K == Str && (p.D == MySQL || p.D == MSSQL) {
				it.Alias = p.Next().S
			} else {
				it.Alias = p.Label()
			}
		} else if p.IsIdent() {
			it.Alias = p.Ident()
		} else if p.D == MSSQL && it.E.K == "bin" && it.E.S == "=" && false {
		}
		s.Items = append(s.Items, it)
		if !p.Acc(",") {
			break
		}
	}
	if p.Acc("FROM") {
		for {
			s.From = append(s.From, p.fromItem())
			if !p.Acc(",") {
				break
			}
		}
	}
	if p.Acc("WHERE") {
		s.Where = p.Expr()
	}
	if p.Acc("GROUP", "BY") {
		for {
			s.Group = append(s.Group, p.Expr())
			if !p.Acc(",") {
				break
			}
		}
	}
	if p.Acc("HAVING") {
		s.Having = p.Expr()
	}
	return s
}

func (p *P) fromItem() *From {
	l := p.fromPrim()
	for {
		j := ""
		switch {
		case p.Acc("JOIN") || p.Acc("INNER", "JOIN"):
			j = "JOIN"
		case p.Acc("LEFT", "JOIN") || p.Acc("LEFT", "OUTER", "JOIN"):
			j = "LEFT JOIN"
		case p.Acc("RIGHT", "JOIN") || p.Acc("RIGHT", "OUTER", "JOIN"):
			j = "RIGHT JOIN"
		case p.D != MySQL && (p.Acc("FULL", "JOIN") || p.Acc("FULL", "OUTER", "JOIN")):
			j = "FULL JOIN"
		case p.Acc("CROSS", "JOIN"):
			j = "CROSS JOIN"
		default:
			return l
		}
		n := &From{K: "join", Join: j, L: l, R: p.fromPrim()}
		if j != "CROSS JOIN" {
			if p.Acc("ON") {
				n.On = p.Expr()
			} else if p.D != MSSQL && p.Acc("USING") {
				n.Using = p.IdentList()
			} else if p.D != MySQL || j != "JOIN" {
				p.Unexpected()
			}
		}
		l = n
	}
}

func (p *P) fromPrim() *From {
	if p.Acc("(") {
		if p.Is("SELECT") {
			s := p.Select()
			p.Exp(")")
			f := &From{K: "sub", Sub: s}
			p.Acc("AS")
			f.Alias = p.Ident()
			return f
		}
		f := p.fromItem()
		p.Exp(")")
		return f
	}
	q := p.QName()
	f := &From{K: "table", Name: q[len(q)-1]}
	if len(q) > 1 {
		f.Schema = q[len(q)-2]
	}
	if p.Acc("AS") {
		f.Alias = p.Label()
	} else if p.IsIdent() && !p.Is("WITH") {
		f.Alias = p.Ident()
	}
	if p.D == MSSQL && p.Acc("WITH") {
		p.Exp("(")
		p.Label()
		p.Exp(")")
	}
	return f
}

// ParseExpr parses a complete expression.
func ParseExpr(s string, d Dialect) (e *Expr, err error) {
	p, err := NewP(s, d)
	if err != nil {
		return nil, err
	}
	err = Try(func() {
		e = p.Expr()
		if !p.EOF() {
			p.Unexpected()
		}
	})
	return
}

// ParseSelect parses a complete select.
func ParseSelect(s string, d Dialect) (q *Select, err error) {
	p, err := NewP(s, d)
	if err != nil {
		return nil, err
	}
	err = Try(func() {
		q = p.Select()
		p.Acc(";")
		if !p.EOF() {
			p.Unexpected()
		}
	})
	return
}

// ---- canonical S-expressions

func q(s string) string { return "'" + strings.Replace(s, "'", "''", -1) + "'" }

// Canon renders e as an unambiguous S-expression.
func (e *Expr) Canon() string {
	if e == nil {
		return "-"
	}
	var b strings.Builder
	e.canon(&b)
	return b.String()
}

func (e *Expr) canon(b *strings.Builder) {
	switch e.K {
	case "str":
		b.WriteString(q(e.S))
		return
	case "num":
		b.WriteString(e.S)
		return
	case "col":
		for _, x := range e.Qual {
			b.WriteString("\"" + x + "\".")
		}
		b.WriteString("\"" + e.S + "\"")
		return
	}
	b.WriteString("(" + e.K)
	if e.S != "" {
		b.WriteString(" " + e.S)
	}
	if e.Type != "" {
		b.WriteString(" :" + e.Type)
	}
	for _, x := range e.Qual {
		b.WriteString(" \"" + x + "\"")
	}
	if e.Dist {
		b.WriteString(" distinct")
	}
	if e.Val {
		b.WriteString(" val")
	}
	if e.Else {
		b.WriteString(" else")
	}
	for _, a := range e.A {
		b.WriteString(" ")
		a.canon(b)
	}
	if e.Sel != nil {
		b.WriteString(" " + e.Sel.Canon())
	}
	b.WriteString(")")
}

func (f *From) Canon() string {
	switch f.K {
	case "table":
		s := "\"" + f.Name + "\""
		if f.Schema != "" {
			s = "\"" + f.Schema + "\"." + s
		}
		if f.Alias != "" {
			s += " as \"" + f.Alias + "\""
		}
		return s
	case "sub":
		return "(" + f.Sub.Canon() + " as \"" + f.Alias + "\")"
	}
	return "(" + f.Join + " " + f.L.Canon() + " " + f.R.Canon() + " on " + f.On.Canon() + " using " + strings.Join(f.Using, ",") + ")"
}

func (s *Select) Canon() string {
	var b strings.Builder
	b.WriteString("{")
	if s.Op != "" {
		b.WriteString(s.Op + " " + s.L.Canon() + " " + s.R.Canon())
	} else {
		b.WriteString("select")
		if s.Distinct {
			b.WriteString(" distinct")
		}
		if s.Top != nil {
			b.WriteString(" top " + s.Top.Canon())
		}
		for _, i := range s.Items {
			if i.IsStar {
				b.WriteString(" *" + strings.Join(i.Star, "."))
			} else {
				b.WriteString(" " + i.E.Canon())
			}
			if i.Alias != "" {
				b.WriteString(" as \"" + i.Alias + "\"")
			}
		}
		for _, f := range s.From {
			b.WriteString(" from " + f.Canon())
		}
		if s.Where != nil {
			b.WriteString(" where " + s.Where.Canon())
		}
		for _, g := range s.Group {
			b.WriteString(" group " + g.Canon())
		}
		if s.Having != nil {
			b.WriteString(" having " + s.Having.Canon())
		}
	}
	for _, o := range s.Order {
		b.WriteString(" order " + o.E.Canon())
		if o.Desc {
			b.WriteString(" desc")
		}
		b.WriteString(o.Nulls)
	}
	if s.Limit != nil {
		b.WriteString(" limit " + s.Limit.Canon())
	}
	if s.Offset != nil {
		b.WriteString(" offset " + s.Offset.Canon())
	}
	b.WriteString("}")
	return b.String()
}

// Walk visits e and its sub-expressions.
func (e *Expr) Walk(f func(*Expr)) {
	if e == nil {
		return
	}
	f(e)
	for _, a := range e.A {
		a.Walk(f)
	}
	if e.Sel != nil {
		e.Sel.Walk(f)
	}
}

func (s *Select) Walk(f func(*Expr)) {
	if s == nil {
		return
	}
	s.L.Walk(f)
	s.R.Walk(f)
	for _, i := range s.Items {
		i.E.Walk(f)
	}
	for _, x := range s.From {
		x.Walk(f)
	}
	s.Where.Walk(f)
	for _, g := range s.Group {
		g.Walk(f)
	}
	s.Having.Walk(f)
	for _, o := range s.Order {
		o.E.Walk(f)
	}
}

func (x *From) Walk(f func(*Expr)) {
	if x == nil {
		return
	}
	x.L.Walk(f)
	x.R.Walk(f)
	x.On.Walk(f)
	x.Sub.Walk(f)
}

// Tables lists the tables a select reads.
func (s *Select) Tables() [][2]string {
	var out [][2]string
	var fr func(x *From)
	var sel func(s *Select)
	fr = func(x *From) {
		if x == nil {
			return
		}
		switch x.K {
		case "table":
			out = append(out, [2]string{x.Schema, x.Name})
		case "sub":
			sel(x.Sub)
		default:
			fr(x.L)
			fr(x.R)
			x.On.Walk(func(e *Expr) {
				if e.Sel != nil {
					sel(e.Sel)
				}
			})
		}
	}
	sel = func(s *Select) {
		if s == nil {
			return
		}
		sel(s.L)
		sel(s.R)
		for _, f := range s.From {
			fr(f)
		}
		seen := func(e *Expr) {
			e.Walk(func(e *Expr) {
				if e.Sel != nil && (e.K == "subq" || e.K == "insub" || e.K == "exists") {
					sel(e.Sel)
				}
			})
		}
		for _, i := range s.Items {
			seen(i.E)
		}
		seen(s.Where)
		seen(s.Having)
	}
	sel(s)
	return out
}
