// Package sqlx is the lexer, expression parser and SELECT parser shared by the model servers.
// It is written from the servers' documentation and shares nothing with sqldef's own parser.
package sqlx

import (
	"fmt"
	"strings"
)

type Dialect int

const (
	MySQL Dialect = iota
	PG
	MSSQL
	SQLite
)

type Kind int

const (
	EOF    Kind = iota
	Word        // unquoted identifier or keyword
	Quoted      // quoted identifier
	Str         // string literal
	Num         // number
	Hex         // 0x.. or X'..'
	Bit         // b'..'
	Op          // operator or punctuation
	Param       // $1, ?, @p1
)

type Tok struct {
	K    Kind
	S    string // text (word as written, string value decoded, operator)
	U    string // upper case for words
	Pos  int    // offset of first byte
	End  int    // offset after last byte
	Pre  string // N or E prefix, or national
	Line int
}

type SyntaxError struct{ Msg string }

func (e *SyntaxError) Error() string { return e.Msg }

func isIdStart(c byte) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
}
func isDigit(c byte) bool { return c >= '0' && c <= '9' }
func isIdPart(c byte, d Dialect) bool {
	return isIdStart(c) || isDigit(c) || c == '$' || d == MSSQL && (c == '#' || c == '@')
}

// Lex splits src into tokens.
func Lex(src string, d Dialect) (toks []Tok, err error) {
	i := 0
	n := len(src)
	add := func(k Kind, s string, from, to int) {
		t := Tok{K: k, S: s, Pos: from, End: to}
		if k == Word {
			t.U = strings.ToUpper(s)
		}
		toks = append(toks, t)
	}
	versioned := false
	bad := func(m string) error { return &SyntaxError{m} }
	for i < n {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' || c == '\v':
			i++
		case c == '-' && i+1 < n && src[i+1] == '-' && (d != MySQL || i+2 >= n || src[i+2] <= ' '):
			for i < n && src[i] != '\n' {
				i++
			}
		case c == '#' && d == MySQL:
			for i < n && src[i] != '\n' {
				i++
			}
		case d == MySQL && strings.HasPrefix(src[i:], "/*!"):
			// version comment: its contents are executed
			i += 3
			for i < n && isDigit(src[i]) {
				i++
			}
			versioned = true
		case versioned && strings.HasPrefix(src[i:], "*/"):
			versioned = false
			i += 2
		case c == '/' && i+1 < n && src[i+1] == '*':
			depth := 1
			j := i + 2
			for j < n && depth > 0 {
				if j+1 < n && src[j] == '*' && src[j+1] == '/' {
					depth--
					j += 2
				} else if (d == PG || d == MSSQL) && j+1 < n && src[j] == '/' && src[j+1] == '*' {
					depth++
					j += 2
				} else {
					j++
				}
			}
			if depth > 0 {
				return nil, bad("unterminated comment")
			}
			i = j
		case c == '`' && (d == MySQL || d == SQLite), c == '"' && d != MySQL, c == '[' && (d == MSSQL || d == SQLite):
			q := c
			if c == '[' {
				q = ']'
			}
			var b strings.Builder
			j := i + 1
			for {
				if j >= n {
					return nil, bad("unterminated quoted identifier")
				}
				if src[j] == q {
					if j+1 < n && src[j+1] == q && !(d == SQLite && q == ']') {
						b.WriteByte(q)
						j += 2
						continue
					}
					break
				}
				b.WriteByte(src[j])
				j++
			}
			if b.Len() == 0 {
				return nil, bad("zero-length delimited identifier")
			}
			add(Quoted, b.String(), i, j+1)
			i = j + 1
		case c == '\'' || c == '"' && d == MySQL:
			s, j, e := lexStr(src, i, c, d == MySQL)
			if e != nil {
				return nil, e
			}
			add(Str, s, i, j)
			i = j
		case (c == 'N' || c == 'n') && i+1 < n && src[i+1] == '\'' && d != SQLite:
			s, j, e := lexStr(src, i+1, '\'', d == MySQL)
			if e != nil {
				return nil, e
			}
			add(Str, s, i, j)
			toks[len(toks)-1].Pre = "N"
			i = j
		case (c == 'E' || c == 'e') && i+1 < n && src[i+1] == '\'' && d == PG:
			s, j, e := lexStr(src, i+1, '\'', true)
			if e != nil {
				return nil, e
			}
			add(Str, s, i, j)
			toks[len(toks)-1].Pre = "E"
			i = j
		case (c == 'x' || c == 'X' || c == 'b' || c == 'B') && i+1 < n && src[i+1] == '\'' && d != MSSQL:
			s, j, e := lexStr(src, i+1, '\'', false)
			if e != nil {
				return nil, e
			}
			k := Hex
			if c == 'b' || c == 'B' {
				k = Bit
				if strings.Trim(s, "01") != "" {
					return nil, bad("bad bit literal")
				}
			} else if strings.Trim(s, "0123456789abcdefABCDEF") != "" {
				return nil, bad("bad hex literal")
			}
			add(k, s, i, j)
			i = j
		case c == '$' && d == PG:
			// parameter or dollar quote
			j := i + 1
			if j < n && isDigit(src[j]) {
				for j < n && isDigit(src[j]) {
					j++
				}
				add(Param, src[i:j], i, j)
				i = j
				break
			}
			for j < n && src[j] != '$' && (isIdStart(src[j]) || isDigit(src[j])) {
				j++
			}
			if j >= n || src[j] != '$' {
				return nil, bad("syntax error at or near \"$\"")
			}
			tag := src[i : j+1]
			e := strings.Index(src[j+1:], tag)
			if e < 0 {
				return nil, bad("unterminated dollar-quoted string")
			}
			add(Str, src[j+1:j+1+e], i, j+1+e+len(tag))
			i = j + 1 + e + len(tag)
		case c == '@' && (d == MSSQL || d == MySQL):
			j := i + 1
			for j < n && (isIdPart(src[j], d) || src[j] == '@') {
				j++
			}
			add(Param, src[i:j], i, j)
			i = j
		case isDigit(c) || c == '.' && i+1 < n && isDigit(src[i+1]):
			j := i
			if c == '0' && j+1 < n && (src[j+1] == 'x' || src[j+1] == 'X') && d != PG {
				j += 2
				for j < n && strings.IndexByte("0123456789abcdefABCDEF", src[j]) >= 0 {
					j++
				}
				add(Hex, src[i+2:j], i, j)
				i = j
				break
			}
			if c == '0' && j+1 < n && src[j+1] == 'b' && d == MySQL {
				j += 2
				for j < n && (src[j] == '0' || src[j] == '1') {
					j++
				}
				add(Bit, src[i+2:j], i, j)
				i = j
				break
			}
			for j < n && isDigit(src[j]) {
				j++
			}
			if j < n && src[j] == '.' {
				j++
				for j < n && isDigit(src[j]) {
					j++
				}
			}
			if j < n && (src[j] == 'e' || src[j] == 'E') {
				k := j + 1
				if k < n && (src[k] == '+' || src[k] == '-') {
					k++
				}
				if k < n && isDigit(src[k]) {
					for k < n && isDigit(src[k]) {
						k++
					}
					j = k
				}
			}
			if j < n && isIdStart(src[j]) && d != PG && d != MSSQL {
				// identifiers may start with a digit in MySQL; we do not use them
				return nil, bad("bad number")
			}
			add(Num, src[i:j], i, j)
			i = j
		case isIdStart(c) || c == '#' && d == MSSQL:
			j := i + 1
			for j < n && isIdPart(src[j], d) {
				j++
			}
			add(Word, src[i:j], i, j)
			i = j
		default:
			ops := []string{"->>", "<=>", "<>", "<=", ">=", "!=", "||", "&&", "<<", ">>", "::", ":=", "->", "!~*", "!~", "~*", "@>", "<@"}
			found := ""
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					found = o
					break
				}
			}
			if found == "" {
				if strings.IndexByte("()[],;.=<>+-*/%^&|~!:?@", c) < 0 {
					return nil, bad(fmt.Sprintf("unexpected character %q", c))
				}
				found = string(c)
			}
			add(Op, found, i, i+len(found))
			i += len(found)
		}
	}
	toks = append(toks, Tok{K: EOF, Pos: n, End: n})
	return toks, nil
}

func lexStr(src string, i int, q byte, esc bool) (string, int, error) {
	var b strings.Builder
	j := i + 1
	for {
		if j >= len(src) {
			return "", 0, &SyntaxError{"unterminated quoted string"}
		}
		c := src[j]
		if c == q {
			if j+1 < len(src) && src[j+1] == q {
				b.WriteByte(q)
				j += 2
				continue
			}
			return b.String(), j + 1, nil
		}
		if c == '\\' && esc {
			if j+1 >= len(src) {
				return "", 0, &SyntaxError{"unterminated quoted string"}
			}
			j++
			switch src[j] {
			case 'n':
				b.WriteByte('\n')
			case 't':
				b.WriteByte('\t')
			case 'r':
				b.WriteByte('\r')
			case '0':
				b.WriteByte(0)
			case 'b':
				b.WriteByte('\b')
			case 'Z':
				b.WriteByte(26)
			case '%', '_':
				b.WriteByte('\\')
				b.WriteByte(src[j])
			default:
				b.WriteByte(src[j])
			}
			j++
			continue
		}
		b.WriteByte(c)
		j++
	}
}

// SplitStatements cuts src at top level semicolons (outside quotes and comments); it is the reference for what a client
// sends. Empty pieces are dropped.
func SplitStatements(src string, d Dialect) ([]string, error) {
	toks, err := Lex(src, d)
	if err != nil {
		return nil, err
	}
	var out []string
	start := -1
	depth := 0
	last := 0
	for _, t := range toks {
		if t.K == Word && d != PG {
			switch t.U {
			case "BEGIN", "CASE":
				depth++
			case "END":
				if depth > 0 {
					depth--
				}
			}
		}
		if t.K == EOF || t.K == Op && t.S == ";" && depth == 0 {
			if start >= 0 {
				out = append(out, src[start:last])
			}
			start = -1
			continue
		}
		if start < 0 {
			start = t.Pos
		}
		last = t.End
	}
	return out, nil
}
