package ms

import (
	"fmt"
	"strings"

	. "mc/sqlx"
)

var typeAlias = map[string]string{
	"integer": "int", "dec": "decimal", "character": "char", "character varying": "varchar", "char varying": "varchar",
	"national character": "nchar", "national char": "nchar", "national varchar": "nvarchar", "nchar varying": "nvarchar",
	"national character varying": "nvarchar", "national char varying": "nvarchar", "rowversion": "timestamp",
	"double precision": "float", "binary varying": "varbinary", "sysname": "nvarchar",
}

var fixedLen = map[string]int{
	"int": 4, "bigint": 8, "smallint": 2, "tinyint": 1, "bit": 1, "real": 4, "money": 8, "smallmoney": 4, "date": 3,
	"datetime": 8, "smalldatetime": 4, "uniqueidentifier": 16, "timestamp": 8, "text": 16, "ntext": 16, "image": 16, "xml": -1,
	"sql_variant": 8016, "hierarchyid": 892, "geometry": -1, "geography": -1,
}

// setType understands a type name as sqlx.TypeName gives it.
func setType(c *Column, ty string) {
	base, args := ty, []string{}
	if i := strings.Index(ty, "("); i >= 0 {
		j := strings.Index(ty, ")")
		base = strings.TrimSpace(ty[:i] + ty[j+1:])
		args = strings.Split(ty[i+1:j], ",")
	}
	base = strings.TrimPrefix(base, "sys.")
	if base == "sysname" {
		args = []string{"128"}
		c.NotNull = true
	}
	if a, ok := typeAlias[base]; ok {
		base = a
	}
	n := func(i, def int) int {
		if i >= len(args) {
			return def
		}
		if args[i] == "max" {
			return -1
		}
		v := 0
		fmt.Sscan(args[i], &v)
		return v
	}
	most := func(k int) {
		if len(args) > k {
			fail(102, "Incorrect syntax near '%s'.", ty)
		}
	}
	c.Type = base
	switch base {
	case "char", "varchar", "binary", "varbinary", "nchar", "nvarchar":
		most(1)
		l := n(0, 1)
		max := 8000
		wide := base == "nchar" || base == "nvarchar"
		if wide {
			max = 4000
		}
		if l == -1 {
			if !strings.HasPrefix(base, "var") && base != "nvarchar" {
				fail(102, "Incorrect syntax near 'max'.")
			}
			c.Len = -1
			return
		}
		if l < 1 || l > max {
			fail(131, "The size (%d) given to the column '%s' exceeds the maximum allowed for any data type (8000).", l, c.Name)
		}
		c.Len = l
		if wide {
			c.Len = 2 * l
		}
	case "decimal", "numeric":
		most(2)
		c.Prec, c.Scale = n(0, 18), n(1, 0)
		if c.Prec < 1 || c.Prec > 38 || c.Scale > c.Prec {
			fail(2751, "Column or parameter #1: Specified column precision %d is greater than the maximum precision of 38.", c.Prec)
		}
		switch {
		case c.Prec < 10:
			c.Len = 5
		case c.Prec < 20:
			c.Len = 9
		case c.Prec < 29:
			c.Len = 13
		default:
			c.Len = 17
		}
	case "float":
		most(1)
		c.Prec, c.Len = 53, 8
		if k := n(0, 53); k < 1 || k > 53 {
			fail(2750, "Column or parameter #1: Specified column precision %d is greater than the maximum precision of 53.", k)
		} else if k < 25 {
			c.Type, c.Prec, c.Len = "real", 24, 4
		}
	case "datetime2", "time", "datetimeoffset":
		most(1)
		c.Scale = n(0, 7)
		if c.Scale < 0 || c.Scale > 7 {
			fail(1002, "Line 1: Specified scale %d is invalid.", c.Scale)
		}
		c.Len = map[string]int{"datetime2": 8, "time": 5, "datetimeoffset": 10}[base]
		if c.Scale < 5 {
			c.Len--
		}
		if c.Scale < 3 {
			c.Len--
		}
	default:
		l, ok := fixedLen[base]
		if !ok {
			fail(2715, "Column, parameter, or variable #1: Cannot find data type %s.", base)
		}
		most(0)
		c.Len = l
	}
}

func lit(e *Expr) string {
	p := ""
	if strings.EqualFold(e.Pre, "N") {
		p = "N"
	}
	return p + "'" + strings.Replace(e.S, "'", "''", -1) + "'"
}

func prec(e *Expr) int {
	switch e.K {
	case "bin":
		switch e.S {
		case "OR":
			return 1
		case "AND":
			return 2
		case "+", "-", "&", "|", "^":
			return 5
		case "*", "/", "%":
			return 6
		}
		return 4
	case "un":
		if e.S == "NOT" {
			return 3
		}
		if e.S == "-" && e.A[0].K == "num" {
			return 9
		}
		return 7
	case "in":
		if len(e.A) == 2 {
			return 4
		}
		if e.S == "" {
			return 1
		}
		return 2
	case "between":
		if e.S == "" {
			return 2
		}
		return 1
	case "like":
		if strings.HasPrefix(e.S, "NOT") {
			return 3
		}
		return 4
	case "is":
		return 4
	}
	return 9
}

// deparse prints an expression as SQL Server keeps it.
func deparse(e *Expr) string {
	par := func(x *Expr, min int) string {
		s := deparse(x)
		if prec(x) < min {
			return "(" + s + ")"
		}
		return s
	}
	list := func(l []*Expr) string {
		var o []string
		for _, x := range l {
			o = append(o, deparse(x))
		}
		return strings.Join(o, ",")
	}
	switch e.K {
	case "str":
		return lit(e)
	case "num":
		return "(" + e.S + ")"
	case "hex":
		return "0x" + e.S
	case "null":
		return "NULL"
	case "col":
		s := ""
		for _, q := range e.Qual {
			s += br(q) + "."
		}
		return s + br(e.S)
	case "bin":
		switch e.S {
		case "OR", "AND":
			// a chain of the same operator needs no parentheses on its left side
			m := prec(e)
			return par(e.A[0], m) + " " + e.S + " " + par(e.A[1], m)
		case "+", "-", "&", "|", "^", "*", "/", "%":
			m := prec(e)
			return par(e.A[0], m) + e.S + par(e.A[1], m+1)
		}
		return par(e.A[0], 5) + e.S + par(e.A[1], 5)
	case "un":
		if e.S == "NOT" {
			return "NOT " + par(e.A[0], 4)
		}
		if e.S == "-" && e.A[0].K == "num" {
			return "(-" + e.A[0].S + ")"
		}
		if e.S == "+" {
			return deparse(e.A[0])
		}
		return e.S + par(e.A[0], 8)
	case "in":
		var o []string
		for i := len(e.A) - 1; i > 0; i-- {
			op := "="
			if e.S != "" {
				op = "<>"
			}
			o = append(o, par(e.A[0], 5)+op+par(e.A[i], 5))
		}
		if e.S != "" {
			return strings.Join(o, " AND ")
		}
		return strings.Join(o, " OR ")
	case "between":
		a, b, c := par(e.A[0], 5), par(e.A[1], 5), par(e.A[2], 5)
		if e.S != "" {
			return a + "<" + b + " OR " + a + ">" + c
		}
		return a + ">=" + b + " AND " + a + "<=" + c
	case "like":
		s := par(e.A[0], 5) + " like " + par(e.A[1], 5)
		if len(e.A) > 2 {
			s += " escape " + deparse(e.A[2])
		}
		if strings.HasPrefix(e.S, "NOT") {
			return "NOT " + s
		}
		return s
	case "is":
		return par(e.A[0], 5) + " IS " + e.S
	case "func":
		return strings.ToLower(e.S) + "(" + list(e.A) + ")"
	case "kwfunc":
		switch e.S {
		case "CURRENT_TIMESTAMP":
			return "getdate()"
		case "CURRENT_USER":
			return "user_name()"
		}
		return strings.ToLower(e.S) + "()"
	case "cast", "convert":
		s := "CONVERT([" + e.Type + "]," + list(e.A) + ")"
		if i := strings.Index(e.Type, "("); i >= 0 {
			s = "CONVERT([" + e.Type[:i] + "]" + e.Type[i:] + "," + list(e.A) + ")"
		}
		return s
	case "case":
		l := e.A
		s := "case"
		if e.Val {
			s += " " + deparse(l[0])
			l = l[1:]
		}
		for len(l) > 1 {
			s += " when " + deparse(l[0]) + " then " + deparse(l[1])
			l = l[2:]
		}
		if len(l) > 0 {
			s += " else " + deparse(l[0])
		}
		return s + " end"
	case "collate":
		return deparse(e.A[0]) + " collate " + e.S
	}
	fail(50000, "model: expression %s is not modelled", e.K)
	return ""
}
