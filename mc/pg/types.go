// Package pg is a PostgreSQL 12 model server: a strict DDL parser and catalog semantics with the server's own rendering of
// types, expressions, indexes, constraints and views.
package pg

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	. "mc/sqlx"
)

// Err is a server error.
type Err struct {
	State string
	Msg   string
}

func (e *Err) Error() string { return "ERROR: " + e.Msg }

func fail(state, format string, a ...interface{}) {
	panic(Bail{&Err{state, fmt.Sprintf(format, a...)}})
}

// unsupported marks what the model does not know; a check that meets it must not judge.
var unsupportedPrefix = "model: "

func unsupported(format string, a ...interface{}) {
	fail("0A000", unsupportedPrefix+format, a...)
}

// T is a type: internal name, modifier and whether it is an array of that.
type T struct {
	N   string
	Mod string
	A   bool
}

var (
	tUnknown = T{N: "unknown"}
	tText    = T{N: "text"}
	tBool    = T{N: "bool"}
	tInt4    = T{N: "int4"}
	tInt8    = T{N: "int8"}
	tNumeric = T{N: "numeric"}
	tFloat8  = T{N: "float8"}
	tName    = T{N: "name"}
)

var typeAlias = map[string]string{
	"smallint": "int2", "int2": "int2", "integer": "int4", "int": "int4", "int4": "int4", "bigint": "int8", "int8": "int8",
	"real": "float4", "float4": "float4", "float": "float8", "double precision": "float8", "float8": "float8",
	"numeric": "numeric", "decimal": "numeric", "dec": "numeric", "text": "text", "varchar": "varchar", "character varying": "varchar", "char varying": "varchar",
	"character": "bpchar", "char": "bpchar", "bpchar": "bpchar", "\"bpchar\"": "bpchar", "\"bit\"": "bit", "boolean": "bool", "bool": "bool", "date": "date",
	"timestamp": "timestamp", "timestamp without time zone": "timestamp", "timestamptz": "timestamptz", "timestamp with time zone": "timestamptz",
	"time": "time", "time without time zone": "time", "timetz": "timetz", "time with time zone": "timetz", "interval": "interval",
	"uuid": "uuid", "json": "json", "jsonb": "jsonb", "bytea": "bytea", "bit": "bit", "bit varying": "varbit", "varbit": "varbit",
	"inet": "inet", "cidr": "cidr", "macaddr": "macaddr", "xml": "xml", "money": "money", "point": "point", "box": "box", "line": "line", "lseg": "lseg",
	"path": "path", "polygon": "polygon", "circle": "circle", "tsvector": "tsvector", "tsquery": "tsquery", "name": "name", "regclass": "regclass", "oid": "oid",
}

var typeShow = map[string]string{
	"int2": "smallint", "int4": "integer", "int8": "bigint", "float4": "real", "float8": "double precision", "numeric": "numeric",
	"varchar": "character varying", "bpchar": "character", "bool": "boolean", "timestamp": "timestamp without time zone",
	"timestamptz": "timestamp with time zone", "time": "time without time zone", "timetz": "time with time zone", "varbit": "bit varying",
}

// Show is format_type with a typmod.
func (t T) Show() string {
	s := ""
	switch t.N {
	case "timestamp", "time", "timestamptz", "timetz":
		m := ""
		if t.Mod != "" {
			m = "(" + t.Mod + ")"
		}
		z := " without time zone"
		if strings.HasSuffix(t.N, "tz") {
			z = " with time zone"
		}
		s = strings.TrimSuffix(t.N, "tz") + m + z
	case "bpchar":
		s = "bpchar"
		if t.Mod != "" {
			s = "character(" + t.Mod + ")"
		}
	case "bit":
		s = "\"bit\""
		if t.Mod != "" {
			s = "bit(" + t.Mod + ")"
		}
	default:
		s = typeShow[t.N]
		if s == "" {
			s = t.N
			if strings.HasPrefix(s, "e:") {
				p := strings.SplitN(s[2:], ".", 2)
				s = qi(p[1])
				if p[0] != "public" {
					s = qi(p[0]) + "." + s
				}
			}
		}
		if t.Mod != "" {
			s += "(" + t.Mod + ")"
		}
	}
	if t.A {
		s += "[]"
	}
	return s
}

// Data is data_type of information_schema.columns.
func (t T) Data() string {
	if t.A {
		return "ARRAY"
	}
	if strings.HasPrefix(t.N, "e:") || t.N == "citext" {
		return "USER-DEFINED"
	}
	if s := typeShow[t.N]; s != "" {
		return s
	}
	return t.N
}

func (t T) base() T { return T{N: t.N, A: t.A} }

var serials = map[string]string{"serial": "int4", "serial4": "int4", "bigserial": "int8", "serial8": "int8", "smallserial": "int2", "serial2": "int2"}

var modRe = regexp.MustCompile(`\(([0-9,]+)\)`)

// typ resolves a type name as the parser read it.
func (d *DB) typ(s string) T {
	var t T
	for strings.HasSuffix(s, "[]") {
		t.A = true
		s = s[:len(s)-2]
	}
	mod := ""
	if m := modRe.FindStringSubmatch(s); m != nil {
		mod = m[1]
		s = strings.Replace(s, m[0], "", 1)
	}
	orig := s
	s = strings.TrimPrefix(s, "pg_catalog.")
	if n, ok := typeAlias[s]; ok {
		t.N = n
	} else if s == "citext" || s == "public.citext" {
		if !d.Exts["citext"] {
			fail("42704", "type %q does not exist", s)
		}
		t.N = "citext"
	} else {
		sch, nm := "public", s
		if i := strings.Index(s, "."); i >= 0 {
			sch, nm = s[:i], s[i+1:]
		}
		nm = strings.Trim(nm, "\"")
		if d.Enums["e:"+sch+"."+nm] == nil {
			fail("42704", "type %q does not exist", s)
		}
		t.N = "e:" + sch + "." + nm
	}
	bad := func() { fail("42601", "type modifier is not allowed for type %q", s) }
	num := func(i int) int {
		n, err := strconv.Atoi(strings.Split(mod, ",")[i])
		if err != nil {
			fail("22023", "invalid type modifier")
		}
		return n
	}
	parts := 0
	if mod != "" {
		parts = len(strings.Split(mod, ","))
	}
	switch t.N {
	case "varchar", "bpchar":
		if parts > 1 {
			fail("22023", "invalid type modifier")
		}
		if parts == 1 {
			if n := num(0); n < 1 || n > 10485760 {
				fail("22023", "length for type %s must be at least 1", s)
			}
		} else if t.N == "bpchar" && orig != "bpchar" && orig != "\"bpchar\"" {
			mod = "1"
		}
	case "bit", "varbit":
		if parts > 1 || parts == 1 && num(0) < 1 {
			fail("22023", "length for type %s must be at least 1", s)
		}
		if parts == 0 && t.N == "bit" && orig != "\"bit\"" {
			mod = "1"
		}
	case "numeric":
		if parts > 2 {
			fail("22023", "invalid NUMERIC type modifier")
		}
		if parts > 0 {
			p := num(0)
			if p < 1 || p > 1000 {
				fail("22023", "NUMERIC precision %d must be between 1 and 1000", p)
			}
			sc := 0
			if parts == 2 {
				if sc = num(1); sc > p {
					fail("22023", "NUMERIC scale %d must be between 0 and precision %d", sc, p)
				}
			}
			mod = fmt.Sprintf("%d,%d", p, sc)
		}
	case "timestamp", "timestamptz", "time", "timetz", "interval":
		if parts > 1 {
			bad()
		}
		if parts == 1 && num(0) > 6 {
			mod = "6"
		}
	case "float8":
		if parts == 1 && orig == "float" {
			if n := num(0); n < 1 || n > 53 {
				fail("22023", "precision for type float must be less than 54 bits")
			} else if n <= 24 {
				t.N = "float4"
			}
			mod = ""
		} else if parts > 0 {
			bad()
		}
	default:
		if parts > 0 {
			bad()
		}
	}
	t.Mod = mod
	return t
}

func in(s string, l ...string) bool {
	for _, x := range l {
		if s == x {
			return true
		}
	}
	return false
}

func isStr(t T) bool { return !t.A && in(t.N, "text", "varchar", "bpchar", "name", "citext") }
func isNum(t T) bool { return !t.A && in(t.N, "int2", "int4", "int8", "numeric", "float4", "float8") }
func isInt(t T) bool { return !t.A && in(t.N, "int2", "int4", "int8") }

var implicitCast = map[string][]string{
	"int2": {"int4", "int8", "numeric", "float4", "float8"}, "int4": {"int8", "numeric", "float4", "float8", "oid"}, "int8": {"numeric", "float4", "float8", "oid"},
	"numeric": {"float4", "float8"}, "float4": {"float8"}, "date": {"timestamp", "timestamptz"}, "timestamp": {"timestamptz"},
	"time": {"timetz", "interval"}, "varchar": {"text", "bpchar", "name"}, "bpchar": {"text", "varchar", "name"}, "text": {"varchar", "bpchar", "name"},
	"name": {"text"}, "cidr": {"inet"}, "citext": {"text", "varchar"}, "bit": {"varbit"}, "varbit": {"bit"}, "oid": {"regclass", "int8"},
}
var assignCast = map[string][]string{
	"int8": {"int4", "int2"}, "int4": {"int2", "money"}, "numeric": {"int2", "int4", "int8", "money"}, "float4": {"int2", "int4", "int8", "numeric"},
	"float8": {"int2", "int4", "int8", "numeric", "float4"}, "timestamptz": {"timestamp", "date", "time", "timetz"}, "timestamp": {"date", "time"},
	"timetz": {"time"}, "json": {"jsonb"}, "jsonb": {"json"}, "name": {"varchar", "bpchar"}, "citext": {"bpchar"}, "text": {"citext"}, "varchar": {"citext"},
	"bpchar": {"citext"}, "interval": {"time"}, "inet": {"cidr"}, "int2": {}, "money": {"numeric"},
}
var explicitCast = map[string][]string{
	"int4": {"bool", "bit"}, "bool": {"int4"}, "int8": {"bit"}, "bit": {"int4", "int8"}, "text": {"regclass", "xml"}, "varchar": {"regclass", "xml"}, "jsonb": {"bool", "numeric", "int4"},
}

// castKind tells how from is turned into to in a context (0 implicit, 1 assignment, 2 explicit): "", "none" (binary), "func" or "io".
func castKind(from, to T, ctx int) string {
	if from.A != to.A {
		if ctx >= 1 && !to.A && isStr(to) || ctx == 2 && isStr(from) {
			return "io"
		}
		return ""
	}
	if from.A {
		f, t := from, to
		f.A, t.A = false, false
		return castKind(f, t, ctx)
	}
	if from.N == to.N {
		return "none"
	}
	bin := func() string {
		if (in(from.N, "text", "varchar") && in(to.N, "text", "varchar", "bpchar")) || from.N == "citext" && in(to.N, "text", "varchar", "bpchar") || in(from.N, "text", "varchar") && to.N == "citext" || in(from.N, "bit", "varbit") && in(to.N, "bit", "varbit") {
			return "none"
		}
		return "func"
	}
	if in(to.N, implicitCast[from.N]...) || ctx >= 1 && in(to.N, assignCast[from.N]...) || ctx >= 2 && in(to.N, explicitCast[from.N]...) {
		return bin()
	}
	if ctx >= 1 && in(to.N, "text", "varchar", "bpchar") {
		return "io"
	}
	if ctx >= 2 && isStr(from) {
		return "io"
	}
	return ""
}

var (
	intRe  = regexp.MustCompile(`^[ \t]*[+-]?[0-9]+[ \t]*$`)
	numRe  = regexp.MustCompile(`^[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?$`)
	dateRe = regexp.MustCompile(`^(\d{4})-(\d\d)-(\d\d)$`)
	tsRe   = regexp.MustCompile(`^(\d{4}-\d\d-\d\d)(?:[ T](\d\d:\d\d(?::\d\d(?:\.\d{1,6})?)?))?$`)
	timeRe = regexp.MustCompile(`^(\d\d):(\d\d)(:(\d\d)(\.\d{1,6})?)?$`)
	uuidRe = regexp.MustCompile(`^[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}$`)
)

// input is the type's input function: it returns the stored value's output.
func (d *DB) input(t T, s string) string {
	bad := func() {
		fail("22P02", "invalid input syntax for type %s: %q", t.base().Show(), s)
	}
	if t.A {
		e := t
		e.A = false
		if s == "{}" {
			return s
		}
		if !strings.HasPrefix(s, "{") || !strings.HasSuffix(s, "}") {
			fail("22P02", "malformed array literal: %q", s)
		}
		var out []string
		for _, x := range strings.Split(s[1:len(s)-1], ",") {
			if strings.ContainsAny(x, "\"{}\\") {
				unsupported("array literal %q", s)
			}
			out = append(out, d.input(e, strings.TrimSpace(x)))
		}
		return "{" + strings.Join(out, ",") + "}"
	}
	switch t.N {
	case "text", "varchar", "citext":
		return s
	case "bpchar":
		return s
	case "name":
		return s
	case "int2", "int4", "int8", "oid":
		if !intRe.MatchString(s) {
			bad()
		}
		n, err := strconv.ParseInt(strings.TrimPrefix(strings.TrimSpace(s), "+"), 10, 64)
		bits := map[string]uint{"int2": 15, "int4": 31, "int8": 63, "oid": 32}[t.N]
		if err != nil || bits < 63 && (n >= 1<<bits || n < -(1<<bits)) {
			fail("22003", "value %q is out of range for type %s", s, t.Show())
		}
		return strconv.FormatInt(n, 10)
	case "numeric":
		x := strings.TrimSpace(s)
		if x == "NaN" {
			return x
		}
		if !numRe.MatchString(x) {
			bad()
		}
		if strings.ContainsAny(x, "eE") {
			unsupported("numeric literal %q", s)
		}
		x = strings.TrimPrefix(x, "+")
		neg := strings.HasPrefix(x, "-")
		x = strings.TrimPrefix(x, "-")
		p := strings.SplitN(x, ".", 2)
		i := strings.TrimLeft(p[0], "0")
		if i == "" {
			i = "0"
		}
		o := i
		if len(p) == 2 && p[1] != "" {
			o += "." + p[1]
		}
		if neg && strings.Trim(o, "0.") != "" {
			o = "-" + o
		}
		return o
	case "float4", "float8":
		x := strings.TrimSpace(s)
		f, err := strconv.ParseFloat(x, 64)
		if err != nil || !numRe.MatchString(x) {
			bad()
		}
		return strconv.FormatFloat(f, 'g', -1, map[string]int{"float4": 32, "float8": 64}[t.N])
	case "bool":
		x := strings.ToLower(strings.TrimSpace(s))
		if x != "" && (strings.HasPrefix("true", x) || strings.HasPrefix("yes", x) || x == "on" || x == "1") {
			return "true"
		}
		if x != "" && (strings.HasPrefix("false", x) || strings.HasPrefix("no", x) || x == "of" || x == "off" || x == "0") {
			return "false"
		}
		bad()
	case "date":
		if !dateRe.MatchString(s) {
			unsupported("date literal %q", s)
		}
		return s
	case "timestamp":
		m := tsRe.FindStringSubmatch(s)
		if m == nil {
			unsupported("timestamp literal %q", s)
		}
		c := m[2]
		if c == "" {
			c = "00:00:00"
		}
		return m[1] + " " + d.input(T{N: "time"}, c)
	case "time":
		m := timeRe.FindStringSubmatch(s)
		if m == nil {
			unsupported("time literal %q", s)
		}
		sec, fr := m[4], strings.TrimRight(m[5], "0")
		if sec == "" {
			sec = "00"
		}
		if fr == "." {
			fr = ""
		}
		return m[1] + ":" + m[2] + ":" + sec + fr
	case "uuid":
		if !uuidRe.MatchString(s) {
			bad()
		}
		return strings.ToLower(s)
	case "json":
		return s
	case "jsonb":
		if in(s, "{}", "[]", "null", "true", "false") || regexp.MustCompile(`^\{"[a-z]+": ("[a-z]*"|[0-9]+)\}$`).MatchString(s) {
			return s
		}
		unsupported("jsonb literal %q", s)
	case "interval":
		if m := regexp.MustCompile(`^(\d+) days?$`).FindStringSubmatch(s); m != nil {
			if m[1] == "1" {
				return "1 day"
			}
			return m[1] + " days"
		}
		if m := regexp.MustCompile(`^(\d\d?) hours?$`).FindStringSubmatch(s); m != nil && len(m[1]) == 1 {
			return "0" + m[1] + ":00:00"
		}
		unsupported("interval literal %q", s)
	case "bit", "varbit":
		if strings.Trim(s, "01") != "" {
			bad()
		}
		return s
	case "inet", "cidr", "macaddr", "regclass":
		return s
	case "bytea":
		if strings.Contains(s, "\\") {
			unsupported("bytea literal %q", s)
		}
		return "\\x" + fmt.Sprintf("%x", s)
	}
	if vs := d.Enums[t.N]; vs != nil {
		if !in(s, vs...) {
			fail("22P02", "invalid input value for enum %s: %q", t.Show(), s)
		}
		return s
	}
	unsupported("literal of type %s", t.Show())
	return ""
}
