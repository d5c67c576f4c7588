package prs

import (
	"errors"
	"fmt"
	"io"
	"regexp"
	"strconv"
	"strings"

	sp "github.com/k0kubun/sqldef/sqlparser"

	"mc/chk"
	"mc/eng"
)

// cuts are the places of the semicolons of a text that are outside quotes and comments. It knows nothing of the parser: a text is
// a sequence of quoted strings and names, comments and other bytes.
func cuts(s string, mode sp.ParserMode) (out []int) {
	for i := 0; i < len(s); i++ {
		has := func(p string) bool { return strings.HasPrefix(s[i:], p) }
		close := byte(0)
		esc := false
		switch {
		case s[i] == ';':
			out = append(out, i)
		case s[i] == '\'' || s[i] == '"' && mode == sp.ParserModeMysql:
			close, esc = s[i], mode == sp.ParserModeMysql
		case s[i] == '"' || s[i] == '`' && mode != sp.ParserModePostgres:
			close = s[i]
		case s[i] == '[' && mode == sp.ParserModeMssql:
			close = ']'
		case has("--") || has("//") || has("#"):
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case has("/*"):
			e := strings.Index(s[i+2:], "*/")
			if e < 0 {
				return
			}
			i += e + 3
		}
		if close == 0 {
			continue
		}
		for i++; ; i++ {
			if i >= len(s) {
				return
			}
			if esc && s[i] == '\\' {
				i++
			} else if s[i] == close {
				if i+1 < len(s) && s[i+1] == close {
					i++
					continue
				}
				break
			}
		}
	}
	return
}

var positionText = regexp.MustCompile(`at position (\d+)`)

// parsed is what a parse gave, with positions counted from the start of the whole text.
func parsed(st sp.Statement, err error, offset int) string {
	if err != nil {
		return "error: " + positionText.ReplaceAllStringFunc(err.Error(), func(m string) string {
			n, _ := strconv.Atoi(m[len("at position "):])
			return fmt.Sprint("at position ", n+offset)
		})
	}
	return Dump(st, false)
}

// pieceOutcomes are what parsing each piece of a text on its own gives.
func pieceOutcomes(s string, mode sp.ParserMode) (out []string) {
	from := 0
	at := append(cuts(s, mode), len(s))
	for i, c := range at {
		piece := s[from:c]
		if i > 0 && i == len(at)-1 && strings.Trim(piece, " \n\r\t") == "" {
			break
		}
		st, err := sp.ParseNext(sp.NewStringTokenizer(piece, mode))
		if err == io.EOF {
			err = errors.New("EOF for a piece")
		}
		out = append(out, parsed(st, err, from))
		if mode == sp.ParserModeMysql {
			st, err := sp.Parse(piece)
			if o := parsed(st, err, from); o != out[len(out)-1] {
				out[len(out)-1] += "\nbut Parse gives " + o
			}
		}
		from = c + 1
	}
	return
}

// chunks is a reader that gives a text in the pieces it was told.
type chunks struct {
	parts  []string
	eof    bool  // report the end together with the last bytes
	err    error // instead of the end
	blanks bool  // a read without bytes before every one with bytes
	odd    bool
}

func (r *chunks) Read(p []byte) (int, error) {
	r.odd = !r.odd
	if r.blanks && r.odd {
		return 0, nil
	}
	for len(r.parts) > 0 && r.parts[0] == "" {
		r.parts = r.parts[1:]
	}
	end := r.err
	if end == nil {
		end = io.EOF
	}
	if len(r.parts) == 0 {
		return 0, end
	}
	n := copy(p, r.parts[0])
	r.parts[0] = r.parts[0][n:]
	if r.parts[0] == "" {
		r.parts = r.parts[1:]
	}
	if len(r.parts) == 0 && r.eof {
		return n, end
	}
	return n, nil
}

type streaming struct {
	c *chk.Ctx
}

func (x *streaming) fail(kind, in string, mode sp.ParserMode, detail string) {
	x.c.Fail(eng.Failure{Prop: "C20", Case: "in:" + ModeName(mode) + ":" + fmt.Sprintf("%q", in), Kind: kind, Detail: detail})
}

// drain reads statements until the end and compares them; it returns whether they are as expected.
func (x *streaming) drain(t *sp.Tokenizer, in string, mode sp.ParserMode, want []string, how string) bool {
	kind := "stream " + strings.Fields(how)[0]
	bad := ""
	if p := Safe(func() {
		for i := 0; ; i++ {
			st, err := sp.ParseNext(t)
			if err == io.EOF {
				if i < len(want) {
					bad = fmt.Sprintf("%s: ends after %d statements of %d; missing %s", how, i, len(want), want[i])
				}
				return
			}
			if i >= len(want) {
				bad = fmt.Sprintf("%s: gives more than the %d statements: %s", how, len(want), parsed(st, err, 0))
				return
			}
			if o := parsed(st, err, 0); o != want[i] {
				bad = fmt.Sprintf("%s: statement %d is\n%s\nand on its own\n%s", how, i, o, want[i])
				return
			}
		}
	}); p != "" {
		bad = how + ": panic " + p
		kind = "panic"
	}
	if bad != "" {
		x.fail(kind, in, mode, bad)
	}
	return bad == ""
}

// split checks the splitting functions.
func (x *streaming) split(in string) {
	mode := sp.ParserModeMysql
	at := append(cuts(in, mode), len(in))
	var want []string
	from := 0
	for i, c := range at {
		if i < len(at)-1 || c > from {
			want = append(want, in[from:c])
		}
		from = c + 1
	}
	incomplete := cuts(in+";", mode)
	open := len(incomplete) != len(at) // a quote or comment is not closed
	var got []string
	var err error
	if p := Safe(func() { got, err = sp.SplitStatementToPieces(in) }); p != "" {
		x.fail("panic", in, mode, "SplitStatementToPieces: "+p)
		return
	}
	if err == nil && fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) && !open {
		x.fail("pieces", in, mode, fmt.Sprintf("SplitStatementToPieces gives %q and not %q", got, want))
	}
	if open && err == nil && strings.Join(got, ";") != in && strings.Join(got, ";")+";" != in {
		x.fail("pieces", in, mode, fmt.Sprintf("SplitStatementToPieces gives %q", got))
	}
	if err != nil {
		x.fail("pieces", in, mode, "SplitStatementToPieces fails: "+err.Error())
	}
	var first, rest string
	if p := Safe(func() { first, rest, err = sp.SplitStatement(in) }); p != "" {
		x.fail("panic", in, mode, "SplitStatement: "+p)
		return
	}
	w1, w2 := in, ""
	if at[0] < len(in) {
		w1, w2 = in[:at[0]], in[at[0]+1:]
	}
	if err != nil || first != w1 || rest != w2 {
		x.fail("first", in, mode, fmt.Sprintf("SplitStatement gives %q, %q, %v and not %q, %q", first, rest, err, w1, w2))
	}
}

// text checks everything about one text. depth 0 is splitting and a string tokenizer, 1 adds readers of one byte and with the end
// in the last read, 2 adds every two-way split, a failing reader at every place and every alignment to the buffer's end, 3 adds
// long tokens across the buffer's end.
func (x *streaming) text(in string, mode sp.ParserMode, depth int) (steps int) {
	want := pieceOutcomes(in, mode)
	if !x.drain(sp.NewStringTokenizer(in, mode), in, mode, want, "string") {
		return 1
	}
	steps++
	if mode != sp.ParserModeMysql {
		return
	}
	x.split(in)
	steps += 2
	if depth < 1 {
		return
	}
	one := func(r io.Reader, want []string, how string) bool {
		steps++
		return x.drain(sp.NewTokenizer(r), in, mode, want, how)
	}
	if !one(&chunks{parts: []string{in}}, want, "whole") || !one(&chunks{parts: strings.Split(in, "")}, want, "bytes") ||
		!one(&chunks{parts: []string{in}, eof: true}, want, "whole with the end") ||
		!one(&chunks{parts: strings.Split(in, ""), eof: true, blanks: true}, want, "bytes with empty reads") {
		return
	}
	if depth < 2 {
		return
	}
	inside := func(i int) bool { // a run of one byte
		return i > 1 && i+1 < len(in) && in[i-2] == in[i-1] && in[i-1] == in[i] && in[i] == in[i+1]
	}
	for i := 1; i < len(in); i++ {
		if inside(i) {
			continue
		}
		if !one(&chunks{parts: []string{in[:i], in[i:]}}, want, fmt.Sprint("two chunks, the first of ", i)) {
			return
		}
	}
	for i := 0; i <= len(in); i++ {
		if inside(i) {
			continue
		}
		x.broken(in, i)
		steps++
	}
	pads := [][2]string{{"/*", "*/"}}
	if depth > 2 {
		// in a string that began long before, in a name, and in a comment
		pads = [][2]string{{"/*", "*/"}, {"select '", ""}, {"select `", ""}, {"/* '", ""}}
	}
	for i := 1; i < len(in); i++ {
		if inside(i) {
			continue
		}
		for _, p := range pads {
			pad := p[0] + strings.Repeat("x", 4096-i-len(p[0])-len(p[1])) + p[1]
			if !one(strings.NewReader(pad+in), pieceOutcomes(pad+in, mode), fmt.Sprintf("buffer ending after %d bytes, padded with %s", i, p[0])) {
				return
			}
		}
	}
	return
}

var errReader = errors.New("the reader failed")

// broken lets the reader fail after n bytes: the statements that were complete are given, the one that was cut is not, and the error
// is reported.
func (x *streaming) broken(in string, n int) {
	mode := sp.ParserModeMysql
	complete := len(cuts(in[:n], mode))
	want := pieceOutcomes(in, mode)
	for _, eof := range []bool{false, true} {
		t := sp.NewTokenizer(&chunks{parts: []string{in[:n]}, err: errReader, eof: eof})
		how := fmt.Sprintf("broken after %d bytes", n)
		if eof {
			how += ", with the last read"
		}
		bad := ""
		if p := Safe(func() {
			for i := 0; i <= len(want)+1; i++ {
				st, err := sp.ParseNext(t)
				if i < complete {
					if o := parsed(st, err, 0); o != want[i] {
						if err == errReader {
							continue // also right: the error is known already
						}
						bad = fmt.Sprintf("%s: statement %d is\n%s\nand on its own\n%s", how, i, o, want[i])
						return
					}
					continue
				}
				if err == errReader {
					return
				}
				if err == nil {
					bad = fmt.Sprintf("%s: the cut statement is given as\n%s", how, parsed(st, nil, 0))
					return
				}
				if err == io.EOF {
					bad = how + ": the end is reported and not the error"
					return
				}
			}
			bad = how + ": the error is not reported"
		}); p != "" {
			bad = how + ": panic " + p
		}
		if bad != "" {
			x.fail("broken", in, mode, bad)
			return
		}
	}
}

// fragments are the letters of the texts.
func fragments() []string {
	return []string{
		";", " ", "\n", "select 1", "select a from t where b = ", "'it''s;'", `'\';'`, `";"`, "`;`", "`a``;`", "/* ; */", "-- ;\n", "# ;\n", "// ;\n",
		"/*! select 1 */", "/*! ; */", "/*!40101 ;", "';", "\";", "`;", "/* ;", "-- ;", `'\\'`, `'\`, "''", "*/", "\\", "\xff", "1a",
		"create table a garbage ", "show x ", "explain ", "set character set ", "create table t (a int)", "insert into t values (", ")", "\x00", "?", "drop view v ", "alter table t foo ", "select " + strings.Repeat("(", 150), "select " + strings.Repeat("(", 150) + "1" + strings.Repeat(")", 150),
	}
}

var ordinary = map[string]bool{";": true, " ": true, "select 1": true, "'it''s;'": true, `'\';'`: true, `";"`: true, "`;`": true, "/* ; */": true, "-- ;\n": true,
	"/*! ; */": true, "/*! select 1 */": true, "create table a garbage ": true, "show x ": true, "';": true, "/* ;": true, "set character set ": true}

type sweep struct {
	small  bool // the ordinary fragments only
	length int
	others bool // the other modes
	depth  int
}

func (s sweep) job(k int) string {
	return fmt.Sprintf("seq:%v:%d:%v:%d:%d", s.small, s.length, s.others, s.depth, k)
}

func (s sweep) alphabet() (out []string) {
	for _, f := range fragments() {
		if !s.small || ordinary[f] {
			out = append(out, f)
		}
	}
	return
}

// sweep runs every sequence that starts with the k-th pair of fragments.
func (x *streaming) sweep(s sweep, k int) (steps, texts int64) {
	alphabet := s.alphabet()
	modes := Modes[:1]
	if s.others {
		modes = Modes[1:]
	}
	n := len(alphabet)
	idx := make([]int, s.length-2)
	for !x.c.Expired() {
		in := alphabet[k/n] + alphabet[k%n]
		for _, i := range idx {
			in += alphabet[i]
		}
		for _, m := range modes {
			steps += int64(x.text(in, m, s.depth))
			texts++
		}
		i := len(idx) - 1
		for ; i >= 0; i-- {
			if idx[i]++; idx[i] < n {
				break
			}
			idx[i] = 0
		}
		if i < 0 {
			return
		}
	}
	return
}

// RunStream is the check of C20.
func RunStream(c *chk.Ctx) {
	x := &streaming{c}
	texts, steps := c.Counter("texts"), c.Counter("readings")
	for _, s := range append([]string{""}, fragments()...) {
		for _, m := range Modes {
			addN(steps, int64(x.text(s, m, 2)))
			addN(texts, 1)
		}
	}
	sweeps := []sweep{{false, 2, false, 3}, {false, 3, false, 1}, {false, 3, true, 0}, {true, 4, false, 1}, {true, 3, false, 2}}
	bounds := "all sequences of fragments: 2 of all with every chunking and padding, 3 of all with four readers in the MySQL mode and as strings in the others, 3 of the ordinary ones with every chunking, 4 with four readers"
	if c.Thorough {
		sweeps = append(sweeps, sweep{false, 3, false, 2}, sweep{false, 4, false, 0}, sweep{true, 5, false, 0}, sweep{true, 4, false, 2})
		bounds += "; 3 of all and 4 of the ordinary ones with every chunking, 4 of all and 5 of the ordinary ones as strings"
	}
	for _, s := range sweeps {
		s := s
		n := len(s.alphabet())
		c.Parallel(n*n, func(w, k int) {
			c.Journal.Begin(w, s.job(k))
			a, b := x.sweep(s, k)
			addN(steps, a)
			addN(texts, b)
		})
	}
	c.Cov["evaluations"] = *steps
	c.Cov["distinct_nontrivial"] = *texts
	c.Cov["fragments"] = len(fragments())
	c.Cov["bounds"] = bounds
	c.Cov["chunkings"] = "one read; one byte per read; the end with the last bytes; reads without bytes; every split in two; every place of the text at the buffer's end; a reader that fails at every place"
	in := "select ';';/* ; */select 2"
	c.Sample(map[string]interface{}{"input": in, "cuts": cuts(in, sp.ParserModeMysql), "statements": pieceOutcomes(in, sp.ParserModeMysql)})
}

// OneStream runs one recorded case.
func OneStream(c *chk.Ctx, id string) {
	x := &streaming{c}
	if strings.HasPrefix(id, "seq:") {
		var s sweep
		var k int
		p := strings.Split(id, ":")
		s.small, s.others = p[1] == "true", p[3] == "true"
		fmt.Sscan(p[2], &s.length)
		fmt.Sscan(p[4], &s.depth)
		fmt.Sscan(p[5], &k)
		x.sweep(s, k)
		return
	}
	id = strings.TrimPrefix(id, "in:")
	i := strings.Index(id, ":")
	in, err := strconv.Unquote(id[i+1:])
	for _, m := range Modes {
		if err == nil && ModeName(m) == id[:i] {
			x.text(in, m, 3)
		}
	}
}
