package prs

import (
	"fmt"
	"io"
	"strings"
	"sync"

	sp "github.com/k0kubun/sqldef/sqlparser"

	"mc/chk"
	"mc/eng"
)

// outcome is everything a parse tells.
type outcome struct {
	pan, err, text string
}

func (o outcome) String() string { return o.pan + "|" + o.err + "|" + o.text }

// tryParse parses, prints and walks.
func tryParse(mode sp.ParserMode, in string) (o outcome, bad string) {
	stage := "parsing"
	o.pan = Safe(func() {
		st, err := sp.ParseStrictDDLWithMode(in, mode)
		if err != nil {
			o.err = err.Error()
			if !strings.Contains(o.err, in) {
				bad = "the error does not quote the input: " + o.err
			}
			return
		}
		if st == nil {
			bad = "neither a statement nor an error"
			return
		}
		stage = "printing"
		o.text = sp.String(st)
		stage = "walking"
		sp.Walk(func(n sp.SQLNode) (bool, error) { return true, nil }, st)
	})
	if o.pan != "" {
		bad = "panic while " + stage + ": " + o.pan
	}
	return
}

// tryScan scans to the end.
func tryScan(mode sp.ParserMode, in string) (bad string) {
	n := 0
	p := Safe(func() {
		t := sp.NewStringTokenizer(in, mode)
		last := -1
		for {
			k, _ := t.Scan()
			n++
			if k == 0 {
				return
			}
			if t.Position < last {
				bad = fmt.Sprintf("position went back from %d to %d", last, t.Position)
				return
			}
			last = t.Position
			if n > 2*len(in)+4 {
				bad = "the scanner does not come to an end"
				return
			}
		}
	})
	if p != "" {
		bad = "panic while scanning: " + p
	}
	return
}

type crash struct {
	c *chk.Ctx
	k int64
}

func (x *crash) fail(kind, mode, in, detail string) {
	x.c.Fail(eng.Failure{Prop: "C13", Case: "in:" + mode + ":" + fmt.Sprintf("%q", in), Kind: kind, Detail: detail})
}

func (x *crash) one(m sp.ParserMode, in string) outcome {
	o, bad := tryParse(m, in)
	if bad != "" {
		k := "bad-answer"
		if o.pan != "" {
			k = "panic"
		}
		x.fail(k, ModeName(m), in, bad)
	}
	return o
}

// scanAlphabet has every character the scanner treats in a way of its own, and some it doesn't.
var scanAlphabet = []byte("a0x' \"`\\;/*-!#\n.e:@(?<=>[]b$5|&\x00\xff+,%{\t~^")

func mutTokens() []string {
	return strings.Fields("a 's' 1 1.5 x'0a' 0x1f b'1' :v ::l ? = , ( ) [ ] - * . ; select from where and not null default key primary references create table index on as is in check union order by case end interval `q` \"d\" /*c*/ --c 'u /*u `u x'f int varchar constraint unique foreign identity generated collate")
}

// RunCrash is C13.
func RunCrash(c *chk.Ctx) {
	x := &crash{c: c}
	g := LoadGrammar()
	modes := Modes
	// 1. derived sentences, each three times: alone, in reverse order, and while others are parsed
	ss := g.Sentences(true, false, nil)
	if c.Thorough {
		ss = append(ss, g.Sentences(false, true, nil)...)
	}
	ins := make([]string, len(ss))
	for i, s := range ss {
		ins[i] = strings.Join(g.Texts(s), " ")
	}
	nSent, nAcc := c.Counter("sentences_parsed"), int64(0)
	const chunk = 200
	base := make([][]string, len(modes))
	for mi, m := range modes {
		base[mi] = make([]string, len(ins))
		c.Journal.Begin(0, "sentences:"+ModeName(m)+":0:"+fmt.Sprint(len(ins)))
		for i, in := range ins { // sequentially: the reference
			if i%chunk == 0 {
				c.Journal.Begin(0, fmt.Sprintf("sentences:%s:%d:%d", ModeName(m), i, chunk))
			}
			o := x.one(m, in)
			base[mi][i] = o.String()
			if o.err == "" && o.pan == "" {
				nAcc++
			}
		}
		c.Journal.End(0)
		*nSent += int64(len(ins))
	}
	c.Cov["sentences_accepted"] = nAcc
	// the same again, concurrently and in another order; outcomes must be the same
	var mu sync.Mutex
	bad := 0
	c.Parallel(len(modes)*((len(ins)+chunk-1)/chunk), func(w, j int) {
		mi := j % len(modes)
		lo := (j / len(modes)) * chunk
		c.Journal.Begin(w, fmt.Sprintf("sentences:%s:%d:%d", ModeName(modes[mi]), lo, chunk))
		for i := lo + chunk - 1; i >= lo; i-- {
			if i >= len(ins) {
				continue
			}
			o, _ := tryParse(modes[mi], ins[i])
			if o.String() != base[mi][i] {
				mu.Lock()
				bad++
				mu.Unlock()
				x.fail("not-independent", ModeName(modes[mi]), ins[i], "alone: "+base[mi][i]+"\nwith others at the same time: "+o.String())
			}
		}
	})
	c.Count("concurrent_reparses", int64(len(modes)*len(ins)))
	// 2. every deletion, replacement and insertion of one token in the short derivations, and every truncation
	short := g.Sentences(false, false, nil)
	mt := mutTokens()
	mm := modes
	if !c.Thorough {
		mm = modes[:1]
	}
	nMut := c.Counter("mutated_statements")
	c.Parallel(len(short), func(w, i int) {
		c.Journal.Begin(w, fmt.Sprintf("mutate:%d", i))
		addN(nMut, x.mutate(mm, modes, g.Texts(short[i]), mt))
	})
	// 3. every byte string up to a length over the scanner's alphabet
	depth := 3
	if c.Thorough {
		depth = 4
	}
	nb := c.Counter("byte_strings")
	al := scanAlphabet
	c.Parallel(len(al)*len(al), func(w, i int) {
		c.Journal.Begin(w, fmt.Sprintf("bytes:%d:%d", i, depth))
		addN(nb, x.bytes(i, depth))
	})
	// every string of three arbitrary bytes, as they are and inside quotes
	c.Parallel(256, func(w, i int) {
		c.Journal.Begin(w, fmt.Sprintf("any:%d", i))
		addN(nb, x.any(i))
	})
	// every longer string over the few characters that matter in one context
	for ci := range contexts {
		ctx := contexts[ci]
		al := []byte(ctx.alpha)
		c.Parallel(len(al)*len(al), func(w, i int) {
			c.Journal.Begin(w, fmt.Sprintf("context:%d:%d", ci, i))
			addN(nb, x.context(ctx, i, c.Thorough))
		})
	}
	// 4. special comments and nesting
	n := int64(0)
	for i, in := range specials() {
		c.Journal.Begin(0, fmt.Sprintf("special:%d", i))
		for _, m := range modes {
			if b := tryScan(m, in); b != "" {
				x.fail("scan", ModeName(m), in, b)
			}
			x.one(m, in)
			n++
		}
	}
	c.Journal.End(0)
	c.Count("special_texts", n)
	c.Cov["evaluations"] = *nSent*2 + *nMut + *nb + n
	c.Cov["distinct_nontrivial"] = nAcc
	c.Sample(map[string]interface{}{"input": ins[0], "outcome": base[0][0]})
	c.Sample(map[string]interface{}{"input": ins[len(ins)/2], "outcome": base[0][len(ins)/2]})
	c.Sample(map[string]interface{}{"input": ins[len(ins)-1], "outcome": base[0][len(ins)-1]})
}

func (x *crash) mutate(mm, all []sp.ParserMode, t []string, mt []string) int64 {
	n := int64(0)
	do := func(ms []sp.ParserMode, in string) {
		for _, m := range ms {
			x.one(m, in)
			n++
		}
	}
	for i := 0; i <= len(t); i++ {
		pre, post := strings.Join(t[:i], " "), ""
		if i < len(t) {
			post = strings.Join(t[i+1:], " ")
			do(all, pre+" "+post)
			for _, k := range mt {
				do(mm, pre+" "+k+" "+post)
			}
			post = t[i] + " " + post
		}
		for _, k := range mt {
			do(mm, pre+" "+k+" "+post)
		}
	}
	s := strings.Join(t, " ")
	for i := range s {
		do(all, s[:i])
	}
	return n
}

func (x *crash) text(in string) int64 {
	for _, m := range Modes {
		if b := tryScan(m, in); b != "" {
			x.fail("scan", ModeName(m), in, b)
		}
		x.one(m, in)
	}
	return int64(len(Modes))
}

func (x *crash) bytes(i, depth int) int64 {
	al := scanAlphabet
	b := []byte{al[i/len(al)], al[i%len(al)]}
	n := x.text(string(b))
	var rec func(b []byte)
	rec = func(b []byte) {
		if len(b) >= depth {
			return
		}
		for _, ch := range al {
			d := append(b, ch)
			n += x.text(string(d))
			rec(d)
		}
	}
	rec(b)
	return n
}

// contexts in which few characters decide what the scanner does
var contexts = []struct {
	pre, alpha, post string
	depth            int
}{
	{"select '", "a\\'", "", 8},
	{"select '", "a\\'\"\n", "'", 5},
	{"select \"", "a\\\"'", "", 6},
	{"select `", "a`\\ ", "", 6},
	{"select [", "a]['", "", 6},
	{"select /*", "a*/!", "", 7},
	{"select /*!", "a*/1; '", "", 5},
	{"select 1 --", "-\na;", "", 6},
	{"select ", "019xXe.+-a", "", 5},
	{"select ", ":a.0_", "", 6},
	{"select x'", "0af'g", "", 6},
	{"select b'", "01'2", "", 6},
	{"select a ", "<>=!-|&", " b", 5},
	{"", ";a /*-\n", "", 6},
	{"select @", "@a.(^1", "", 6},
	{"create table t (a int default ", "-'1)(,a", ")", 5},
	{"create table t (a ", "(),1 a", "", 6},
}

func (x *crash) context(k struct {
	pre, alpha, post string
	depth            int
}, i int, thorough bool) int64 {
	al := k.alpha
	if thorough {
		k.depth += 2
	}
	n := int64(0)
	var rec func(b []byte)
	rec = func(b []byte) {
		in := k.pre + string(b) + k.post
		m := Modes[int(n)%len(Modes)]
		if bad := tryScan(m, in); bad != "" {
			x.fail("scan", ModeName(m), in, bad)
		}
		x.one(m, in)
		n++
		if len(b) < k.depth {
			for j := range al {
				rec(append(b[:len(b):len(b)], al[j]))
			}
		}
	}
	rec([]byte{al[i/len(al)], al[i%len(al)]})
	return n
}

func (x *crash) any(i int) int64 {
	n := int64(0)
	for j := 0; j < 256; j++ {
		b := string([]byte{byte(i), byte(j)})
		for _, f := range []string{"%s", "'%s'", "select '%s' from t", "select a%s", "/*!%s*/", "`%s`", "/*%s", "--%s\n1", "select 1%s", "create table t (a int default %s)"} {
			in := strings.Replace(f, "%s", b, 1)
			m := Modes[(i+j)%4]
			if bad := tryScan(m, in); bad != "" {
				x.fail("scan", ModeName(m), in, bad)
			}
			x.one(m, in)
			n++
		}
	}
	return n
}

func specials() []string {
	var out []string
	for _, in := range []string{"", "1", "12345", "50708", "508080", "50708 ", "50708 select 1", " select 1", "select 1", "select 1;", ";", "*", "/*", "/*!1*/", "'", "'a", "\n", "50708'", "\xc2\xb2", "٣", "50708/*!50708 a */"} {
		for _, f := range []string{"/*!%s*/", "/*!%s", "select /*!%s*/ from t", "/*!%s*/ /*!%s*/", "create table t (a int /*!%s*/)", "select 1 /*!%s*/;", "/*%s*/", "/*%s", "--%s", "--%s\n select 1", "#%s", "//%s\n"} {
			out = append(out, strings.Replace(f, "%s", in, -1))
		}
	}
	for _, n := range []int{2, 15, 16, 17, 199, 200, 201, 5000} {
		r := strings.Repeat
		out = append(out, "select "+r("(", n)+"1"+r(")", n), "select "+r("(", n)+"1", "select "+r("- ", n)+"1", "select "+r("not ", n)+"1", "select "+r("! ", n)+"1",
			"select 1"+r(" + 1", n), "select 1"+r(" and 1", n), "select case when "+r("case when ", n)+"1", "select 1 from t"+r(" join t", n), r("select 1 union ", n)+"select 1",
			"select "+r("f(", n)+r(")", n), "select "+r("interval ", n)+"1 day", "select a"+r(".a", n), "create table t ("+r("a int, ", n)+"a int)", "create table t (a int"+r(" not null", n)+")",
			"select 1 where "+r("a in (", n)+"1"+r(")", n), r("(", n)+"select 1"+r(")", n), "select '"+r("a", n)+"'", "select `"+r("a", n)+"`", "select "+r("a", n), "select "+r("1", n), "select "+r(" ", n)+"1", r("/*a*/", n)+"select 1", r(";", n), "select 1"+r(";", n), "select '"+r("''", n), "select '"+r("\\'", n)+"'")
	}
	return out
}

// OneCrash runs one recorded case.
func OneCrash(c *chk.Ctx, id string) {
	x := &crash{c: c}
	g := LoadGrammar()
	var a, b int
	switch {
	case strings.HasPrefix(id, "in:"):
		p := strings.SplitN(id, ":", 3)
		var in string
		fmt.Sscanf(p[2], "%q", &in)
		for _, m := range Modes {
			if ModeName(m) == p[1] {
				if bad := tryScan(m, in); bad != "" {
					x.fail("scan", p[1], in, bad)
				}
				o := x.one(m, in)
				// with others at the same time
				var wg sync.WaitGroup
				for k := 0; k < 8; k++ {
					wg.Add(1)
					go func(k int) {
						defer wg.Done()
						short := g.Sentences(false, false, nil)
						for i := k; i < len(short); i += 8 {
							tryParse(m, strings.Join(g.Texts(short[i]), " "))
							if q, _ := tryParse(m, in); q.String() != o.String() {
								x.fail("not-independent", p[1], in, "alone: "+o.String()+"\nwith others at the same time: "+q.String())
								return
							}
						}
					}(k)
				}
				wg.Wait()
			}
		}
	case strings.HasPrefix(id, "sentences:"):
		p := strings.Split(id, ":")
		fmt.Sscan(p[2], &a)
		fmt.Sscan(p[3], &b)
		ss := g.Sentences(true, false, nil)
		if c.Thorough {
			ss = append(ss, g.Sentences(false, true, nil)...)
		}
		for _, m := range Modes {
			if ModeName(m) == p[1] {
				for i := a; i < a+b && i < len(ss); i++ {
					x.one(m, strings.Join(g.Texts(ss[i]), " "))
				}
			}
		}
	case strings.HasPrefix(id, "mutate:"):
		fmt.Sscanf(id, "mutate:%d", &a)
		short := g.Sentences(false, false, nil)
		x.mutate(Modes, Modes, g.Texts(short[a]), mutTokens())
	case strings.HasPrefix(id, "bytes:"):
		fmt.Sscanf(id, "bytes:%d:%d", &a, &b)
		x.bytes(a, b)
	case strings.HasPrefix(id, "context:"):
		fmt.Sscanf(id, "context:%d:%d", &a, &b)
		x.context(contexts[a], b, c.Thorough)
	case strings.HasPrefix(id, "any:"):
		fmt.Sscanf(id, "any:%d", &a)
		x.any(a)
	case strings.HasPrefix(id, "special:"):
		fmt.Sscanf(id, "special:%d", &a)
		x.text(specials()[a])
	}
}

var _ = io.EOF
