package sqlx

import "strings"

var bodyWords = map[string]bool{}

func init() {
	for _, w := range strings.Fields("CREATE TEMP TRIGGER BEFORE AFTER INSTEAD OF ON FOR EACH ROW WHEN INSERT INTO VALUES VALUE UPDATE SET DELETE FROM WHERE AND OR NOT NULL IS IN LIKE SELECT NEW OLD BEGIN END IF THEN ELSE CASE REPLACE DISTINCT GROUP ORDER BY HAVING LIMIT AS UNION ALL JOIN LEFT INNER DEFAULT IGNORE") {
		bodyWords[w] = true
	}
}

// BodyCanon is the text of a trigger without what is only spelling: white space, comments, case of keywords, quotes around names.
func BodyCanon(text string, d Dialect) string {
	toks, err := Lex(text, d)
	if err != nil {
		return "unreadable " + text
	}
	var l []string
	for _, t := range toks {
		switch t.K {
		case EOF:
		case Word:
			if bodyWords[t.U] {
				l = append(l, t.U)
			} else {
				l = append(l, "`"+t.S+"`")
			}
		case Quoted:
			l = append(l, "`"+t.S+"`")
		case Str:
			l = append(l, t.Pre+"'"+strings.Replace(t.S, "'", "''", -1)+"'")
		default:
			l = append(l, text[t.Pos:t.End])
		}
	}
	for len(l) > 0 && l[len(l)-1] == ";" {
		l = l[:len(l)-1]
	}
	return strings.Join(l, " ")
}
