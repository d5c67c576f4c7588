package my

import "mc/sqlx"

// Client is what "mysql db -e sql" does.
func (s *Server) Client(db, sql string) (string, error) {
	st, err := sqlx.SplitStatements(sql, sqlx.MySQL)
	if err != nil {
		return "", err
	}
	for _, q := range st {
		if _, err := s.Query(db, q); err != nil {
			return "", err
		}
	}
	return "", nil
}
