module mc

go 1.16

require (
	github.com/denisenkom/go-mssqldb v0.10.0
	github.com/go-sql-driver/mysql v1.6.0
	github.com/jessevdk/go-flags v1.4.0
	github.com/k0kubun/sqldef v0.0.0
	github.com/lib/pq v1.10.2
	github.com/mattn/go-sqlite3 v1.14.7
	golang.org/x/term v0.0.0-20210406210042-72f3dc4e9b72
)

replace github.com/k0kubun/sqldef => /repo
