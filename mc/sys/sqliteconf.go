package sys

/*
extern int sqlite3_config(int, ...) __attribute__((weak));
static int mc_nomemstatus(void) { return sqlite3_config ? sqlite3_config(9, 0) : -1; }
*/
import "C"
import "sync"

var confOnce sync.Once

// sqliteConfig turns off SQLite's memory accounting, whose global lock serialises the workers.
func sqliteConfig() { confOnce.Do(func() { C.mc_nomemstatus() }) }
