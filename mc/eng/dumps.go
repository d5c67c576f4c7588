package eng

import "sync"

var (
	dumpMu sync.Mutex
	dumps  = map[string]string{}
)

// DumpOnce is sys.Dump, made once for each state: the key of a state has all that a dump shows.
func DumpOnce(sys System, f *Family, st State) (string, error) {
	key := sys.Name() + "\x00" + f.Name + "\x00" + sys.Key(st)
	dumpMu.Lock()
	d, ok := dumps[key]
	dumpMu.Unlock()
	if ok {
		return d, nil
	}
	d, err := sys.Dump(st)
	if err == nil {
		dumpMu.Lock()
		dumps[key] = d
		dumpMu.Unlock()
	}
	return d, err
}
