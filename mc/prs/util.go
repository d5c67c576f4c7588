package prs

import "sync/atomic"

func addN(p *int64, n int64) { atomic.AddInt64(p, n) }
