package simos

import (
	"time"

	"verifrt"
)

// Now is time.Now: simulated time.
func Now() time.Time {
	return time.Unix(1700000000, 0).Add(time.Duration(rt.Clock()) * time.Microsecond)
}

// Since is time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Sleep is time.Sleep.
func Sleep(d time.Duration) {
	if d > 0 {
		rt.Sleep(uint64(d / time.Microsecond))
	}
	rt.SyncPoint()
}

// Gosched is runtime.Gosched.
func Gosched() { rt.Gosched() }

// GOMAXPROCS is runtime.GOMAXPROCS.
func GOMAXPROCS(int) int { return rt.NumCPU() }
