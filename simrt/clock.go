package simrt

import (
	"time"
	"unsafe"
)

// Epoch0 is the wall clock time at the start of every run.
const Epoch0 = int64(1_700_000_000_000_000_000)

// Jump sets the wall clock of all processes forward or back. Timers, sleeps and
// the monotonic clock are not affected, as on a real system.
type Jump struct {
	At int64 `json:"at"`
	By int64 `json:"by"`
}

// WallOff is how far the wall clock is off at a time.
func (c *Config) WallOff(t int64) int64 {
	var o int64
	for _, j := range c.Jumps {
		if j.At <= t {
			o += j.By
		}
	}
	return o
}

type rawTime struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

var layoutOK = func() bool {
	a, b := mkTime(2e9, 0), mkTime(5e9, -100e9)
	return b.Sub(a) == 3*time.Second && b.UnixNano() == Epoch0+5e9-100e9 && a.UnixNano() == Epoch0+2e9 &&
		b.Add(time.Second).Sub(a) == 4*time.Second && b.Round(0).Sub(a.Round(0)) == -97*time.Second
}()

// mkTime is a time with a monotonic reading, as time.Now returns.
func mkTime(mono, off int64) time.Time {
	const y = 86400
	const since1885 = ((1969*365 + 1969/4 - 1969/100 + 1969/400) - (1884*365 + 1884/4 - 1884/100 + 1884/400)) * y
	var t time.Time
	w := Epoch0 + mono + off
	r := (*rawTime)(unsafe.Pointer(&t))
	r.wall = 1<<63 | uint64(w/1e9+since1885)<<30 | uint64(w%1e9)
	r.ext = mono + 1
	return t
}

// MkTime is the time at an instant of the run.
func MkTime(mono int64) time.Time {
	var off int64
	if S != nil {
		if g := S.cfg.Gran; g > 1 {
			mono -= mono % g
		}
		off = S.cfg.WallOff(mono)
	}
	if !layoutOK {
		return time.Unix(0, Epoch0+mono+off).UTC()
	}
	return mkTime(mono, off)
}

// MonoOf is the instant of the run a time stands for: by its monotonic reading
// if it has one, else by the present wall clock.
func MonoOf(t time.Time) int64 {
	now := NowNS()
	var off int64
	if S != nil {
		off = S.cfg.WallOff(now)
	}
	if !layoutOK {
		return t.UnixNano() - Epoch0 - off
	}
	d := int64(t.Sub(mkTime(now, off)))
	if d > 1<<62 {
		d = 1 << 62
	}
	return now + d
}
