// Package time replaces sleeping and wall-clock reading. The synctest bubble
// already fakes the clock; this adds wall-clock steps (the monotonic reading
// is left alone, as with a real clock step) and scheduling.
package time

import (
	rtime "time"
	"unsafe"
	"vsim/rt"
)

// wallTime mirrors time.Time. A synctest bubble's time.Now carries no
// monotonic reading, so it is put in here: with one, a step of the wall clock
// does not change what durations come out as.
type wallTime struct {
	wall uint64
	ext  int64
	loc  unsafe.Pointer
}

func skewed(t rtime.Time) rtime.Time {
	if rt.S == nil || rt.Cur() == nil {
		return t
	}
	w := (*wallTime)(unsafe.Pointer(&t))
	if w.wall&(1<<63) != 0 {
		return t
	}
	const unixToInternal = 62135596800
	const wallToInternal = 59453308800 // 1885
	mono := int64(t.Sub(rt.Epoch)) + 1
	t = t.Add(rt.S.Skew)
	secs := t.Unix() + unixToInternal - wallToInternal
	if uint64(secs)>>33 != 0 || mono <= 0 {
		return t
	}
	w.wall = 1<<63 | uint64(secs)<<30 | uint64(t.Nanosecond())
	w.ext = mono
	return t
}

func Now() rtime.Time                          { return skewed(rtime.Now()) }
func Since(t rtime.Time) rtime.Duration        { return Now().Sub(t) }
func Until(t rtime.Time) rtime.Duration        { return t.Sub(Now()) }
func Sleep(d rtime.Duration)                   { rt.Sleep(d) }
func After(d rtime.Duration) <-chan rtime.Time { return NewTimer(d).C }
func Tick(d rtime.Duration) <-chan rtime.Time  { return NewTicker(d).C }

// Timer stands in for time.Timer.
type Timer struct {
	C    <-chan rtime.Time
	gen  int
	live bool
	fire func()
}

func (t *Timer) start(d rtime.Duration) {
	t.gen++
	t.live = true
	gen := t.gen
	rt.Go(func() {
		rt.Sleep(d)
		if t.live && t.gen == gen {
			t.live = false
			t.fire()
		}
	})
}
func NewTimer(d rtime.Duration) *Timer {
	c := make(chan rtime.Time, 1)
	t := &Timer{C: c}
	t.fire = func() {
		select {
		case c <- Now():
		default:
		}
	}
	t.start(d)
	return t
}
func AfterFunc(d rtime.Duration, f func()) *Timer {
	t := &Timer{fire: f}
	t.start(d)
	return t
}
func (t *Timer) Stop() bool { l := t.live; t.live = false; return l }
func (t *Timer) Reset(d rtime.Duration) bool {
	l := t.Stop()
	t.start(d)
	return l
}

// Ticker stands in for time.Ticker.
type Ticker struct {
	C    <-chan rtime.Time
	stop bool
}

func NewTicker(d rtime.Duration) *Ticker {
	c := make(chan rtime.Time, 1)
	t := &Ticker{C: c}
	rt.Go(func() {
		for !t.stop {
			rt.Sleep(d)
			select {
			case c <- Now():
			default:
			}
		}
	})
	return t
}
func (t *Ticker) Stop() { t.stop = true }
