package simrt

import "fmt"

// Begin marks the start of a library call by the current task.
func Begin(c *Call) {
	s := S
	t := s.cur
	c.ID = len(s.Calls)
	c.Caller = t
	c.Start = s.step
	c.outer = t.call
	c.CallerLast = s.step
	s.Calls = append(s.Calls, c)
	t.call = c
	c.saveBase, c.saveDepth = t.baseDepth, t.CallDepth
	t.baseDepth = t.depth
	t.CallDepth = 0
}

// End marks the return (or unwinding) of the call.
func End(c *Call, panicked bool) {
	s := S
	if s.aborting {
		return
	}
	t := s.cur
	c.End = s.step
	c.Returned = true
	c.Panicked = panicked
	t.call = c.outer
	t.baseDepth, t.CallDepth = c.saveBase, c.saveDepth
}

// Lsw checks an invocation of the comparator of call c with index arguments i,k,r,x
// over n elements. It returns false if the indices must not be used.
func Lsw(c *Call, n int, i, k, r, x int) bool {
	s := S
	t := s.cur
	c.Lsws++
	if t.call != c {
		s.Report("foreign", fmt.Sprintf("comparator of %s invoked by goroutine %d which works for another call", c.Desc, t.ID))
	}
	if t != c.Caller {
		c.OffCaller++
	}
	if c.Returned && !c.Panicked {
		s.Report("late", fmt.Sprintf("comparator of %s invoked by goroutine %d after return", c.Desc, t.ID))
	}
	if i < 0 || k < 0 || r < 0 || x < 0 || i >= n || k >= n || r >= n || x >= n {
		s.Report("index", fmt.Sprintf("comparator of %s over %d elements invoked with indices %d %d %d %d", c.Desc, n, i, k, r, x))
		return false
	}
	return true
}

// SetGor records a change of the goroutine limit.
func (s *Sim) SetGor(v uint64) { s.Gors = append(s.Gors, GorEvent{s.step, v}) }

// Busy is an interval during which a goroutine worked for a call.
type Busy struct {
	From, To uint64
	Task     int
}

// BusyIntervals of the goroutines of a call, the caller first.
func (c *Call) BusyIntervals() []Busy {
	out := []Busy{{c.Start, c.CallerLast, c.Caller.ID}}
	for _, h := range c.Helpers {
		to := h.LastTouch
		if to < h.SpawnStep {
			to = h.SpawnStep
		}
		out = append(out, Busy{h.SpawnStep, to, h.ID})
	}
	return out
}

// PeakBusy is the largest number of goroutines at work at once, and when.
func (c *Call) PeakBusy() (peak int, at uint64) {
	iv := c.BusyIntervals()
	for _, a := range iv { // the maximum is reached at the start of an interval
		n := 0
		for _, b := range iv {
			if b.From <= a.From && a.From <= b.To {
				n++
			}
		}
		if n > peak {
			peak, at = n, a.From
		}
	}
	return
}
