// Package sched gives control over the interleaving of goroutines. It is only part of instrumented builds.
package sched

import (
	"sync/atomic"
	"time"
	"unsafe"
)

func getg() unsafe.Pointer

// Where designates the moment when a task reaches a scheduling point for the nth time; n is 0 for never.
type Where struct{ Point, Nth int }

// Task is a goroutine under control.
type Task struct {
	Counts  []int // how many times each scheduling point was passed so far
	stop    Where // where to stop
	free    int32
	done    bool
	Result  string
	Blocked bool
	ev      chan bool // true when done, false when stopped
	resume  chan struct{}
}

type slot struct {
	g unsafe.Pointer
	t *Task
}

var slots [64]slot

// Point is called before each statement of the instrumented code.
func Point(id int) {
	g := getg()
	for i := range slots {
		p := atomic.LoadPointer(&slots[i].g)
		if p == g {
			slots[i].t.point(id)
			return
		}
	}
}

func (t *Task) point(id int) {
	for id >= len(t.Counts) {
		t.Counts = append(t.Counts, make([]int, 512)...)
	}
	t.Counts[id]++
	if t.stop.Point == id && t.stop.Nth == t.Counts[id] && atomic.LoadInt32(&t.free) == 0 {
		t.ev <- false
		<-t.resume
	}
}

// Start makes a task that runs f until a scheduling point.
func Start(f func() string, stop Where) *Task {
	t := &Task{stop: stop, ev: make(chan bool, 2), resume: make(chan struct{}, 1)}
	go func() {
		g := getg()
		k := -1
		for i := range slots {
			if atomic.CompareAndSwapPointer(&slots[i].g, nil, unsafe.Pointer(t)) { // reserved
				slots[i].t = t
				atomic.StorePointer(&slots[i].g, g)
				k = i
				break
			}
		}
		if k < 0 {
			panic("sched: no slot")
		}
		t.Result = f()
		atomic.StorePointer(&slots[k].g, nil)
		t.ev <- true
	}()
	return t
}

// patience is how long a task may run before it is deemed to be waiting for another one; that only matters for
// control, not for the verdict.
const patience = 200 * time.Millisecond

const forever = 60 * time.Second

// Wait waits until the task stops or is done. It returns false if the task is blocked.
func (t *Task) Wait() bool {
	if t.done {
		return true
	}
	timer := time.NewTimer(patience)
	defer timer.Stop()
	select {
	case t.done = <-t.ev:
		return true
	case <-timer.C:
		t.Blocked = true
		return false
	}
}

// Continue lets the task run until another scheduling point.
func (t *Task) Continue(stop Where) {
	if t.done {
		return
	}
	t.stop = stop
	t.resume <- struct{}{}
}

// Free lets the task run without control.
func (t *Task) Free() {
	if t.done {
		return
	}
	atomic.StoreInt32(&t.free, 1)
	select {
	case t.resume <- struct{}{}:
	default:
	}
}

// Finish waits for the end of a free task. It returns false if that never happens.
func (t *Task) Finish() bool {
	for !t.done {
		timer := time.NewTimer(forever)
		select {
		case t.done = <-t.ev:
			timer.Stop()
			if !t.done {
				t.resume <- struct{}{}
			}
		case <-timer.C:
			return false
		}
	}
	return true
}

// Done tells whether the task is over.
func (t *Task) Done() bool { return t.done }
