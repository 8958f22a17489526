package main

// Controlled interleaving: every data-interface call, callback and secret comparison of a request is a
// point where the scheduler may let another request go on.

import (
	"fmt"
	"strconv"
	"sync"
	"time"
)

type schedEv struct {
	i    int
	done bool
}

type Sched struct {
	arrive  chan schedEv
	resume  []chan bool
	tags    sync.Map // goroutine id -> index
	choose  func(parked []int) int
	Trace   []int // which request was let go on, in order
	Blocked int   // times a request did not come to its next point in time (it waited for another one)
}

// tagger names the request that the calling goroutine serves.
func (s *Sched) tagger() string {
	if v, ok := s.tags.Load(gid()); ok {
		return strconv.Itoa(v.(int))
	}
	return ""
}

func (s *Sched) gate(w *World, c *Call, req string) {
	i, err := strconv.Atoi(req)
	if err != nil {
		return
	}
	s.arrive <- schedEv{i, false}
	<-s.resume[i]
}

// Interleave runs the functions, one at a time between scheduling points, as choose says.
func Interleave(w *World, fs []func(), choose func(parked []int) int) *Sched {
	s := &Sched{arrive: make(chan schedEv, len(fs)), choose: choose}
	for range fs {
		s.resume = append(s.resume, make(chan bool, 1))
	}
	w.Tagger, w.Gate = s.tagger, s.gate
	defer func() { w.Tagger, w.Gate = nil, nil }()
	for i, f := range fs {
		go func(i int, f func()) {
			s.tags.Store(gid(), i)
			s.arrive <- schedEv{i, false}
			<-s.resume[i]
			defer func() { s.arrive <- schedEv{i, true} }()
			f()
		}(i, f)
	}
	parked := make([]bool, len(fs))
	running, left := len(fs), len(fs)
	note := func(e schedEv) {
		running--
		if e.done {
			left--
		} else {
			parked[e.i] = true
		}
	}
	for left > 0 {
		for running > 0 {
			select {
			case e := <-s.arrive:
				note(e)
				continue
			case <-time.After(100 * time.Millisecond):
			}
			some := false
			for _, p := range parked {
				some = some || p
			}
			if some { // it waits for something another request holds
				s.Blocked++
				break
			}
		}
		var l []int
		for i, p := range parked {
			if p {
				l = append(l, i)
			}
		}
		if len(l) == 0 {
			continue
		}
		i := s.choose(l)
		s.Trace = append(s.Trace, i)
		parked[i] = false
		running++
		s.resume[i] <- true
	}
	return s
}

// Free runs the functions at once, with a few yields, under real parallelism.
func Free(w *World, fs []func(), jitter func()) {
	s := &Sched{}
	w.Tagger = s.tagger
	if jitter != nil {
		w.Gate = func(w *World, c *Call, req string) { jitter() }
	}
	defer func() { w.Tagger, w.Gate = nil, nil }()
	var wg sync.WaitGroup
	start := make(chan bool)
	for i, f := range fs {
		wg.Add(1)
		go func(i int, f func()) {
			defer wg.Done()
			s.tags.Store(gid(), i)
			<-start
			f()
		}(i, f)
	}
	close(start)
	wg.Wait()
}

// Explorer enumerates all schedules depth first: Next prepares the next one, Choose is the chooser.
type Explorer struct {
	path    []int // choice at each step
	width   []int
	step    int
	started bool
}

func (e *Explorer) Next() bool {
	if !e.started {
		e.started = true
		e.step = 0
		return true
	}
	for len(e.path) > 0 {
		n := len(e.path) - 1
		if e.path[n]+1 < e.width[n] {
			e.path[n]++
			e.step = 0
			return true
		}
		e.path, e.width = e.path[:n], e.width[:n]
	}
	return false
}

func (e *Explorer) Choose(parked []int) int {
	if e.step == len(e.path) {
		e.path = append(e.path, 0)
		e.width = append(e.width, len(parked))
	}
	k := e.path[e.step]
	if k >= len(parked) {
		k = len(parked) - 1
	}
	e.step++
	return parked[k]
}

func traceSig(t []int) string { return fmt.Sprint(t) }

// callsTagged picks the calls of one request.
func callsTagged(calls []*Call, i int) (out []*Call) {
	tag := strconv.Itoa(i)
	for _, k := range calls {
		if k.Req == tag {
			out = append(out, k)
		}
	}
	return
}
