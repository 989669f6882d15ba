package main

import (
	"sync"
	"time"
)

// leftover is an obligation no solver decided in time.
type leftover struct {
	name string
	x    *Exec
	o    *Obl
	rep  *OblRep
}

const (
	patienceMax  = 16
	patienceTime = 240 * time.Second
)

// patience tries the undecided obligations again, when nothing else runs and with more time, so that the answer does
// not depend on how busy the machine is. A refuted obligation is not tried again.
func patience(ls []leftover, timeoutMS int) {
	if len(ls) > patienceMax || time.Since(started) > lastCall-patienceTime {
		return
	}
	t0 := time.Now()
	var wg sync.WaitGroup
	sem := make(chan bool, 2)
	for _, l := range ls {
		if l.rep == nil {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			if time.Since(t0) > patienceTime {
				return
			}
			o := &Obl{Func: l.o.Func, Name: l.o.Name, Props: l.o.Props, Goal: l.o.Goal, NFacts: l.o.NFacts}
			solveAll(l.name, l.x.facts, []*Obl{o}, nil, timeoutMS, l.x.factInv)
			if o.Status == "proved" {
				l.rep.Status, l.rep.Solver, l.rep.Msg, l.rep.Model = o.Status, "again:"+o.Solver, "", ""
			}
			l.rep.Time += o.Time
		}()
	}
	wg.Wait()
}
