package util

import (
	"common/verifrt"
	"errors"
)

var zzErrA = errors.New("a")
var zzErrB = errors.New("b")

// Whatever the interleaving of workers and waiter, an error delivered before the group is done is what
// WaitUntilError returns; without a delivered error it returns nil after every worker has finished.
//
//gosym:harness C06 quick=60s thorough=600s native=stress
func VerifC06Wait() {
	workers := 1 + verifrt.Choice("workers", verifrt.Bound("workers", 2, 3))
	fail := make([]int, workers)
	any := false
	for i := range fail {
		fail[i] = verifrt.Choice("fail", 3) // 0 ok, 1 Error, 2 panic
		any = any || fail[i] != 0
	}
	verifrt.Schedules(verifrt.Bound("preemptions bound", 2, 3))
	dg := NewDoneGroup()
	finished := 0
	for i := 0; i < workers; i++ {
		dg.Todo()
		go func(f int) {
			defer dg.Done()
			finished++
			switch f {
			case 1:
				dg.Error(zzErrA)
			case 2:
				panic("boom")
			}
		}(fail[i])
	}
	err := dg.WaitUntilError()
	if any {
		verifrt.Assert(err != nil, "an error delivered by a worker before it finished is returned by WaitUntilError")
		verifrt.Reach("error")
	} else {
		verifrt.Assert(err == nil, "no error is returned when no worker failed")
		verifrt.Assert(finished == workers, "WaitUntilError returns nil only after every worker has finished")
		verifrt.Reach("ok")
	}
	verifrt.EndSchedules()
}

// LimitDoneGroup admits at most max workers at a time and loses neither errors nor panics of its workers.
//
//gosym:harness C06 quick=60s thorough=600s native=stress
func VerifC06Limit() {
	workers := 2
	limit := 1 + verifrt.Choice("limit", 2)
	fail := make([]int, workers)
	any := false
	for i := range fail {
		fail[i] = verifrt.Choice("fail", 3)
		any = any || fail[i] != 0
	}
	verifrt.Schedules(verifrt.Bound("preemptions bound", 1, 2))
	dg := LimitDoneGroup(limit)
	running, peak, finished := 0, 0, 0
	for i := 0; i < workers; i++ {
		dg.Todo()
		go func(f int) {
			defer dg.Done()
			running++
			if running > peak {
				peak = running
			}
			zzYield()
			running--
			finished++
			switch f {
			case 1:
				dg.Error(zzErrA)
			case 2:
				panic("boom")
			}
		}(fail[i])
	}
	err := dg.WaitUntilError()
	verifrt.Assert(peak <= limit, "a limited group never runs more workers than its limit")
	if any {
		verifrt.Assert(err != nil, "an error or panic of a worker of a limited group is returned by WaitUntilError")
		verifrt.Reach("error")
	} else {
		verifrt.Assert(err == nil && finished == workers, "a limited group without failure is done only after every worker finished")
		verifrt.Reach("ok")
	}
	verifrt.EndSchedules()
}

func zzYield() {
	ch := make(chan struct{}, 1)
	ch <- struct{}{}
	<-ch
}
