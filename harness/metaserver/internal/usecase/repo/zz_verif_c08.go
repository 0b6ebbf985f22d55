package repo

import "common/verifrt"

// Any sequence of operations leaves exactly the promised records readable, directly, by hash, by
// unique id, in summaries and in lists, and every operation answers as promised.
//
//gosym:with metaserver/internal/usecase/repo/zz_verif_support.go
//gosym:with metaserver/internal/usecase/repo/zz_verif_drive.go
//gosym:harness C08 quick=90s thorough=800s
func VerifC08Ops() {
	w := newZzWorld(false, false)
	w.setup()
	for i := verifrt.Bound("operations", 2, 3); i > 0; i-- {
		w.step(false)
	}
	w.checkAll()
	verifrt.Reach("end")
}

// The same through the repository that applies logs in batches.
//
//gosym:harness C08 quick=90s thorough=800s
func VerifC08Batch() {
	w := newZzWorld(false, true)
	w.setup()
	for i := verifrt.Bound("operations", 2, 3); i > 0; i-- {
		w.step(false)
	}
	w.checkAll()
	verifrt.Reach("end")
}

// Moving a shard changes that shard of every version with the hash, and nothing else.
//
//gosym:harness C08 quick=90s thorough=800s
func VerifC08Locate() {
	w := newZzWorld(verifrt.Choice("cache", 2) == 1, false)
	w.setup()
	if verifrt.Choice("more", 2) == 1 {
		w.step(true)
	}
	w.checkAll()
	w.updateLocate([]string{"h1", "h2"}[verifrt.Choice("moved", 2)], verifrt.Choice("index", 4)-1)
	w.checkAll()
	verifrt.Reach("end")
}
