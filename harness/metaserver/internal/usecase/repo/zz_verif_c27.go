package repo

import "common/verifrt"

// With a cache that keeps everything, what is read after any sequence of writes and reads is what was
// last written; reading twice gives the same.
//
//gosym:with metaserver/internal/usecase/repo/zz_verif_support.go
//gosym:with metaserver/internal/usecase/repo/zz_verif_drive.go
//gosym:harness C27 quick=90s thorough=800s
func VerifC27Meta() {
	w := newZzWorld(true, false)
	w.setup()
	if verifrt.Choice("warm", 2) == 1 {
		w.cache.m = map[string][]byte{}
		w.checkAll()
	}
	for i := verifrt.Bound("operations", 2, 2); i > 0; i-- {
		w.step(true)
	}
	w.checkAll()
	w.checkAll()
	verifrt.Reach("end")
}

// The same when the writes are applied in batches from the raft log.
//
//gosym:harness C27 quick=90s thorough=800s
func VerifC27Batch() {
	w := newZzWorld(true, false)
	w.setup()
	w.checkAll()
	w.w = NewBatchRepo(w.st, NewMetadataCacheRepo(w.cache))
	for i := verifrt.Bound("operations", 1, 2); i > 0; i-- {
		w.step(true)
	}
	w.checkAll()
	w.checkAll()
	verifrt.Reach("end")
}
