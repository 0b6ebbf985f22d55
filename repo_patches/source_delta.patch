From 02f95c68e7feb5b3227960a6928a81d931928198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:34 +0000
Subject: [PATCH 01/97] fix: recovering a panic only logs it instead of
 panicking again

---
 src/common/graceful/recover.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/graceful/recover.go b/src/common/graceful/recover.go
index 32cdec0..162595b 100644
--- a/src/common/graceful/recover.go
+++ b/src/common/graceful/recover.go
@@ -19,7 +19,7 @@ func Recover(fn ...func(msg string)) {
 }
 
 func PrintStacks(msg any) {
-	logger.Panicf("%s\n%s", msg, GetStacks())
+	logger.Errorf("%s\n%s", msg, GetStacks())
 }
 
 func GetStacks() string {
-- 
2.43.0


From c42e665513001bbbd97f27d20d2a7f0c982f7af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:34 +0000
Subject: [PATCH 02/97] fix: DoneGroup never loses an error or panic of a
 finished worker

---
 src/common/util/done_group.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/common/util/done_group.go b/src/common/util/done_group.go
index e9318c4..587aa03 100644
--- a/src/common/util/done_group.go
+++ b/src/common/util/done_group.go
@@ -49,6 +49,11 @@ func NewDoneGroup() DoneGroup {
 
 // Done equals to WaitGroup Done() but recover and call Error() on panic
 func (d *doneGroup) Done() {
+	// recover panic of calling goroutine. Must deliver it before leaving the group or the waiter may miss it
+	if err := recover(); err != nil {
+		graceful.PrintStacks(err)
+		d.Error(errors.New(fmt.Sprint(err)))
+	}
 	// recover panic from d.WaitGroup.Done()
 	defer func() {
 		if err := recover(); err != nil {
@@ -57,11 +62,6 @@ func (d *doneGroup) Done() {
 		}
 	}()
 	d.WaitGroup.Done()
-	// recover panic of calling goroutine
-	if err := recover(); err != nil {
-		graceful.PrintStacks(err)
-		d.Error(errors.New(fmt.Sprint(err)))
-	}
 }
 
 // Todo equals to wg.Add(1)
@@ -119,7 +119,13 @@ func (d *doneGroup) Close() {
 func (d *doneGroup) WaitUntilError() error {
 	select {
 	case <-d.WaitDone():
-		return nil
+		// both may be ready at the same time: an error delivered before the last Done() must not be lost
+		select {
+		case e := <-d.WaitError():
+			return e
+		default:
+			return nil
+		}
 	case e := <-d.WaitError():
 		return e
 	}
@@ -141,13 +147,13 @@ func (ldg *limitDoneGroup) Todo() {
 }
 
 func (ldg *limitDoneGroup) Done() {
-	ldg.DoneGroup.Done()
-	<-ldg.limitChan
 	// recover panic of calling goroutine
 	if err := recover(); err != nil {
 		graceful.PrintStacks(err)
 		ldg.Error(errors.New(fmt.Sprint(err)))
 	}
+	ldg.DoneGroup.Done()
+	<-ldg.limitChan
 }
 
 func (ldg *limitDoneGroup) Close() {
-- 
2.43.0


From 5c0373010ac998928215a786a2ca95a9b7155ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:26 +0000
Subject: [PATCH 03/97] fix: a data size that overflows 64 bits is rejected

---
 src/common/datasize/datasize.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common/datasize/datasize.go b/src/common/datasize/datasize.go
index f60bbe1..f76fa5b 100644
--- a/src/common/datasize/datasize.go
+++ b/src/common/datasize/datasize.go
@@ -106,6 +106,9 @@ func Parse(s string) (DataSize, error) {
 		if IsExceedLimit(num, u) {
 			return 0, fmt.Errorf("data size '%dPB' exceed limit 1024PB", num)
 		}
+		if uint64(num) > math.MaxUint64/u.Byte() {
+			return 0, fmt.Errorf("data size '%s' overflows", s)
+		}
 		return DataSize(num) * u, nil
 	}
 	return 0, fmt.Errorf("data size doesn't support unit '%v'", res[0][2])
-- 
2.43.0


From 086d4f3822ae863711a11217a9b9d57b6d841415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:26 +0000
Subject: [PATCH 04/97] fix: malformed Range headers are rejected instead of
 read as position 0

---
 src/common/request/range.go | 38 ++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/common/request/range.go b/src/common/request/range.go
index 8d8a94a..944c26f 100644
--- a/src/common/request/range.go
+++ b/src/common/request/range.go
@@ -1,7 +1,7 @@
 package request
 
 import (
-	"common/util"
+	"strconv"
 	"strings"
 )
 
@@ -14,7 +14,7 @@ type Range struct {
 	Bytes []Int64Tuple
 }
 
-//GetFirstBytes return first element
+// GetFirstBytes return first element
 func (rg *Range) GetFirstBytes() (Int64Tuple, bool) {
 	if rg.Bytes != nil && len(rg.Bytes) > 0 {
 		return rg.Bytes[0], true
@@ -22,36 +22,52 @@ func (rg *Range) GetFirstBytes() (Int64Tuple, bool) {
 	return Int64Tuple{}, false
 }
 
-//FirstBytes if contained, return first element else panic
+// FirstBytes if contained, return first element else panic
 func (rg *Range) FirstBytes() Int64Tuple {
 	tp, _ := rg.GetFirstBytes()
 	return tp
 }
 
-//ConvertFrom must start with bytes=
+// ConvertFrom must start with bytes=
 func (rg *Range) ConvertFrom(str string) bool {
 	if str == "" {
 		return false
 	}
-	_, str, ok := strings.Cut(str, "bytes=")
-	if !ok {
+	if !strings.HasPrefix(str, "bytes=") {
 		return false
 	}
+	str = str[len("bytes="):]
 	tuples := strings.Split(str, ",")
 	if len(tuples) == 0 {
 		return false
 	}
-	rg.Bytes = make([]Int64Tuple, 0, len(tuples))
+	bytes := make([]Int64Tuple, 0, len(tuples))
+	var ok bool
 	for _, t := range tuples {
 		v := strings.Split(strings.TrimSpace(t), "-")
+		if len(v) > 2 {
+			return false
+		}
 		var tp Int64Tuple
-		if len(v) > 0 {
-			tp.First = util.ToInt64(v[0])
+		if tp.First, ok = parsePosition(v[0]); !ok {
+			return false
 		}
 		if len(v) > 1 {
-			tp.Second = util.ToInt64(v[1])
+			if tp.Second, ok = parsePosition(v[1]); !ok {
+				return false
+			}
 		}
-		rg.Bytes = append(rg.Bytes, tp)
+		bytes = append(bytes, tp)
 	}
+	rg.Bytes = bytes
 	return true
 }
+
+// parsePosition parses a byte position, which is 0 if omitted
+func parsePosition(str string) (int64, bool) {
+	if str == "" {
+		return 0, true
+	}
+	i, err := strconv.ParseUint(str, 10, 63)
+	return int64(i), err == nil
+}
-- 
2.43.0


From a16ac1ecc402e9c810348316ed969cafe73c2f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:26 +0000
Subject: [PATCH 05/97] fix: SafeChunk takes a chunk counted from the first
 element and an empty slice

---
 src/common/util/math/math.go     | 7 ++++---
 src/common/util/slices/slices.go | 4 ++++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/common/util/math/math.go b/src/common/util/math/math.go
index 6ab1218..23265e4 100644
--- a/src/common/util/math/math.go
+++ b/src/common/util/math/math.go
@@ -3,10 +3,11 @@ package math
 import "math"
 
 func LogicMod(a, b int) int {
-	if a < 0 || b < 0 {
-		return b + (a % b)
+	m := a % b
+	if m != 0 && (a < 0 || b < 0) {
+		return b + m
 	}
-	return a % b
+	return m
 }
 
 func MinNumber[T Number](i, j T) T {
diff --git a/src/common/util/slices/slices.go b/src/common/util/slices/slices.go
index 64fa2ed..98da680 100644
--- a/src/common/util/slices/slices.go
+++ b/src/common/util/slices/slices.go
@@ -96,6 +96,10 @@ func SafeChunk[T any](arr []T, start, end int) []T {
 	// a mod b = a mod (-b)
 	// a mod b = - (-a mod b)
 
+	if len(arr) == 0 {
+		return arr
+	}
+
 	if start < 0 {
 		start = math.LogicMod(start, len(arr))
 	} else if start >= len(arr) {
-- 
2.43.0


From d63002f4d38377704dd9335b09562173a30e76cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:26 +0000
Subject: [PATCH 06/97] fix: PagingOffset has no page for negative page numbers
 or sizes

---
 src/common/util/util.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/common/util/util.go b/src/common/util/util.go
index 50323fc..ecab246 100644
--- a/src/common/util/util.go
+++ b/src/common/util/util.go
@@ -255,16 +255,16 @@ func DecodeArrayMsgp[T msgp.Unmarshaler](data []byte, constructor func() T) (arr
 }
 
 func PagingOffset(page, size, total int) (int, int, bool) {
-	if page == 0 {
+	if page <= 0 || size <= 0 || page-1 > total/size {
 		return 0, 0, false
 	}
 	offset := (page - 1) * size
 	if offset >= total {
 		return 0, 0, false
 	}
-	end := offset + size
-	if end > total {
-		end = total
+	end := total
+	if size < total-offset {
+		end = offset + size
 	}
 	return offset, end, true
 }
-- 
2.43.0


From 2d23997e6cc8a7b3f971335da51c84ecd5476484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:31 +0000
Subject: [PATCH 07/97] fix: MultiReader reports a failing reader and
 LimitReader takes any buffer size

---
 src/common/system/disk/aligend_reader.go | 4 ++--
 src/common/system/disk/multi_reader.go   | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common/system/disk/aligend_reader.go b/src/common/system/disk/aligend_reader.go
index 5e24aa7..5cb2e29 100644
--- a/src/common/system/disk/aligend_reader.go
+++ b/src/common/system/disk/aligend_reader.go
@@ -55,8 +55,8 @@ func (l *AlignedLimitedReader) Read(p []byte) (n int, err error) {
 		return 0, io.EOF
 	}
 	// aligned and reduce buffer for last read
-	if int64(len(p)) > l.N {
-		p = p[0:AlignedSize64(l.N)]
+	if size := AlignedSize64(l.N); int64(len(p)) > size {
+		p = p[0:size]
 	}
 	n, err = l.R.Read(p)
 	// ignore aligned part and return actual size of data on last reading
diff --git a/src/common/system/disk/multi_reader.go b/src/common/system/disk/multi_reader.go
index 3956cc1..49db457 100644
--- a/src/common/system/disk/multi_reader.go
+++ b/src/common/system/disk/multi_reader.go
@@ -40,6 +40,8 @@ func (mr *multiReader) Read(p []byte) (n int, err error) {
 			// after performing flatten (Issue 18232).
 			mr.readers[0] = eofReader{} // permit earlier GC
 			mr.readers = mr.readers[1:]
+		} else if err != nil {
+			return
 		}
 		if n >= bufSize {
 			if err == io.EOF && len(mr.readers) > 0 {
-- 
2.43.0


From 76947ebd91b17bc4e8e75f29e15ea5ccc551dd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 08/97] fix: decoding a truncated list is an error instead of a
 panic

---
 src/common/util/util.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/common/util/util.go b/src/common/util/util.go
index ecab246..c773fca 100644
--- a/src/common/util/util.go
+++ b/src/common/util/util.go
@@ -239,12 +239,20 @@ func EncodeArrayMsgp[T msgp.Marshaler](arr []T) (res []byte, err error) {
 func DecodeArrayMsgp[T msgp.Unmarshaler](data []byte, constructor func() T) (arr []T, err error) {
 	for cur := 0; cur < len(data); {
 		item := constructor()
+		if len(data)-cur < binary.MaxVarintLen32 {
+			err = errors.New("decode array msgp: truncated size")
+			return
+		}
 		size, n := binary.Uvarint(data[cur : cur+binary.MaxVarintLen32])
 		if n <= 0 {
 			err = errors.New("decode array msgp: format err")
 			return
 		}
 		cur += binary.MaxVarintLen32
+		if size > uint64(len(data)-cur) {
+			err = errors.New("decode array msgp: truncated item")
+			return
+		}
 		if _, err = item.UnmarshalMsg(data[cur : cur+int(size)]); err != nil {
 			return
 		}
-- 
2.43.0


From 658ce4798d625da207171885938436843b0c8960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:35 +0000
Subject: [PATCH 09/97] fix: the unique-id index is keyed by the unique id, not
 the hash

---
 src/metaserver/internal/usecase/logic/metadata_logic.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/metaserver/internal/usecase/logic/metadata_logic.go b/src/metaserver/internal/usecase/logic/metadata_logic.go
index bdeec02..b74dfa7 100644
--- a/src/metaserver/internal/usecase/logic/metadata_logic.go
+++ b/src/metaserver/internal/usecase/logic/metadata_logic.go
@@ -159,7 +159,7 @@ func AddVerWithSequence(name string, data *msg.Version) TxFunc {
 				return err
 			}
 			keyStr := util.BytesToStr(key)
-			if err = NewUniqueIdIndex().AddIndex(data.Hash, keyStr)(tx); err != nil {
+			if err = NewUniqueIdIndex().AddIndex(data.UniqueId, keyStr)(tx); err != nil {
 				return err
 			}
 			return NewHashIndexLogic().AddIndex(data.Hash, keyStr)(tx)
@@ -212,7 +212,7 @@ func RemoveVer(name string, ver uint64) TxFunc {
 		if err := NewHashIndexLogic().RemoveIndex(data.Hash, keyStr)(tx); err != nil {
 			return fmt.Errorf("remove hash-index err: %w", err)
 		}
-		if err := NewUniqueIdIndex().RemoveIndex(data.Hash, keyStr)(tx); err != nil {
+		if err := NewUniqueIdIndex().RemoveIndex(data.UniqueId, keyStr)(tx); err != nil {
 			return fmt.Errorf("remove uniqueId-index err: %w", err)
 		}
 		return b.Delete(key)
-- 
2.43.0


From e38b9adbd3b550aa8587805c844bb15cb69f58f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:35 +0000
Subject: [PATCH 10/97] fix: removing metadata or all its versions removes
 their index entries

---
 .../internal/usecase/logic/metadata_logic.go  | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/metaserver/internal/usecase/logic/metadata_logic.go b/src/metaserver/internal/usecase/logic/metadata_logic.go
index b74dfa7..5ca277b 100644
--- a/src/metaserver/internal/usecase/logic/metadata_logic.go
+++ b/src/metaserver/internal/usecase/logic/metadata_logic.go
@@ -287,7 +287,26 @@ func CreateVersionBucket(tx *bolt.Tx, name string) error {
 	return nil
 }
 
+// RemoveVersionBucket removes all versions of given name and their indexes
 func RemoveVersionBucket(tx *bolt.Tx, name string) error {
+	if b := GetVersionBucket(tx, name); b != nil {
+		err := b.ForEach(func(k, v []byte) error {
+			var data msg.Version
+			if err := util.DecodeMsgp(&data, v); err != nil {
+				return err
+			}
+			if err := NewHashIndexLogic().RemoveIndex(data.Hash, string(k))(tx); err != nil {
+				return fmt.Errorf("remove hash-index err: %w", err)
+			}
+			if err := NewUniqueIdIndex().RemoveIndex(data.UniqueId, string(k))(tx); err != nil {
+				return fmt.Errorf("remove uniqueId-index err: %w", err)
+			}
+			return nil
+		})
+		if err != nil {
+			return err
+		}
+	}
 	return getVersionRoot(tx).DeleteBucket(util.StrToBytes(name))
 }
 
-- 
2.43.0


From e3971f2a014794987ee8373203d314d3cac3529f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:08 +0000
Subject: [PATCH 11/97] fix: a page of versions has the requested size

---
 src/metaserver/internal/usecase/service/metadata_service.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metaserver/internal/usecase/service/metadata_service.go b/src/metaserver/internal/usecase/service/metadata_service.go
index 3435f96..9691405 100644
--- a/src/metaserver/internal/usecase/service/metadata_service.go
+++ b/src/metaserver/internal/usecase/service/metadata_service.go
@@ -172,7 +172,7 @@ func (m *MetadataService) ListVersions(name string, page int, size int) ([]*msg.
 	}
 	// start at 1
 	start := (page-1)*size + 1
-	return m.repo.ListVersions(name, start, start+size)
+	return m.repo.ListVersions(name, start, start+size-1)
 }
 
 func (m *MetadataService) ListMetadata(prefix string, size int) ([]*msg.Metadata, int, error) {
-- 
2.43.0


From 9c734c5211cfb75202626c330e5f698864868012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:08 +0000
Subject: [PATCH 12/97] fix: versions are ordered by their number, also from
 the tenth version on

---
 .../internal/usecase/logic/metadata_logic.go  | 28 +++++++-----
 .../internal/usecase/repo/metadata_repo.go    | 43 ++++++-------------
 2 files changed, 31 insertions(+), 40 deletions(-)

diff --git a/src/metaserver/internal/usecase/logic/metadata_logic.go b/src/metaserver/internal/usecase/logic/metadata_logic.go
index 5ca277b..675b44a 100644
--- a/src/metaserver/internal/usecase/logic/metadata_logic.go
+++ b/src/metaserver/internal/usecase/logic/metadata_logic.go
@@ -8,6 +8,7 @@ import (
 	"errors"
 	"fmt"
 	. "metaserver/internal/usecase"
+	"sort"
 
 	"github.com/google/uuid"
 	bolt "go.etcd.io/bbolt"
@@ -109,16 +110,9 @@ func GetExtra(id string, extra *msg.Extra) TxFunc {
 			return ErrNotFound
 		}
 		extra.Total = b.Stats().KeyN
-		cur := b.Cursor()
-		// first key
-		k, _ := cur.First()
-		if idx := bytes.LastIndexByte(k, Sep[0]); idx > 0 {
-			extra.FirstVersion = util.ToInt(util.BytesToStr(k[idx+1:]))
-		}
-		// last key
-		k, _ = cur.Last()
-		if idx := bytes.LastIndexByte(k, Sep[0]); idx > 0 {
-			extra.LastVersion = util.ToInt(util.BytesToStr(k[idx+1:]))
+		if seqs := VersionSequences(b); len(seqs) > 0 {
+			extra.FirstVersion = int(seqs[0])
+			extra.LastVersion = int(seqs[len(seqs)-1])
 		}
 		return nil
 	}
@@ -335,6 +329,20 @@ func GetVersionBucket(tx *bolt.Tx, name string) *bolt.Bucket {
 	return nil
 }
 
+// VersionSequences returns the sequences of all versions in ascending order.
+// Keys are not zero-padded, so their order in bucket is not the order of sequences.
+func VersionSequences(bucket *bolt.Bucket) []uint64 {
+	var seqs []uint64
+	_ = bucket.ForEach(func(k, _ []byte) error {
+		if idx := bytes.LastIndexByte(k, Sep[0]); idx >= 0 {
+			seqs = append(seqs, util.ToUint64(string(k[idx+1:])))
+		}
+		return nil
+	})
+	sort.Slice(seqs, func(i, j int) bool { return seqs[i] < seqs[j] })
+	return seqs
+}
+
 func getVer(bucket *bolt.Bucket, id string, ver uint64, dest *msg.Version) error {
 	if bucket == nil {
 		return ErrNotFound
diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index 2a23d7d..f4f6b15 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -7,8 +7,8 @@ import (
 	"common/logs"
 	"common/proto/msg"
 	"common/util"
+	"common/util/math"
 	"errors"
-	"fmt"
 	"io"
 	"metaserver/internal/usecase"
 	"metaserver/internal/usecase/db"
@@ -184,15 +184,11 @@ func (m *MetadataRepo) GetFirstVersionNumber(name string) uint64 {
 	var fst uint64 = 1
 	if err := m.MainDB.View(func(tx *bolt.Tx) error {
 		if buk := logic.GetVersionBucket(tx, name); buk != nil {
-			k, v := buk.Cursor().First()
-			if k == nil || v == nil {
+			seqs := logic.VersionSequences(buk)
+			if len(seqs) == 0 {
 				return usecase.ErrNotFound
 			}
-			idx := bytes.LastIndexByte(k, logic.Sep[0])
-			if idx < 0 {
-				return usecase.ErrNotFound
-			}
-			fst = util.ToUint64(util.BytesToStr(k[idx+1:]))
+			fst = seqs[0]
 		}
 		return nil
 	}); err != nil {
@@ -205,15 +201,11 @@ func (m *MetadataRepo) GetLastVersionNumber(name string) uint64 {
 	var max uint64 = 1
 	if err := m.MainDB.View(func(tx *bolt.Tx) error {
 		if buk := logic.GetVersionBucket(tx, name); buk != nil {
-			k, v := buk.Cursor().Last()
-			if k == nil || v == nil {
+			seqs := logic.VersionSequences(buk)
+			if len(seqs) == 0 {
 				return usecase.ErrNotFound
 			}
-			idx := bytes.LastIndexByte(k, logic.Sep[0])
-			if idx < 0 {
-				return usecase.ErrNotFound
-			}
-			max = util.ToUint64(util.BytesToStr(k[idx+1:]))
+			max = seqs[len(seqs)-1]
 		}
 		return nil
 	}); err != nil {
@@ -237,32 +229,23 @@ func (m *MetadataRepo) GetVersion(name string, ver uint64) (*msg.Version, error)
 	return data, nil
 }
 
+// ListVersions lists versions from the start-th to the end-th (both included and start at 1) in order of sequence
 func (m *MetadataRepo) ListVersions(name string, start int, end int) (lst []*msg.Version, total int, err error) {
-	size := end - start + 1
-	lst, _, err = m.Cache.ListVersions(name, start, end)
-	if util.InstanceOf[PartlyMatchedErr](err) {
-		start = err.(PartlyMatchedErr).Last()
-	} else if err != nil {
-		return
-	}
 	err = m.MainDB.View(func(tx *bolt.Tx) error {
 		buk := logic.GetVersionBucket(tx, name)
 		if buk == nil {
 			return usecase.ErrNotFound
 		}
-		c := buk.Cursor()
-
-		min := util.StrToBytes(fmt.Sprint(name, logic.Sep, start))
-
-		for k, v := c.Seek(min); k != nil && len(lst) < size; k, v = c.Next() {
+		seqs := logic.VersionSequences(buk)
+		// record total
+		total = len(seqs)
+		for i := math.MaxInt(start, 1); i <= end && i <= total; i++ {
 			data := &msg.Version{}
-			if err := util.DecodeMsgp(data, v); err != nil {
+			if err := logic.GetVer(name, seqs[i-1], data)(tx); err != nil {
 				return err
 			}
 			lst = append(lst, data)
 		}
-		// record total
-		total = buk.Stats().KeyN
 		return nil
 	})
 	return
-- 
2.43.0


From 5ec7ce6d741070b8af956157226560c7bf975324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:08 +0000
Subject: [PATCH 13/97] fix: values read from the db are copied before the
 transaction ends

---
 src/metaserver/internal/usecase/logic/bucket_logic.go       | 6 ++++--
 src/metaserver/internal/usecase/logic/hash_index_logic.go   | 2 +-
 .../internal/usecase/logic/unique_id_index_logic.go         | 2 +-
 src/metaserver/internal/usecase/service/hashslot_service.go | 2 +-
 4 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/metaserver/internal/usecase/logic/bucket_logic.go b/src/metaserver/internal/usecase/logic/bucket_logic.go
index 2f14491..7b16171 100644
--- a/src/metaserver/internal/usecase/logic/bucket_logic.go
+++ b/src/metaserver/internal/usecase/logic/bucket_logic.go
@@ -52,10 +52,12 @@ func (b *BucketCrud) GetBytes(name string, bt *[]byte) usecase.TxFunc {
 		if err != nil {
 			return err
 		}
-		*bt = root.Get(util.StrToBytes(name))
-		if *bt == nil {
+		v := root.Get(util.StrToBytes(name))
+		if v == nil {
 			return usecase.ErrNotFound
 		}
+		// v is not valid after tx
+		*bt = append([]byte{}, v...)
 		return nil
 	}
 }
diff --git a/src/metaserver/internal/usecase/logic/hash_index_logic.go b/src/metaserver/internal/usecase/logic/hash_index_logic.go
index 1e3bd31..45b30d4 100644
--- a/src/metaserver/internal/usecase/logic/hash_index_logic.go
+++ b/src/metaserver/internal/usecase/logic/hash_index_logic.go
@@ -50,7 +50,7 @@ func (HashIndexLogic) GetIndex(hash string, res *[]string) usecase.TxFunc {
 			return nil
 		}
 		err := hashBuk.ForEach(func(k, v []byte) error {
-			*res = append(*res, util.BytesToStr(k))
+			*res = append(*res, string(k)) // k is not valid after tx
 			return nil
 		})
 		return err
diff --git a/src/metaserver/internal/usecase/logic/unique_id_index_logic.go b/src/metaserver/internal/usecase/logic/unique_id_index_logic.go
index 726a54c..e40e4a2 100644
--- a/src/metaserver/internal/usecase/logic/unique_id_index_logic.go
+++ b/src/metaserver/internal/usecase/logic/unique_id_index_logic.go
@@ -50,7 +50,7 @@ func (UniqueIdIndex) GetIndex(uniqueId string, res *[]string) usecase.TxFunc {
 			return nil
 		}
 		err := uniqueIdBuk.ForEach(func(k, v []byte) error {
-			*res = append(*res, util.BytesToStr(k))
+			*res = append(*res, string(k)) // k is not valid after tx
 			return nil
 		})
 		return err
diff --git a/src/metaserver/internal/usecase/service/hashslot_service.go b/src/metaserver/internal/usecase/service/hashslot_service.go
index 9e39cd9..55ace24 100644
--- a/src/metaserver/internal/usecase/service/hashslot_service.go
+++ b/src/metaserver/internal/usecase/service/hashslot_service.go
@@ -347,7 +347,7 @@ func (h *HashSlotService) migrateBuckets(stream pb.HashSlot_StreamingReceiveClie
 		if !hashslot.IsSlotInEdges(hashslot.CalcBytesSlot(k), edges) {
 			return nil
 		}
-		migKeys = append(migKeys, k)
+		migKeys = append(migKeys, append([]byte{}, k...)) // k is not valid after tx
 		return nil
 	})
 	total := len(migKeys)
-- 
2.43.0


From 24e32477ee21293afc11e7a49101cb5482c77cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:11 +0000
Subject: [PATCH 14/97] fix: iterating the metadata of an empty server or a
 missing object finds nothing instead of panicking

---
 .../internal/usecase/logic/metadata_logic.go         |  3 +++
 .../internal/usecase/repo/metadata_repo.go           | 12 ++++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/metaserver/internal/usecase/logic/metadata_logic.go b/src/metaserver/internal/usecase/logic/metadata_logic.go
index 675b44a..ab0a5f0 100644
--- a/src/metaserver/internal/usecase/logic/metadata_logic.go
+++ b/src/metaserver/internal/usecase/logic/metadata_logic.go
@@ -23,6 +23,9 @@ const (
 func ForeachKeys(fn func(string) bool) TxFunc {
 	return func(tx *bolt.Tx) error {
 		root := GetMetadataBucket(tx)
+		if root == nil {
+			return ErrNotFound
+		}
 		return root.ForEach(func(k, v []byte) error {
 			if !fn(string(k)) {
 				return ErrNotFound
diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index f4f6b15..18a53bd 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -312,7 +312,11 @@ func (m *MetadataRepo) Restore(r io.Reader) (err error) {
 
 func (m *MetadataRepo) ForeachVersionBytes(name string, fn func([]byte) bool) {
 	_ = m.MainDB.View(func(tx *bolt.Tx) error {
-		_ = logic.GetVersionBucket(tx, name).ForEach(func(k, v []byte) error {
+		buk := logic.GetVersionBucket(tx, name)
+		if buk == nil {
+			return usecase.ErrNotFound
+		}
+		_ = buk.ForEach(func(k, v []byte) error {
 			if !fn(v) {
 				return usecase.ErrNotFound
 			}
@@ -325,7 +329,11 @@ func (m *MetadataRepo) ForeachVersionBytes(name string, fn func([]byte) bool) {
 func (m *MetadataRepo) GetMetadataBytes(key string) ([]byte, error) {
 	var res []byte
 	err := m.MainDB.View(func(tx *bolt.Tx) error {
-		v := logic.GetMetadataBucket(tx).Get(util.StrToBytes(key))
+		root := logic.GetMetadataBucket(tx)
+		if root == nil {
+			return usecase.ErrNotFound
+		}
+		v := root.Get(util.StrToBytes(key))
 		if v == nil {
 			return usecase.ErrNotFound
 		}
-- 
2.43.0


From 95e7eaf7ecf5603a465ebd91a1f2b7e053c59571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:58 +0000
Subject: [PATCH 15/97] fix: a write updates the metadata cache before it
 returns, in the order of writes

---
 .../internal/usecase/repo/bucket_repo.go      | 45 ++++-------
 .../internal/usecase/repo/metadata_repo.go    | 75 ++++++-------------
 2 files changed, 37 insertions(+), 83 deletions(-)

diff --git a/src/metaserver/internal/usecase/repo/bucket_repo.go b/src/metaserver/internal/usecase/repo/bucket_repo.go
index 22a8b3b..761e164 100644
--- a/src/metaserver/internal/usecase/repo/bucket_repo.go
+++ b/src/metaserver/internal/usecase/repo/bucket_repo.go
@@ -1,7 +1,6 @@
 package repo
 
 import (
-	"common/graceful"
 	"common/proto/msg"
 	"common/util"
 	"errors"
@@ -30,46 +29,35 @@ func (b *BucketRepo) Get(name string) (res *msg.Bucket, err error) {
 	}
 	res = new(msg.Bucket)
 	err = b.db.View(b.logic.Get(name, res))
-	go func() {
-		defer graceful.Recover()
-		if err == nil {
-			util.LogErrWithPre("bucket cache", b.cache.Create(res))
-		}
-	}()
+	if err == nil {
+		util.LogErrWithPre("bucket cache", b.cache.Create(res))
+	}
 	return
 }
 
 func (b *BucketRepo) Create(bucket *msg.Bucket) (err error) {
 	defer func() {
-		go func() {
-			defer graceful.Recover()
-			if err == nil {
-				util.LogErrWithPre("bucket cache", b.cache.Create(bucket))
-			}
-		}()
+		if err == nil {
+			util.LogErrWithPre("bucket cache", b.cache.Create(bucket))
+		}
 	}()
 	return b.db.Update(b.logic.Create(bucket))
 }
 
 func (b *BucketRepo) Remove(name string) (err error) {
 	defer func() {
-		go func() {
-			defer graceful.Recover()
-			if err == nil {
-				util.LogErrWithPre("bucket cache", b.cache.Remove(name))
-			}
-		}()
+		if err == nil {
+			util.LogErrWithPre("bucket cache", b.cache.Remove(name))
+		}
 	}()
 	return b.db.Update(b.logic.Delete(name))
 }
 
 func (b *BucketRepo) Update(bucket *msg.Bucket) (err error) {
 	defer func() {
-		go func() {
-			if err == nil {
-				util.LogErrWithPre("bucket cache", b.cache.Update(bucket))
-			}
-		}()
+		if err == nil {
+			util.LogErrWithPre("bucket cache", b.cache.Update(bucket))
+		}
 	}()
 
 	return b.db.Update(b.logic.Update(bucket))
@@ -83,12 +71,9 @@ func (b *BucketRepo) List(prefix string, size int) ([]*msg.Bucket, int, error) {
 	if errors.Is(err, usecase.ErrNotFound) {
 		err = nil
 	}
-	go func() {
-		defer graceful.Recover()
-		for _, item := range list {
-			util.LogErrWithPre("bucket cache", b.cache.Create(item))
-		}
-	}()
+	for _, item := range list {
+		util.LogErrWithPre("bucket cache", b.cache.Create(item))
+	}
 	return list, total, err
 }
 
diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index 18a53bd..68d605a 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -3,7 +3,6 @@ package repo
 import (
 	"bytes"
 	"common/cst"
-	"common/graceful"
 	"common/logs"
 	"common/proto/msg"
 	"common/util"
@@ -36,11 +35,8 @@ func (m *MetadataRepo) AddMetadata(id string, data *msg.Metadata) error {
 	if err := m.MainDB.Update(logic.AddMeta(id, data)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.AddMetadata(id, data)
-		util.LogErrWithPre("metadata cache", err)
-	}()
+	err := m.Cache.AddMetadata(id, data)
+	util.LogErrWithPre("metadata cache", err)
 	return nil
 }
 
@@ -51,11 +47,8 @@ func (m *MetadataRepo) UpdateMetadata(name string, data *msg.Metadata) error {
 	if err := m.MainDB.Update(logic.UpdateMeta(name, data)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.UpdateMetadata(name, data)
-		util.LogErrWithPre("metadata cache", err)
-	}()
+	err := m.Cache.UpdateMetadata(name, data)
+	util.LogErrWithPre("metadata cache", err)
 	return nil
 }
 
@@ -64,13 +57,10 @@ func (m *MetadataRepo) RemoveMetadata(name string) error {
 	if err := m.MainDB.Update(logic.RemoveMeta(name)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		util.LogErrWithPre("metadata cache", m.Cache.RemoveMetadata(name))
-		for i := uint64(1); i <= lastVer; i++ {
-			util.LogErrWithPre("metadata cache", m.Cache.RemoveVersion(name, i))
-		}
-	}()
+	util.LogErrWithPre("metadata cache", m.Cache.RemoveMetadata(name))
+	for i := uint64(1); i <= lastVer; i++ {
+		util.LogErrWithPre("metadata cache", m.Cache.RemoveVersion(name, i))
+	}
 	return nil
 }
 
@@ -82,10 +72,7 @@ func (m *MetadataRepo) GetMetadata(id string) (*msg.Metadata, error) {
 	if err := m.MainDB.View(logic.GetMeta(id, data)); err != nil {
 		return nil, err
 	}
-	go func() {
-		defer graceful.Recover()
-		util.LogErrWithPre("add metadata cache", m.Cache.AddMetadata(id, data))
-	}()
+	util.LogErrWithPre("add metadata cache", m.Cache.AddMetadata(id, data))
 	return data, nil
 }
 
@@ -102,11 +89,8 @@ func (m *MetadataRepo) AddVersion(id string, data *msg.Version) error {
 	if err := m.MainDB.Update(logic.AddVer(id, data)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.AddVersion(id, data)
-		util.LogErrWithPre("metadata cache", err)
-	}()
+	err := m.Cache.AddVersion(id, data)
+	util.LogErrWithPre("metadata cache", err)
 	return nil
 }
 
@@ -123,11 +107,8 @@ func (m *MetadataRepo) AddVersionFromRaft(id string, data *msg.Version) error {
 	if err := m.MainDB.Update(logic.AddVerWithSequence(id, data)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.AddVersionFromRaft(id, data)
-		util.LogErrWithPre("metadata cache", err)
-	}()
+	err := m.Cache.AddVersionFromRaft(id, data)
+	util.LogErrWithPre("metadata cache", err)
 	return nil
 }
 
@@ -138,11 +119,8 @@ func (m *MetadataRepo) UpdateVersion(id string, data *msg.Version) error {
 	if err := m.MainDB.Update(logic.UpdateVer(id, data)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.UpdateVersion(id, data)
-		util.LogErrWithPre("metadata cache", err)
-	}()
+	err := m.Cache.UpdateVersion(id, data)
+	util.LogErrWithPre("metadata cache", err)
 	return nil
 }
 
@@ -150,11 +128,8 @@ func (m *MetadataRepo) RemoveVersion(name string, ver uint64) error {
 	if err := m.MainDB.Update(logic.RemoveVer(name, ver)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.RemoveVersion(name, ver)
-		util.LogErrWithPre("metadata cache", err)
-	}()
+	err := m.Cache.RemoveVersion(name, ver)
+	util.LogErrWithPre("metadata cache", err)
 	return nil
 }
 
@@ -170,13 +145,10 @@ func (m *MetadataRepo) RemoveAllVersion(name string) error {
 	}); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		for i := uint64(0); i <= last; i++ {
-			err := m.Cache.RemoveVersion(name, i)
-			util.LogErrWithPre("remove version cache", err)
-		}
-	}()
+	for i := uint64(0); i <= last; i++ {
+		err := m.Cache.RemoveVersion(name, i)
+		util.LogErrWithPre("remove version cache", err)
+	}
 	return nil
 }
 
@@ -222,10 +194,7 @@ func (m *MetadataRepo) GetVersion(name string, ver uint64) (*msg.Version, error)
 	if err := m.MainDB.View(logic.GetVer(name, ver, data)); err != nil {
 		return nil, err
 	}
-	go func() {
-		defer graceful.Recover()
-		util.LogErrWithPre("add metadata cache", m.Cache.AddVersion(name, data))
-	}()
+	util.LogErrWithPre("add metadata cache", m.Cache.AddVersion(name, data))
 	return data, nil
 }
 
-- 
2.43.0


From 78fc75b7af2fcf2adea380487de3a5e24b4f9025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:58 +0000
Subject: [PATCH 16/97] fix: a cached version is not taken for the metadata of
 an object with the same key

---
 .../internal/usecase/repo/metadata_cache_repo.go         | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/metaserver/internal/usecase/repo/metadata_cache_repo.go b/src/metaserver/internal/usecase/repo/metadata_cache_repo.go
index 271d930..420305c 100644
--- a/src/metaserver/internal/usecase/repo/metadata_cache_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_cache_repo.go
@@ -31,7 +31,8 @@ func (pe *partlyErr) Error() string {
 }
 
 const (
-	MetaCachePrefix = "metadata_"
+	MetaCachePrefix    = "metadata_"
+	VersionCachePrefix = "version_"
 )
 
 type MetadataCacheRepo struct {
@@ -58,7 +59,7 @@ func (m *MetadataCacheRepo) GetMetadata(s string) (*msg.Metadata, error) {
 }
 
 func (m *MetadataCacheRepo) GetVersion(s string, u uint64) (*msg.Version, error) {
-	key := fmt.Sprint(MetaCachePrefix, s, logic.Sep, u)
+	key := fmt.Sprint(VersionCachePrefix, s, logic.Sep, u)
 	if bt, ok := m.cache.HasGet(key); ok {
 		var en msg.Version
 		if err := util.DecodeMsgp(&en, bt); err != nil {
@@ -94,7 +95,7 @@ func (m *MetadataCacheRepo) AddMetadata(id string, metadata *msg.Metadata) error
 }
 
 func (m *MetadataCacheRepo) AddVersion(s string, version *msg.Version) error {
-	key := fmt.Sprint(MetaCachePrefix, s, logic.Sep, version.Sequence)
+	key := fmt.Sprint(VersionCachePrefix, s, logic.Sep, version.Sequence)
 	bt, err := util.EncodeMsgp(version)
 	if err != nil {
 		return err
@@ -117,7 +118,7 @@ func (m *MetadataCacheRepo) RemoveMetadata(s string) error {
 }
 
 func (m *MetadataCacheRepo) RemoveVersion(s string, u uint64) error {
-	m.cache.Delete(fmt.Sprint(MetaCachePrefix, s, logic.Sep, u))
+	m.cache.Delete(fmt.Sprint(VersionCachePrefix, s, logic.Sep, u))
 	return nil
 }
 
-- 
2.43.0


From 918b00208734a19938e17c177b8e96d19dbe61d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:01 +0000
Subject: [PATCH 17/97] fix: writes applied from the raft log drop the cached
 records they change

---
 src/metaserver/internal/app/app.go            |  9 ++--
 .../usecase/repo/batch_bucket_repo.go         | 19 +++++--
 .../internal/usecase/repo/batch_meta_repo.go  | 50 ++++++++++++++++---
 3 files changed, 62 insertions(+), 16 deletions(-)

diff --git a/src/metaserver/internal/app/app.go b/src/metaserver/internal/app/app.go
index b21fe17..9f32826 100644
--- a/src/metaserver/internal/app/app.go
+++ b/src/metaserver/internal/app/app.go
@@ -23,17 +23,18 @@ func Run(cfg *config.Config) {
 	pool.InitPool(cfg)
 	defer pool.Close()
 	// init repos
-	metaRepo := repo.NewMetadataRepo(pool.Storage, repo.NewMetadataCacheRepo(pool.Cache))
-	bucketRepo := repo.NewBucketRepo(pool.Storage, repo.NewBucketCacheRepo(pool.Cache))
+	metaCache, bucketCache := repo.NewMetadataCacheRepo(pool.Cache), repo.NewBucketCacheRepo(pool.Cache)
+	metaRepo := repo.NewMetadataRepo(pool.Storage, metaCache)
+	bucketRepo := repo.NewBucketRepo(pool.Storage, bucketCache)
 	// init raft
-	fsm := raftimpl.NewFSM(metaRepo, repo.NewBatchRepo(pool.Storage), bucketRepo, repo.NewBatchBucketRepo(pool.Storage), metaRepo)
+	fsm := raftimpl.NewFSM(metaRepo, repo.NewBatchRepo(pool.Storage, metaCache), bucketRepo, repo.NewBatchBucketRepo(pool.Storage, bucketCache), metaRepo)
 	raftWrapper := raftimpl.NewRaft(util.ServerAddress(cfg.Port), cfg.Cluster, fsm)
 	pool.RaftWrapper = raftWrapper
 	// init services
 	bucketServ := service.NewBucketService(bucketRepo, raftWrapper)
 	metaService := service.NewMetadataService(
 		metaRepo,
-		repo.NewBatchRepo(pool.Storage),
+		repo.NewBatchRepo(pool.Storage, metaCache),
 		repo.NewHashIndexRepo(pool.Storage),
 		raftWrapper,
 	)
diff --git a/src/metaserver/internal/usecase/repo/batch_bucket_repo.go b/src/metaserver/internal/usecase/repo/batch_bucket_repo.go
index 3bc917a..4d6c306 100644
--- a/src/metaserver/internal/usecase/repo/batch_bucket_repo.go
+++ b/src/metaserver/internal/usecase/repo/batch_bucket_repo.go
@@ -2,6 +2,8 @@ package repo
 
 import (
 	"common/proto/msg"
+	"common/util"
+	"metaserver/internal/usecase"
 	"metaserver/internal/usecase/db"
 	"metaserver/internal/usecase/logic"
 )
@@ -9,10 +11,19 @@ import (
 type BatchBucketRepo struct {
 	db    *db.Storage
 	logic *logic.BucketCrud
+	cache usecase.BucketRepo
 }
 
-func NewBatchBucketRepo(db *db.Storage) *BatchBucketRepo {
-	return &BatchBucketRepo{db: db, logic: logic.NewBucketCrud()}
+func NewBatchBucketRepo(db *db.Storage, cache usecase.BucketRepo) *BatchBucketRepo {
+	return &BatchBucketRepo{db: db, logic: logic.NewBucketCrud(), cache: cache}
+}
+
+// evict drops the cached bucket after it is changed in storage
+func (b *BatchBucketRepo) evict(name string, err error) error {
+	if err == nil {
+		util.LogErrWithPre("bucket cache", b.cache.Remove(name))
+	}
+	return err
 }
 
 func (b *BatchBucketRepo) Create(bucket *msg.Bucket) (err error) {
@@ -20,11 +31,11 @@ func (b *BatchBucketRepo) Create(bucket *msg.Bucket) (err error) {
 }
 
 func (b *BatchBucketRepo) Remove(name string) (err error) {
-	return b.db.Batch(b.logic.Delete(name))
+	return b.evict(name, b.db.Batch(b.logic.Delete(name)))
 }
 
 func (b *BatchBucketRepo) Update(bucket *msg.Bucket) (err error) {
-	return b.db.Batch(b.logic.Update(bucket))
+	return b.evict(bucket.Name, b.db.Batch(b.logic.Update(bucket)))
 }
 
 func (b *BatchBucketRepo) Sync() error {
diff --git a/src/metaserver/internal/usecase/repo/batch_meta_repo.go b/src/metaserver/internal/usecase/repo/batch_meta_repo.go
index 6fc235b..c8106d2 100644
--- a/src/metaserver/internal/usecase/repo/batch_meta_repo.go
+++ b/src/metaserver/internal/usecase/repo/batch_meta_repo.go
@@ -2,6 +2,7 @@ package repo
 
 import (
 	"common/proto/msg"
+	"common/util"
 	bolt "go.etcd.io/bbolt"
 	"metaserver/internal/usecase"
 	"metaserver/internal/usecase/db"
@@ -10,10 +11,41 @@ import (
 
 type BatchMetaRepo struct {
 	Storage *db.Storage
+	Cache   usecase.IMetaCache
 }
 
-func NewBatchRepo(stroe *db.Storage) *BatchMetaRepo {
-	return &BatchMetaRepo{Storage: stroe}
+func NewBatchRepo(stroe *db.Storage, c usecase.IMetaCache) *BatchMetaRepo {
+	return &BatchMetaRepo{Storage: stroe, Cache: c}
+}
+
+// evictMetadata drops the cached metadata after it is changed in storage
+func (br *BatchMetaRepo) evictMetadata(id string, err error) error {
+	if err == nil {
+		util.LogErrWithPre("metadata cache", br.Cache.RemoveMetadata(id))
+	}
+	return err
+}
+
+// evictVersions drops the cached versions after they are changed in storage
+func (br *BatchMetaRepo) evictVersions(id string, first, last uint64, err error) error {
+	if err == nil {
+		for i := first; i <= last; i++ {
+			util.LogErrWithPre("metadata cache", br.Cache.RemoveVersion(id, i))
+		}
+	}
+	return err
+}
+
+func (br *BatchMetaRepo) lastVersion(id string) (last uint64) {
+	_ = br.Storage.View(func(tx *bolt.Tx) error {
+		if buk := logic.GetVersionBucket(tx, id); buk != nil {
+			if seqs := logic.VersionSequences(buk); len(seqs) > 0 {
+				last = seqs[len(seqs)-1]
+			}
+		}
+		return nil
+	})
+	return
 }
 
 func (br *BatchMetaRepo) Sync() error {
@@ -35,11 +67,11 @@ func (br *BatchMetaRepo) UpdateVersion(name string, data *msg.Version) error {
 	if data == nil {
 		return usecase.ErrNilData
 	}
-	return br.Storage.Batch(logic.UpdateVer(name, data))
+	return br.evictVersions(name, data.Sequence, data.Sequence, br.Storage.Batch(logic.UpdateVer(name, data)))
 }
 
 func (br *BatchMetaRepo) RemoveVersion(name string, ver uint64) error {
-	return br.Storage.Batch(logic.RemoveVer(name, ver))
+	return br.evictVersions(name, ver, ver, br.Storage.Batch(logic.RemoveVer(name, ver)))
 }
 
 func (br *BatchMetaRepo) AddMetadata(id string, data *msg.Metadata) error {
@@ -50,11 +82,12 @@ func (br *BatchMetaRepo) AddMetadata(id string, data *msg.Metadata) error {
 }
 
 func (br *BatchMetaRepo) UpdateMetadata(name string, data *msg.Metadata) error {
-	return br.Storage.Batch(logic.UpdateMeta(name, data))
+	return br.evictMetadata(name, br.Storage.Batch(logic.UpdateMeta(name, data)))
 }
 
 func (br *BatchMetaRepo) RemoveMetadata(name string) error {
-	return br.Storage.Batch(logic.RemoveMeta(name))
+	last := br.lastVersion(name)
+	return br.evictVersions(name, 1, last, br.evictMetadata(name, br.Storage.Batch(logic.RemoveMeta(name))))
 }
 
 func (br *BatchMetaRepo) AddVersionFromRaft(id string, data *msg.Version) error {
@@ -65,12 +98,13 @@ func (br *BatchMetaRepo) AddVersionFromRaft(id string, data *msg.Version) error
 }
 
 func (br *BatchMetaRepo) RemoveAllVersion(id string) error {
-	return br.Storage.Batch(func(tx *bolt.Tx) error {
+	last := br.lastVersion(id)
+	return br.evictVersions(id, 1, last, br.Storage.Batch(func(tx *bolt.Tx) error {
 		// delete bucket
 		if err := logic.RemoveVersionBucket(tx, id); err != nil {
 			return err
 		}
 		// create an empty bucket
 		return logic.CreateVersionBucket(tx, id)
-	})
+	}))
 }
-- 
2.43.0


From d60bdb08fe512a01d6e0d6fbe205caeaf4e7ff81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:44 +0000
Subject: [PATCH 18/97] fix: a failed sync of a raft batch fails its logs

---
 src/metaserver/internal/usecase/raftimpl/fsm_impl.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/metaserver/internal/usecase/raftimpl/fsm_impl.go b/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
index 0b11cd0..38f3634 100644
--- a/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
+++ b/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
@@ -155,7 +155,8 @@ func (f *FSMImpl) ApplyBatch(lgs []*raft.Log) []any {
 	if err := f.metaBatch.Sync(); err != nil {
 		err = fmt.Errorf("sync fail: %s", err)
 		for i := range res {
-			if res[i] == nil {
+			// nothing of this batch is durable
+			if r, ok := res[i].(*FSMResponse); ok && r.Ok() {
 				res[i] = err
 			}
 		}
-- 
2.43.0


From 087e357ebc8b5e4862a0a60c908cccf5b9b4a622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:44 +0000
Subject: [PATCH 19/97] fix: updating a version is refused on a server that is
 not writable

---
 src/metaserver/internal/controller/grpc/middleware.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/metaserver/internal/controller/grpc/middleware.go b/src/metaserver/internal/controller/grpc/middleware.go
index ffb3d33..723c45d 100644
--- a/src/metaserver/internal/controller/grpc/middleware.go
+++ b/src/metaserver/internal/controller/grpc/middleware.go
@@ -35,6 +35,7 @@ var checkWritableMethods = set.OfString([]string{
 	"/proto.MetadataApi/SaveVersion",
 	"/proto.MetadataApi/SaveMetadata",
 	"/proto.MetadataApi/UpdateMetadata",
+	"/proto.MetadataApi/UpdateVersion",
 	"/proto.MetadataApi/SaveBucket",
 	"/proto.MetadataApi/RemoveVersion",
 })
-- 
2.43.0


From 3c321026a925a68d611d6c347d7634c9fe996026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:26 +0000
Subject: [PATCH 20/97] fix: the unique id of a removed version stays taken so
 that a replayed raft log does not add it again

---
 src/metaserver/internal/usecase/logic/metadata_logic.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/metaserver/internal/usecase/logic/metadata_logic.go b/src/metaserver/internal/usecase/logic/metadata_logic.go
index ab0a5f0..e45ef4c 100644
--- a/src/metaserver/internal/usecase/logic/metadata_logic.go
+++ b/src/metaserver/internal/usecase/logic/metadata_logic.go
@@ -209,9 +209,7 @@ func RemoveVer(name string, ver uint64) TxFunc {
 		if err := NewHashIndexLogic().RemoveIndex(data.Hash, keyStr)(tx); err != nil {
 			return fmt.Errorf("remove hash-index err: %w", err)
 		}
-		if err := NewUniqueIdIndex().RemoveIndex(data.UniqueId, keyStr)(tx); err != nil {
-			return fmt.Errorf("remove uniqueId-index err: %w", err)
-		}
+		// the unique id stays in its index: a raft log replayed after a restart must not add the version again
 		return b.Delete(key)
 	}
 }
-- 
2.43.0


From 70d4d4c327734ce5426a872221cc71f951780635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:45 +0000
Subject: [PATCH 21/97] fix: updating a locate that does not exist is refused
 instead of panicking

---
 src/metaserver/internal/usecase/errors.go             | 1 +
 src/metaserver/internal/usecase/repo/metadata_repo.go | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/metaserver/internal/usecase/errors.go b/src/metaserver/internal/usecase/errors.go
index 197a512..2be043f 100644
--- a/src/metaserver/internal/usecase/errors.go
+++ b/src/metaserver/internal/usecase/errors.go
@@ -12,6 +12,7 @@ var (
 	ErrOldData        = response.NewError(400, "data expired")
 	ErrExists         = response.NewError(400, "data exists")
 	ErrNilData        = response.NewError(400, "null value")
+	ErrLocateIndex    = response.NewError(400, "locate index out of range")
 )
 
 func IsNotFound(err error) bool {
diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index 68d605a..1101ea6 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -360,6 +360,9 @@ func (m *MetadataRepo) UpdateLocateByHash(hash string, index int, value string)
 			if err := logic.GetVer(metaId, sequence, &v)(tx); err != nil {
 				return err
 			}
+			if index < 0 || index >= len(v.Locate) {
+				return usecase.ErrLocateIndex
+			}
 			v.Ts = time.Now().UnixMilli()
 			v.Locate[index] = value
 			if err := logic.UpdateVer(metaId, &v)(tx); err != nil {
-- 
2.43.0


From 7ff86ab9aa4d60998fd14cdae668a2d56e087e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:47 +0000
Subject: [PATCH 22/97] fix: updating locates by hash drops the cached versions
 it changes

---
 .../internal/usecase/repo/metadata_repo.go           | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index 1101ea6..568fa45 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -348,8 +348,8 @@ func (m *MetadataRepo) ApplyIndex(i uint64) error {
 }
 
 func (m *MetadataRepo) UpdateLocateByHash(hash string, index int, value string) error {
-	return m.MainDB.Update(func(tx *bolt.Tx) error {
-		var keys []string
+	var keys []string
+	err := m.MainDB.Update(func(tx *bolt.Tx) error {
 		if err := logic.NewHashIndexLogic().GetIndex(hash, &keys)(tx); err != nil {
 			return err
 		}
@@ -371,6 +371,14 @@ func (m *MetadataRepo) UpdateLocateByHash(hash string, index int, value string)
 		}
 		return nil
 	})
+	if err != nil {
+		return err
+	}
+	for _, key := range keys {
+		idx := strings.LastIndexByte(key, '.')
+		util.LogErrWithPre("metadata cache", m.Cache.RemoveVersion(key[:idx], util.ToUint64(key[idx+1:])))
+	}
+	return nil
 }
 
 func (m *MetadataRepo) ExistsByUniqueId(uniqueId string) (bool, error) {
-- 
2.43.0


From 93ad3863594f2efa7a2be3976695d71e074f76aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 23/97] fix: a data size of zero can be shown and a written
 size is read back exactly

---
 src/common/datasize/datasize.go |  3 +++
 src/common/datasize/yaml_env.go | 13 +++++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/common/datasize/datasize.go b/src/common/datasize/datasize.go
index f76fa5b..f5bfc84 100644
--- a/src/common/datasize/datasize.go
+++ b/src/common/datasize/datasize.go
@@ -48,6 +48,9 @@ func (d DataSize) PetaByte() uint64 {
 }
 
 func (d DataSize) String() string {
+	if d == 0 {
+		return "0B"
+	}
 	i := int(math.Floor(math.Log(float64(d)) / math.Log(1024)))
 	exceed := 1.0
 	if i >= len(units) {
diff --git a/src/common/datasize/yaml_env.go b/src/common/datasize/yaml_env.go
index c5aabf0..17ff14c 100644
--- a/src/common/datasize/yaml_env.go
+++ b/src/common/datasize/yaml_env.go
@@ -1,6 +1,10 @@
 package datasize
 
-import "gopkg.in/yaml.v3"
+import (
+	"fmt"
+
+	"gopkg.in/yaml.v3"
+)
 
 func (d *DataSize) UnmarshalYAML(node *yaml.Node) error {
 	res, err := Parse(node.Value)
@@ -21,5 +25,10 @@ func (d *DataSize) SetValue(s string) error {
 }
 
 func (d DataSize) MarshalYAML() (interface{}, error) {
-	return d.String(), nil
+	// String() rounds, so write the biggest unit that keeps the exact size
+	i := 0
+	for d != 0 && i+1 < len(units) && d%units[i+1].value == 0 {
+		i++
+	}
+	return fmt.Sprintf("%d%s", d/units[i].value, units[i].name), nil
 }
-- 
2.43.0


From 2962f7871d33560ba4a4873297cb79be7d08c056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 24/97] fix: migrated data is removed only after the target
 took over the slots

---
 .../usecase/service/hashslot_service.go       | 58 ++++++++++---------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/src/metaserver/internal/usecase/service/hashslot_service.go b/src/metaserver/internal/usecase/service/hashslot_service.go
index 55ace24..c8c2399 100644
--- a/src/metaserver/internal/usecase/service/hashslot_service.go
+++ b/src/metaserver/internal/usecase/service/hashslot_service.go
@@ -1,7 +1,6 @@
 package service
 
 import (
-	"common/graceful"
 	"common/hashslot"
 	"common/logs"
 	"common/proto"
@@ -11,6 +10,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"io"
 	"metaserver/config"
 	"metaserver/internal/entity"
 	"metaserver/internal/usecase"
@@ -241,10 +241,9 @@ func (h *HashSlotService) AutoMigrate(toLoc *pb.LocationInfo, slots []string) er
 		return err
 	}
 	delEdges, _ := hashslot.WrapSlotsToEdges(slots, "")
-	var errs []error
-	errs = append(errs, h.migrateMetadata(stream, delEdges)...)
-	errs = append(errs, h.migrateBuckets(stream, delEdges)...)
-	if len(errs) > 0 {
+	movedMetadata, errs := h.migrateMetadata(stream, delEdges)
+	movedBuckets, bucketErrs := h.migrateBuckets(stream, delEdges)
+	if errs = append(errs, bucketErrs...); len(errs) > 0 {
 		return errors.Join(errs...)
 	}
 	// all migrate success
@@ -262,16 +261,33 @@ func (h *HashSlotService) AutoMigrate(toLoc *pb.LocationInfo, slots []string) er
 	if err = logic.NewHashSlot().SaveToEtcd(h.Cfg.StoreID, info); err != nil {
 		return fmt.Errorf("save new slot-info fails after finsih migrateion: %w", err)
 	}
-	// close stream as success
+	// close stream as success and wait until target took over
 	if err = stream.CloseSend(); err != nil {
-		hsLog.Error(err)
+		return fmt.Errorf("close stream fails after finish migration: %w", err)
 	}
+	if _, err = stream.Recv(); err != io.EOF {
+		return fmt.Errorf("target fails to take over slots: %w", err)
+	}
+	// delete only after target took over, otherwise a failed migration loses data
+	h.removeMigrated(movedMetadata, movedBuckets)
 	hsLog.Infof("finish migration to %s success", toLoc.Host)
 	return nil
 }
 
-func (h *HashSlotService) migrateMetadata(stream pb.HashSlot_StreamingReceiveClient, edges hashslot.EdgeList) (errs []error) {
-	var sucNum int
+func (h *HashSlotService) removeMigrated(metaKeys, buckets []string) {
+	for _, key := range metaKeys {
+		if err := h.Service.RemoveMetadata(key); err != nil {
+			hsLog.Errorf("delete-metadata %s fail: %s", key, err)
+		}
+	}
+	for _, key := range buckets {
+		if err := h.BucketService.Remove(key); err != nil {
+			hsLog.Errorf("delete-bucket %s err: %s", key, err)
+		}
+	}
+}
+
+func (h *HashSlotService) migrateMetadata(stream pb.HashSlot_StreamingReceiveClient, edges hashslot.EdgeList) (moved []string, errs []error) {
 	metaKeys := h.Service.FilterKeys(func(s string) bool {
 		return hashslot.IsSlotInEdges(hashslot.CalcBytesSlot(util.StrToBytes(s)), edges)
 	})
@@ -327,21 +343,13 @@ func (h *HashSlotService) migrateMetadata(stream pb.HashSlot_StreamingReceiveCli
 		if !allVersionSuccess {
 			continue
 		}
-		sucNum++
-		// delete if all success
-		go func() {
-			defer graceful.Recover()
-			if inner := h.Service.RemoveMetadata(key); inner != nil {
-				hsLog.Errorf("delete-metadata %s fail: %s", key, inner)
-			}
-		}()
+		moved = append(moved, key)
 	}
-	hsLog.Infof("migration totally %d metadata and successed %d verions", total, sucNum)
+	hsLog.Infof("migration totally %d metadata and successed %d verions", total, len(moved))
 	return
 }
 
-func (h *HashSlotService) migrateBuckets(stream pb.HashSlot_StreamingReceiveClient, edges hashslot.EdgeList) (errs []error) {
-	var successBuckets int
+func (h *HashSlotService) migrateBuckets(stream pb.HashSlot_StreamingReceiveClient, edges hashslot.EdgeList) (moved []string, errs []error) {
 	var migKeys [][]byte
 	err := h.BucketService.Foreach(func(k []byte, _ []byte) error {
 		if !hashslot.IsSlotInEdges(hashslot.CalcBytesSlot(k), edges) {
@@ -377,17 +385,11 @@ func (h *HashSlotService) migrateBuckets(stream pb.HashSlot_StreamingReceiveClie
 			errs = append(errs, err)
 			continue
 		}
-		successBuckets++
-		go func() {
-			defer graceful.Recover()
-			if err := h.BucketService.Remove(keyStr); err != nil {
-				hsLog.Errorf("delete-bucket %s err: %s", keyStr, err)
-			}
-		}()
+		moved = append(moved, keyStr)
 	}
 	if err != nil {
 		errs = append(errs, err)
 	}
-	hsLog.Infof("migration totally %d buckets and successed %d", total, successBuckets)
+	hsLog.Infof("migration totally %d buckets and successed %d", total, len(moved))
 	return
 }
-- 
2.43.0


From e05112e73494cf8eac17c4a15b7e191842c759c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:25 +0000
Subject: [PATCH 25/97] fix: a server without any bucket can migrate its slots

---
 src/metaserver/internal/usecase/logic/bucket_logic.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/metaserver/internal/usecase/logic/bucket_logic.go b/src/metaserver/internal/usecase/logic/bucket_logic.go
index 7b16171..f749c02 100644
--- a/src/metaserver/internal/usecase/logic/bucket_logic.go
+++ b/src/metaserver/internal/usecase/logic/bucket_logic.go
@@ -153,6 +153,9 @@ func (b *BucketCrud) List(prefix string, limit int, res *[]*msg.Bucket, total *i
 func (b *BucketCrud) Foreach(fn func(k, v []byte) error) usecase.TxFunc {
 	return func(tx *bolt.Tx) error {
 		root, err := b.getBucketBucket(tx)
+		if errors.Is(err, usecase.ErrNotFound) {
+			return nil // no bucket has been created yet
+		}
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 893d782a77e82f18ee40e608fe2852ed7aaf0194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:25 +0000
Subject: [PATCH 26/97] fix: saved slots take effect on their own server at
 once

---
 src/metaserver/internal/usecase/db/hashslot_db.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/metaserver/internal/usecase/db/hashslot_db.go b/src/metaserver/internal/usecase/db/hashslot_db.go
index cb4eb7e..25edd5a 100644
--- a/src/metaserver/internal/usecase/db/hashslot_db.go
+++ b/src/metaserver/internal/usecase/db/hashslot_db.go
@@ -74,7 +74,7 @@ func (h *HashSlotDB) GetMigrateFrom() (bool, string, []string) {
 }
 
 func (h *HashSlotDB) IsExpired() bool {
-	return time.Now().Unix()-h.updatedAt > MaxExpireUnix
+	return time.Now().Unix()-atomic.LoadInt64(&h.updatedAt) > MaxExpireUnix
 }
 
 // GetEdgeProvider identify is http-location of server
@@ -108,8 +108,9 @@ func (h *HashSlotDB) reloadProvider(old *hashslot.IEdgeProvider) error {
 		return fmt.Errorf("reloadProvider: %w", err)
 	}
 	if h.provider.CompareAndSwap(old, &data) {
-		h.updatedAt = time.Now().Unix()
-		hsLog.Infof("update hash-slots success at %d", h.updatedAt)
+		now := time.Now().Unix()
+		atomic.StoreInt64(&h.updatedAt, now)
+		hsLog.Infof("update hash-slots success at %d", now)
 	}
 	return nil
 }
@@ -182,8 +183,12 @@ func (h *HashSlotDB) Save(id string, info *hashslot.SlotInfo) (err error) {
 	}
 	info.GroupID = id
 	// saving
-	_, err = h.kv.Put(context.Background(), key, string(bt))
-	return err
+	if _, err = h.kv.Put(context.Background(), key, string(bt)); err != nil {
+		return err
+	}
+	// cached slots are outdated
+	atomic.StoreInt64(&h.updatedAt, 0)
+	return nil
 }
 
 func (h *HashSlotDB) Remove(id string) error {
-- 
2.43.0


From cf39534c40120bc70ab8503566ed8821fde2de26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:25 +0000
Subject: [PATCH 27/97] fix: migration keeps creation times and leaves nothing
 behind when aborted

---
 src/metaserver/internal/usecase/interfaces.go |  2 +
 .../usecase/service/bucket_service.go         |  5 +++
 .../usecase/service/hashslot_service.go       | 37 +++++++++++++++++--
 .../usecase/service/metadata_service.go       |  5 +++
 4 files changed, 45 insertions(+), 4 deletions(-)

diff --git a/src/metaserver/internal/usecase/interfaces.go b/src/metaserver/internal/usecase/interfaces.go
index 1922298..fe6e2ee 100644
--- a/src/metaserver/internal/usecase/interfaces.go
+++ b/src/metaserver/internal/usecase/interfaces.go
@@ -22,6 +22,7 @@ type (
 
 	IMetadataService interface {
 		MetadataRpcService
+		ReceiveMetadata(string, *msg.Metadata) error
 		ReceiveVersion(string, *msg.Version) error
 		AddMetadata(string, *msg.Metadata) error
 		AddVersion(string, *msg.Version) (int, error)
@@ -144,5 +145,6 @@ type (
 
 	BucketService interface {
 		BucketRepo
+		Receive(bucket *msg.Bucket) error
 	}
 )
diff --git a/src/metaserver/internal/usecase/service/bucket_service.go b/src/metaserver/internal/usecase/service/bucket_service.go
index cf949ac..9779bfb 100644
--- a/src/metaserver/internal/usecase/service/bucket_service.go
+++ b/src/metaserver/internal/usecase/service/bucket_service.go
@@ -23,6 +23,11 @@ func (b *BucketService) Create(bucket *msg.Bucket) error {
 	}
 	bucket.CreateTime = time.Now().UnixMilli()
 	bucket.UpdateTime = bucket.CreateTime
+	return b.Receive(bucket)
+}
+
+// Receive adds a bucket as it is, without changing its times
+func (b *BucketService) Receive(bucket *msg.Bucket) error {
 	if ok, _, err := b.ApplyRaft(&entity.RaftData{
 		Type:   entity.LogInsert,
 		Dest:   entity.DestBucket,
diff --git a/src/metaserver/internal/usecase/service/hashslot_service.go b/src/metaserver/internal/usecase/service/hashslot_service.go
index c8c2399..8571005 100644
--- a/src/metaserver/internal/usecase/service/hashslot_service.go
+++ b/src/metaserver/internal/usecase/service/hashslot_service.go
@@ -33,6 +33,7 @@ type HashSlotService struct {
 	BucketService usecase.BucketService
 	Cfg           *config.HashSlotConfig
 	startReceive  func()
+	received      []func() error // undo of received items
 }
 
 func NewHashSlotService(st *db.HashSlotDB, serv usecase.IMetadataService, bucketService usecase.BucketService, cfg *config.HashSlotConfig) *HashSlotService {
@@ -168,13 +169,21 @@ func (h *HashSlotService) FinishReceiveItem(success bool) error {
 	if ok, fromHost, newSlots = h.Store.GetMigrateFrom(); !ok {
 		return fmt.Errorf("get received slots fails: server is not in migrate-from")
 	}
+	received := h.received
+	h.received = nil
+	if !success {
+		// source still owns the slots, received data would be outdated at next migration
+		for _, undo := range received {
+			util.LogErr(undo())
+		}
+	}
 	if err := h.Store.FinishMigrateFrom(); err != nil {
 		util.LogErr(err)
 	}
 	if !success {
 		return nil
 	}
-	info, _, err := h.Store.Get(h.Cfg.StoreID)
+	info, err := logic.NewHashSlot().GetById(h.Cfg.StoreID)
 	if err != nil {
 		return fmt.Errorf("update slot fails after finish migration: %w", err)
 	}
@@ -205,19 +214,36 @@ func (h *HashSlotService) ReceiveItem(item *pb.MigrationItem) error {
 		if err = util.DecodeMsgp(&i, item.Data); err != nil {
 			return err
 		}
-		err = h.Service.AddMetadata(item.Name, &i)
+		err = h.Service.ReceiveMetadata(item.Name, &i)
+		if errors.Is(err, usecase.ErrExists) {
+			// left behind by an aborted migration and may be outdated
+			if err = h.Service.RemoveMetadata(item.Name); err == nil {
+				err = h.Service.ReceiveMetadata(item.Name, &i)
+			}
+		}
 	case entity.DestBucket:
 		var i msg.Bucket
 		if err = util.DecodeMsgp(&i, item.Data); err != nil {
 			return err
 		}
-		err = h.BucketService.Create(&i)
+		err = h.BucketService.Receive(&i)
+		if errors.Is(err, usecase.ErrExists) {
+			if err = h.BucketService.Remove(i.Name); err == nil {
+				err = h.BucketService.Receive(&i)
+			}
+		}
 	default:
 		hsLog.Errorf("unknown migration item: %d", item.Dest)
 	}
 	if err != nil && !errors.Is(err, usecase.ErrExists) {
 		return err
 	}
+	switch entity.Dest(item.Dest) {
+	case entity.DestMetadata:
+		h.received = append(h.received, func() error { return h.Service.RemoveMetadata(item.Name) })
+	case entity.DestBucket:
+		h.received = append(h.received, func() error { return h.BucketService.Remove(item.Name) })
+	}
 	return nil
 }
 
@@ -251,7 +277,7 @@ func (h *HashSlotService) AutoMigrate(toLoc *pb.LocationInfo, slots []string) er
 		hsLog.Debugf("switch status to normal err: %s", err)
 	}
 	// remove slots from current slot-info
-	info, _, err := h.Store.Get(h.Cfg.StoreID)
+	info, err := logic.NewHashSlot().GetById(h.Cfg.StoreID)
 	if err != nil {
 		return fmt.Errorf("update slot fails after finish migration: %w", err)
 	}
@@ -268,6 +294,9 @@ func (h *HashSlotService) AutoMigrate(toLoc *pb.LocationInfo, slots []string) er
 	if _, err = stream.Recv(); err != io.EOF {
 		return fmt.Errorf("target fails to take over slots: %w", err)
 	}
+	if _, err = h.Store.GetEdgeProvider(true); err != nil {
+		hsLog.Errorf("reload slots after migration err: %s", err)
+	}
 	// delete only after target took over, otherwise a failed migration loses data
 	h.removeMigrated(movedMetadata, movedBuckets)
 	hsLog.Infof("finish migration to %s success", toLoc.Host)
diff --git a/src/metaserver/internal/usecase/service/metadata_service.go b/src/metaserver/internal/usecase/service/metadata_service.go
index 9691405..91bc507 100644
--- a/src/metaserver/internal/usecase/service/metadata_service.go
+++ b/src/metaserver/internal/usecase/service/metadata_service.go
@@ -26,6 +26,11 @@ func NewMetadataService(repo usecase.IMetadataRepo, batch usecase.IBatchMetaRepo
 func (m *MetadataService) AddMetadata(id string, data *msg.Metadata) error {
 	data.CreateTime = time.Now().UnixMilli()
 	data.UpdateTime = data.CreateTime
+	return m.ReceiveMetadata(id, data)
+}
+
+// ReceiveMetadata adds metadata as it is, without changing its times
+func (m *MetadataService) ReceiveMetadata(id string, data *msg.Metadata) error {
 	if ok, _, err := m.ApplyRaft(&entity.RaftData{
 		Type:     entity.LogInsert,
 		Dest:     entity.DestMetadata,
-- 
2.43.0


From 0a0d6d5b46a9873d6d24cef2b8a16fc65d5eb963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:06 +0000
Subject: [PATCH 28/97] fix: the location of a request for another server keeps
 its path and query

---
 src/metaserver/internal/usecase/logic/discover_logic.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/metaserver/internal/usecase/logic/discover_logic.go b/src/metaserver/internal/usecase/logic/discover_logic.go
index f61648d..78301a3 100644
--- a/src/metaserver/internal/usecase/logic/discover_logic.go
+++ b/src/metaserver/internal/usecase/logic/discover_logic.go
@@ -24,6 +24,9 @@ func (d Discover) PeerLocation(id string, c *gin.Context) string {
 	if ip == "" {
 		ip = "unknown-id"
 	}
-	loc, _ := url.JoinPath(fmt.Sprint("http://", ip), c.Request.URL.RawPath)
+	loc, _ := url.JoinPath(fmt.Sprint("http://", ip), c.Request.URL.EscapedPath())
+	if c.Request.URL.RawQuery != "" {
+		loc = fmt.Sprint(loc, "?", c.Request.URL.RawQuery)
+	}
 	return loc
 }
-- 
2.43.0


From d01da07023ba4d91d3b8f8346cc0daaed4746bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:37 +0000
Subject: [PATCH 29/97] fix: the padding reader reports a truncated source
 instead of taking it for the end

---
 src/common/system/disk/aligend_reader.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/common/system/disk/aligend_reader.go b/src/common/system/disk/aligend_reader.go
index 5cb2e29..73152c6 100644
--- a/src/common/system/disk/aligend_reader.go
+++ b/src/common/system/disk/aligend_reader.go
@@ -35,9 +35,14 @@ func NewAlignedReader(rd io.Reader) *AlignedReader {
 
 func (ar *AlignedReader) Read(p []byte) (n int, err error) {
 	length := len(p)
-	n, err = io.ReadFull(ar.Reader, p)
-	if err == io.ErrUnexpectedEOF {
-		err = io.EOF
+	// not io.ReadFull: its io.ErrUnexpectedEOF can't be told from the one of a truncated source
+	for n < length && err == nil {
+		var nr int
+		nr, err = ar.Reader.Read(p[n:])
+		n += nr
+	}
+	if n == length {
+		err = nil
 	}
 	// padding zero if needed
 	paddingEnd := math.MinInt(length, AlignedSize(n))
-- 
2.43.0


From 602252e241ec7235fc4f7ebf7b3d00dbb9b7710a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:44 +0000
Subject: [PATCH 30/97] fix: the path cache finds a single path, removes whole
 paths only and keeps any path apart

---
 .../internal/db/object_path_cache.go          | 41 +++++++++++--------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/src/objectserver/internal/db/object_path_cache.go b/src/objectserver/internal/db/object_path_cache.go
index 6baabc0..ca05396 100644
--- a/src/objectserver/internal/db/object_path_cache.go
+++ b/src/objectserver/internal/db/object_path_cache.go
@@ -13,6 +13,8 @@ import (
 var (
 	Sep    = []byte(",")
 	SepEnc = []byte("%2C")
+	Esc    = []byte("%")
+	EscEnc = []byte("%25")
 )
 
 type PathCache struct {
@@ -53,12 +55,12 @@ func (pc *PathCache) get(txn *badger.Txn, key []byte) ([]byte, error) {
 
 func (pc *PathCache) encodeValue(val []byte) []byte {
 	// FIXME: allocate N and copy N
-	return bytes.ReplaceAll(val, Sep, SepEnc)
+	return bytes.ReplaceAll(bytes.ReplaceAll(val, Esc, EscEnc), Sep, SepEnc)
 }
 
 func (pc *PathCache) decodeValue(val []byte) []byte {
 	// FIXME: allocate N and copy N
-	return bytes.ReplaceAll(val, SepEnc, Sep)
+	return bytes.ReplaceAll(bytes.ReplaceAll(val, SepEnc, Sep), EscEnc, Esc)
 }
 
 func (pc *PathCache) Put(name, path string) error {
@@ -86,10 +88,10 @@ func (pc *PathCache) Get(name string) ([]string, error) {
 		if err != nil {
 			return err
 		}
-		sp := bytes.Split(value, Sep)
-		if len(sp) == 0 {
+		if len(value) == 0 {
 			return badger.ErrKeyNotFound
 		}
+		sp := bytes.Split(value, Sep)
 		res = make([]string, 0, len(sp))
 		for _, b := range sp {
 			res = append(res, util.BytesToStr(pc.decodeValue(b)))
@@ -111,11 +113,12 @@ func (pc *PathCache) GetLast(name string) (string, error) {
 		if err != nil {
 			return err
 		}
-		if idx := bytes.LastIndexByte(value, Sep[0]); idx > 0 {
-			res = util.BytesToStr(pc.decodeValue(value[idx+1:]))
-			return nil
+		if len(value) == 0 {
+			return badger.ErrKeyNotFound
 		}
-		return badger.ErrKeyNotFound
+		idx := bytes.LastIndexByte(value, Sep[0])
+		res = util.BytesToStr(pc.decodeValue(value[idx+1:]))
+		return nil
 	})
 	if err == badger.ErrKeyNotFound {
 		err = os.ErrNotExist
@@ -130,17 +133,19 @@ func (pc *PathCache) Remove(name, path string) error {
 		if err != nil {
 			return err
 		}
-		before, after, ok := bytes.Cut(val, pc.encodeValue(util.StrToBytes(path)))
-		if !ok {
-			return badger.ErrKeyNotFound
-		}
-		before = bytes.TrimSuffix(before, Sep)
-		after = bytes.TrimPrefix(after, Sep)
-		// not use bytes.Join to avoid memory allocating and copy
-		if len(before) > 0 {
-			after = append(append(before, Sep...), after...)
+		// compare whole paths, one may be a part of another
+		target := pc.encodeValue(util.StrToBytes(path))
+		sp := bytes.Split(val, Sep)
+		for i, b := range sp {
+			if !bytes.Equal(b, target) {
+				continue
+			}
+			if len(sp) == 1 {
+				return txn.Delete(key)
+			}
+			return txn.Set(key, bytes.Join(append(sp[:i], sp[i+1:]...), Sep))
 		}
-		return txn.Set(key, after)
+		return badger.ErrKeyNotFound
 	})
 	if err == badger.ErrKeyNotFound {
 		err = nil
-- 
2.43.0


From 79442879f363db67164bfd058eb34607297b2497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:45 +0000
Subject: [PATCH 31/97] fix: removing an expired upload removes its file

---
 src/objectserver/internal/usecase/service/objects_service.go | 2 +-
 src/objectserver/internal/usecase/service/temp_service.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/objectserver/internal/usecase/service/objects_service.go b/src/objectserver/internal/usecase/service/objects_service.go
index 9a10a99..3fee3c6 100644
--- a/src/objectserver/internal/usecase/service/objects_service.go
+++ b/src/objectserver/internal/usecase/service/objects_service.go
@@ -173,7 +173,7 @@ func Delete(name string) error {
 // DeleteFile will remove the file under the path. if file not exist, it will do nothing.
 func DeleteFile(path, name string) (int64, error) {
 	pt := filepath.Join(path, name)
-	info, err := os.Stat(path)
+	info, err := os.Stat(pt)
 	if os.IsNotExist(err) {
 		return 0, nil
 	}
diff --git a/src/objectserver/internal/usecase/service/temp_service.go b/src/objectserver/internal/usecase/service/temp_service.go
index d40e0da..ce5e021 100644
--- a/src/objectserver/internal/usecase/service/temp_service.go
+++ b/src/objectserver/internal/usecase/service/temp_service.go
@@ -45,7 +45,7 @@ func StartTempRemovalBackground(cache cache.ICache, threadNum int) func() {
 				if strings.HasPrefix(entry.Key, entity.TempKeyPrefix) {
 					var ti entity.TempInfo
 					if ok := util.GobDecode(entry.Value, &ti); ok {
-						if _, err := DeleteFile(pool.Config.TempPath, ti.Id); err != nil {
+						if _, err := DeleteFile(ti.FullPath, ""); err != nil {
 							logger.Errorf("remove temp %v(name=%v) error, %v", ti.Id, ti.Name, err)
 							break
 						}
-- 
2.43.0


From 0431e3830d276354d3becc228c3c96479f506aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:45 +0000
Subject: [PATCH 32/97] fix: objects and uploads of any size are read and
 written with direct I/O

---
 src/objectserver/internal/usecase/service/objects_service.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/objectserver/internal/usecase/service/objects_service.go b/src/objectserver/internal/usecase/service/objects_service.go
index 3fee3c6..3eabb49 100644
--- a/src/objectserver/internal/usecase/service/objects_service.go
+++ b/src/objectserver/internal/usecase/service/objects_service.go
@@ -146,7 +146,8 @@ func GetFile(fullPath string, offset, size int64, writer io.Writer) error {
 			return err
 		}
 	}
-	bufSize := math.MinInt(int(size), 8*cst.OS.PageSize)
+	// direct-io requires a multiple of 4KB
+	bufSize := math.MinInt(disk.AlignedSize(int(size)), 8*cst.OS.PageSize)
 	_, err = io.CopyBuffer(writer, disk.LimitReader(file, size), disk.AlignedBlock(bufSize))
 	return err
 }
@@ -233,7 +234,7 @@ func AppendFileAligned(fullPath string, fileStream io.Reader, bufSize int) (int6
 		return 0, err
 	}
 	defer file.Close()
-	return io.CopyBuffer(file, disk.PaddingReader(fileStream), disk.AlignedBlock(bufSize))
+	return io.CopyBuffer(file, disk.PaddingReader(fileStream), disk.AlignedBlock(disk.AlignedSize(bufSize)))
 }
 
 // WriteFile will append data to file and work with DIO. make sure size of each write is a multiple of 4096 (except last)
-- 
2.43.0


From 989f57c166df855e385dbfa73685983325821f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:45 +0000
Subject: [PATCH 33/97] fix: the offset of a compressed object counts its own
 bytes, not those of its file

---
 .../internal/usecase/service/objects_service.go          | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/objectserver/internal/usecase/service/objects_service.go b/src/objectserver/internal/usecase/service/objects_service.go
index 3eabb49..74ba336 100644
--- a/src/objectserver/internal/usecase/service/objects_service.go
+++ b/src/objectserver/internal/usecase/service/objects_service.go
@@ -252,13 +252,18 @@ func GetFileCompress(fullPath string, offset, size int64, writer io.Writer) erro
 		return err
 	}
 	defer file.Close()
+	reader := s2.NewReader(file)
+	// offset refers to the uncompressed data
 	if offset > 0 {
-		if _, err = file.Seek(offset, io.SeekStart); err != nil {
+		if _, err = io.CopyN(io.Discard, reader, offset); err == io.EOF {
+			return nil
+		}
+		if err != nil {
 			return err
 		}
 	}
 	bufSize := math.MinNumber(8*cst.OS.PageSize, int(size))
-	_, err = io.CopyBuffer(writer, io.LimitReader(s2.NewReader(file), size), make([]byte, bufSize))
+	_, err = io.CopyBuffer(writer, io.LimitReader(reader, size), make([]byte, bufSize))
 	return err
 }
 
-- 
2.43.0


From c29cfbd9d4f713fd22d1944f8501192db5c3d51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:45 +0000
Subject: [PATCH 34/97] fix: an object exists only when wholly written, and its
 marks follow in the order of requests

---
 .../usecase/service/objects_service.go        | 54 ++++++++++++-------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/src/objectserver/internal/usecase/service/objects_service.go b/src/objectserver/internal/usecase/service/objects_service.go
index 74ba336..b1f15bd 100644
--- a/src/objectserver/internal/usecase/service/objects_service.go
+++ b/src/objectserver/internal/usecase/service/objects_service.go
@@ -87,22 +87,36 @@ func Put(fileName string, fileStream io.Reader, compress bool) (err error) {
 	mp := global.DriverManager.SelectMountPointFallback(global.Config.BaseMountPoint)
 	fullPath := filepath.Join(mp, global.Config.StoragePath, fileName)
 
-	var size int64
+	// write to a temp file first, a partial file must not be taken for the object
+	tempPath := filepath.Join(mp, global.Config.TempPath, GenerateTempID())
 	if compress {
-		size, err = WriteFileCompress(fullPath, fileStream)
+		_, err = WriteFileCompress(tempPath, fileStream)
 	} else {
-		size, err = WriteFile(fullPath, fileStream)
+		_, err = WriteFile(tempPath, fileStream)
+	}
+	if err == nil {
+		err = os.Rename(tempPath, fullPath)
 	}
 	if err != nil {
+		_, inner := DeleteFile(tempPath, "")
+		util.LogErrWithPre("remove partial object", inner)
 		return
 	}
+	markStored(fileName, fullPath)
+	return
+}
+
+// markStored marks the object as existing and records its size on disk and path
+func markStored(fileName, fullPath string) {
+	// a later delete must not be outrun by this mark
+	MarkExist(fileName)
+	if info, err := os.Stat(fullPath); err == nil {
+		global.ObjectCap.AddCap(info.Size())
+	}
 	go func() {
 		defer graceful.Recover()
-		global.ObjectCap.AddCap(size)
 		util.LogErr(global.PathDB.Put(fileName, fullPath))
-		MarkExist(fileName)
 	}()
-	return
 }
 
 // Get read object to writer with provided size. pass to GetFile
@@ -162,11 +176,12 @@ func Delete(name string) error {
 	if err != nil {
 		return err
 	}
+	// a later put must not see this object as existing
+	UnMarkExist(name)
+	global.ObjectCap.SubCap(size)
 	go func() {
 		defer graceful.Recover()
-		global.ObjectCap.SubCap(size)
 		util.LogErrWithPre("path-db remove", global.PathDB.Remove(name, fullPath))
-		UnMarkExist(name)
 	}()
 	return nil
 }
@@ -309,8 +324,18 @@ func CommitFile(mountPoint, tmpName, fileName string, compress bool) error {
 			return err
 		}
 		bufSize := math.MinInt(4*datasize.MB.Int(), int(tmpStat.Size()))
-		_, err = AppendFileCompress(filePath, tmp, bufSize)
-		return err
+		// write to a temp file first, a partial file must not be taken for the object
+		compressPath := tempPath + ".s2"
+		if _, err = AppendFileCompress(compressPath, tmp, bufSize); err == nil {
+			err = os.Rename(compressPath, filePath)
+		}
+		if err != nil {
+			_, inner := DeleteFile(compressPath, "")
+			util.LogErrWithPre("remove partial object", inner)
+			return err
+		}
+		_, err = DeleteFile(tempPath, "")
+		util.LogErrWithPre("remove committed temp", err)
 	} else {
 		if err := os.Rename(tempPath, filePath); err != nil {
 			if os.IsNotExist(err) {
@@ -320,13 +345,6 @@ func CommitFile(mountPoint, tmpName, fileName string, compress bool) error {
 		}
 	}
 
-	go func() {
-		defer graceful.Recover()
-		if info, err := os.Stat(filePath); err == nil {
-			global.ObjectCap.AddCap(info.Size())
-			util.LogErr(global.PathDB.Put(fileName, filePath))
-			MarkExist(fileName)
-		}
-	}()
+	markStored(fileName, filePath)
 	return nil
 }
-- 
2.43.0


From 00f0c116d83ddc34eb8321c3b56defb611126d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:45 +0000
Subject: [PATCH 35/97] fix: directories do not count as stored bytes after a
 restart

---
 src/objectserver/internal/usecase/service/common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/objectserver/internal/usecase/service/common.go b/src/objectserver/internal/usecase/service/common.go
index 88fc5c6..1180fef 100644
--- a/src/objectserver/internal/usecase/service/common.go
+++ b/src/objectserver/internal/usecase/service/common.go
@@ -21,8 +21,8 @@ func WarmUpLocateCache() {
 			if strings.HasPrefix(fileName, entity.TempKeyPrefix) {
 				return nil
 			}
-			pool.ObjectCap.AddCap(info.Size())
 			if !info.IsDir() {
+				pool.ObjectCap.AddCap(info.Size())
 				MarkExist(fileName)
 			}
 			return nil
-- 
2.43.0


From 9ce7f669f9c814b793bd7624413a1adbf68c3c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:45 +0000
Subject: [PATCH 36/97] fix: the object cache answers parts of objects, and a
 failed read is not answered as complete

---
 .../controller/http/objects/objects_cache.go  | 13 +++++++++++++
 .../controller/http/objects/objects_rest.go   | 19 +++++++++----------
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/objectserver/internal/controller/http/objects/objects_cache.go b/src/objectserver/internal/controller/http/objects/objects_cache.go
index 7017b1a..8c704d8 100644
--- a/src/objectserver/internal/controller/http/objects/objects_cache.go
+++ b/src/objectserver/internal/controller/http/objects/objects_cache.go
@@ -2,6 +2,8 @@ package objects
 
 import (
 	"common/logs"
+	"common/request"
+	"common/util"
 	"net/http"
 	"objectserver/internal/usecase/pool"
 
@@ -11,6 +13,17 @@ import (
 func GetFromCache(g *gin.Context) {
 	name := g.Param("name")
 	if bt, ok := pool.Cache.HasGet(name); ok {
+		var rg request.Range
+		var offset int64
+		if rg.ConvertFrom(g.GetHeader("range")) {
+			offset = rg.FirstBytes().First
+		}
+		// cache holds the beginning of the object. what exceeds it must be read from file
+		size := util.ToInt64(g.GetHeader("size"))
+		if size <= 0 || offset > int64(len(bt)) || size > int64(len(bt))-offset {
+			return
+		}
+		bt = bt[offset : offset+size]
 		if _, e := g.Writer.Write(bt); e != nil {
 			logs.Std().Debugf("match file cache %v, but written to response error: %v", name, e)
 			g.AbortWithStatus(http.StatusInternalServerError)
diff --git a/src/objectserver/internal/controller/http/objects/objects_rest.go b/src/objectserver/internal/controller/http/objects/objects_rest.go
index 605b13f..7c291fd 100644
--- a/src/objectserver/internal/controller/http/objects/objects_rest.go
+++ b/src/objectserver/internal/controller/http/objects/objects_rest.go
@@ -2,7 +2,6 @@ package objects
 
 import (
 	"bytes"
-	"common/graceful"
 	"common/request"
 	"common/response"
 	"io"
@@ -39,10 +38,8 @@ func Put(c *gin.Context) {
 		return
 	}
 	if cache.Len() > 0 {
-		go func() {
-			defer graceful.Recover()
-			pool.Cache.Set(req.Name, cache.Bytes())
-		}()
+		// a later delete must not be outrun by this
+		pool.Cache.Set(req.Name, cache.Bytes())
 	}
 	response.Ok(c)
 }
@@ -75,19 +72,21 @@ func Get(c *gin.Context) {
 	}
 	var writer io.Writer = c.Writer
 	var buf bytes.Buffer
-	if uint64(req.Size) <= pool.Config.Cache.MaxItemSize.Byte() {
+	// cache from the beginning of the object only
+	if offset == 0 && uint64(req.Size) <= pool.Config.Cache.MaxItemSize.Byte() {
 		buf.Grow(int(req.Size))
 		writer = io.MultiWriter(c.Writer, &buf)
 	}
 	if err := service.Get(req.Name, offset, req.Size, req.Compress, writer); err != nil {
+		if c.Writer.Written() {
+			// too late to respond an error. abort instead of pretending to be complete
+			panic(http.ErrAbortHandler)
+		}
 		response.FailErr(err, c)
 		return
 	}
 	if buf.Len() > 0 {
-		go func() {
-			defer graceful.Recover()
-			pool.Cache.Set(req.Name, buf.Bytes())
-		}()
+		pool.Cache.Set(req.Name, buf.Bytes())
 	}
 	c.Status(http.StatusOK)
 }
-- 
2.43.0


From 0128cb36145d0fe87b08612df6d7913b75e0bfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:45 +0000
Subject: [PATCH 37/97] fix: a failed read of an upload is aborted instead of
 answered as complete

---
 src/objectserver/internal/controller/http/router.go    | 10 +++++++++-
 .../internal/controller/http/temp/temp_rest.go         |  4 ++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/objectserver/internal/controller/http/router.go b/src/objectserver/internal/controller/http/router.go
index 8ff46b6..8d6ed8a 100644
--- a/src/objectserver/internal/controller/http/router.go
+++ b/src/objectserver/internal/controller/http/router.go
@@ -20,7 +20,7 @@ type Server struct {
 
 func NewHttpServer(port string, grpcServer *grpc.Server) *Server {
 	r := gin.New()
-	r.Use(gin.LoggerWithWriter(logs.Std().Out), gin.RecoveryWithWriter(logs.Std().Out))
+	r.Use(gin.LoggerWithWriter(logs.Std().Out), gin.RecoveryWithWriter(logs.Std().Out, recovery))
 	r.GET("/objects/:name", objects.GetFromCache, objects.Get)
 	r.HEAD("/objects/:name", objects.Head)
 	r.PUT("/objects/:name", temp.FilterEmptyRequest, objects.Put)
@@ -42,6 +42,14 @@ func NewHttpServer(port string, grpcServer *grpc.Server) *Server {
 	}, grpcServer}
 }
 
+// recovery passes an aborted response on to http.Server
+func recovery(c *gin.Context, err any) {
+	if err == http.ErrAbortHandler {
+		panic(err)
+	}
+	c.AbortWithStatus(http.StatusInternalServerError)
+}
+
 func (h *Server) ListenAndServe() error {
 	logs.Std().Infof("http server listen on: %s", h.Addr)
 	return h.Server.ListenAndServe()
diff --git a/src/objectserver/internal/controller/http/temp/temp_rest.go b/src/objectserver/internal/controller/http/temp/temp_rest.go
index 5766d9e..bef99b6 100644
--- a/src/objectserver/internal/controller/http/temp/temp_rest.go
+++ b/src/objectserver/internal/controller/http/temp/temp_rest.go
@@ -121,6 +121,10 @@ func Get(g *gin.Context) {
 		return
 	}
 	if err := service.GetFile(ti.FullPath, 0, req.Size, g.Writer); err != nil {
+		if g.Writer.Written() {
+			// too late to respond an error. abort instead of pretending to be complete
+			panic(http.ErrAbortHandler)
+		}
 		response.FailErr(err, g)
 		return
 	}
-- 
2.43.0


From 6defee8814704777bb39cecee0d4e819a6c120b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:49 +0000
Subject: [PATCH 38/97] fix: migration does not send uploads in progress, ends
 for empty files and forgets cached content of sent objects

---
 .../internal/usecase/service/migration_service.go      | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/objectserver/internal/usecase/service/migration_service.go b/src/objectserver/internal/usecase/service/migration_service.go
index 25e6041..a300772 100644
--- a/src/objectserver/internal/usecase/service/migration_service.go
+++ b/src/objectserver/internal/usecase/service/migration_service.go
@@ -19,6 +19,7 @@ import (
 	"math"
 	"net/http"
 	"objectserver/internal/db"
+	"objectserver/internal/entity"
 	"objectserver/internal/usecase/pool"
 	"objectserver/internal/usecase/webapi"
 	"os"
@@ -114,7 +115,8 @@ func (ms *MigrationService) writeStream(stream pb.ObjectMigration_ReceiveDataCli
 		}
 	}()
 	var n int
-	buf := make([]byte, xmath.MinNumber(size, int64(4*datasize.MB)))
+	// reading into an empty buffer never ends
+	buf := make([]byte, xmath.MaxNumber(1, xmath.MinNumber(size, int64(4*datasize.MB))))
 	for {
 		n, err = file.Read(buf)
 		if err == io.EOF {
@@ -199,7 +201,8 @@ func (ms *MigrationService) SendingTo(httpLocate string, sizeMap map[string]int6
 					msLog.Errorf("walk path %s err: %s, will skip this path", path, err)
 					return nil
 				}
-				if info.IsDir() {
+				// skip uploads in progress, they are not objects
+				if info.IsDir() || strings.HasPrefix(info.Name(), entity.TempKeyPrefix) {
 					return nil
 				}
 				client := clientMap[cur]
@@ -220,8 +223,9 @@ func (ms *MigrationService) SendingTo(httpLocate string, sizeMap map[string]int6
 						defer graceful.Recover()
 						metric[toAddr].Add(1)
 						// remove local file
+						pool.Cache.Delete(info.Name())
 						if inner := Delete(info.Name()); inner != nil {
-							msLog.Errorf("migrate %s success, but delete fail: %s", path, err)
+							msLog.Errorf("migrate %s success, but delete fail: %s", path, inner)
 						}
 					}()
 				}(cur)
-- 
2.43.0


From 92d2d16c813eba2a9cad9c517ee838561fe83d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:58 +0000
Subject: [PATCH 39/97] fix: a migrated object is finished only when every
 metadata server was told its new place

---
 .../internal/usecase/service/migration_service.go      | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/objectserver/internal/usecase/service/migration_service.go b/src/objectserver/internal/usecase/service/migration_service.go
index a300772..e41e416 100644
--- a/src/objectserver/internal/usecase/service/migration_service.go
+++ b/src/objectserver/internal/usecase/service/migration_service.go
@@ -279,13 +279,14 @@ func (ms *MigrationService) FinishObject(data *pb.ObjectInfo) error {
 	if statInfo.Size() != data.Size {
 		return fmt.Errorf("file %s size excpect %d, actual %d", data.FileName, data.Size, statInfo.Size())
 	}
-	// add to capacity db
-	pool.ObjectCap.AddCap(data.Size)
 	newLoc, ok := pool.Discovery.GetService(pool.Config.Registry.Name, pool.Config.Registry.SID())
 	if !ok {
 		return fmt.Errorf("server unregister yet")
 	}
 	idx := strings.LastIndexByte(data.FileName, '.')
+	if idx < 0 {
+		return fmt.Errorf("file name %s has no shard index", data.FileName)
+	}
 	seq := util.ToInt(data.FileName[idx+1:])
 	hash := data.FileName[:idx]
 	// get metadata locations of file
@@ -298,8 +299,8 @@ func (ms *MigrationService) FinishObject(data *pb.ObjectInfo) error {
 	for _, addr := range servs {
 		wg.Add(1)
 		go func(ip string) {
-			defer graceful.Recover()
 			defer wg.Done()
+			defer graceful.Recover(func(string) { failNum.Add(1) })
 			inner := webapi.UpdateVersionLocates(ip, hash, seq, newLoc)
 			// ignore not found failure
 			if response.CheckErrStatus(http.StatusNotFound, inner) {
@@ -312,7 +313,8 @@ func (ms *MigrationService) FinishObject(data *pb.ObjectInfo) error {
 		}(addr)
 	}
 	wg.Wait()
-	if fails := failNum.Load(); fails >= int32(xmath.CeilDiv(len(servs), 2)) {
+	// any of them may be the only one which knows this object. the origin file must be kept if it fails
+	if fails := failNum.Load(); fails > 0 {
 		return fmt.Errorf("too much failures when updating metadata (%d/%d)", fails, len(servs))
 	}
 	msLog.Debugf("success finish object %s", data.FileName)
-- 
2.43.0


From 015f7a3e191f81fa30944e27634821b8b51707f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:58 +0000
Subject: [PATCH 40/97] fix: a migrated object is received into a temp file and
 counted when it is whole

---
 .../controller/grpc/migration_server.go       | 20 ++++++++--
 .../usecase/service/migration_service.go      | 39 +++++++++++++------
 2 files changed, 44 insertions(+), 15 deletions(-)

diff --git a/src/objectserver/internal/controller/grpc/migration_server.go b/src/objectserver/internal/controller/grpc/migration_server.go
index c9b6327..aa88d67 100644
--- a/src/objectserver/internal/controller/grpc/migration_server.go
+++ b/src/objectserver/internal/controller/grpc/migration_server.go
@@ -28,13 +28,26 @@ func NewMigrationServer(service *service.MigrationService) *MigrationServer {
 }
 
 func (ms *MigrationServer) ReceiveData(stream pb.ObjectMigration_ReceiveDataServer) (err error) {
-	var file io.WriteCloser
-	var data *pb.ObjectData
-	defer util.CloseAndLog(file)
+	var file *os.File
+	var data, first *pb.ObjectData
+	defer func() {
+		if file != nil {
+			// close and remove what is not wholly received
+			util.LogErr(file.Close())
+			if inner := os.Remove(file.Name()); inner != nil && !os.IsNotExist(inner) {
+				logs.Std().Error(inner)
+			}
+		}
+	}()
 	logs.Std().Debug("start receive data...")
 	for {
 		data, err = stream.Recv()
 		if err == io.EOF {
+			if file != nil {
+				if err = ms.Service.CommitReceived(file.Name(), first.FileName, first.Size); err != nil {
+					break
+				}
+			}
 			return stream.SendMsg(&pb.Response{Success: true})
 		}
 		if err != nil {
@@ -53,6 +66,7 @@ func (ms *MigrationServer) ReceiveData(stream pb.ObjectMigration_ReceiveDataServ
 				}
 				break
 			}
+			first = data
 		}
 		if _, err = file.Write(data.Data); err != nil {
 			break
diff --git a/src/objectserver/internal/usecase/service/migration_service.go b/src/objectserver/internal/usecase/service/migration_service.go
index e41e416..8d3146f 100644
--- a/src/objectserver/internal/usecase/service/migration_service.go
+++ b/src/objectserver/internal/usecase/service/migration_service.go
@@ -321,22 +321,37 @@ func (ms *MigrationService) FinishObject(data *pb.ObjectInfo) error {
 	return nil
 }
 
+// OpenFile opens a temp file for receiving the object. returns os.ErrExist if the object exists with same size
 func (ms *MigrationService) OpenFile(name string, size int64) (*os.File, error) {
-	path, ok := FindRealStoragePath(name)
-	if !ok {
-		path = filepath.Join(pool.DriverManager.SelectMountPointFallback(pool.Config.BaseMountPoint), pool.Config.StoragePath, name)
-		util.LogErrWithPre("path-cache update", pool.PathDB.Put(name, path))
-	}
-	stat, err := os.Stat(path)
-	if err == nil {
+	if path, ok := FindRealStoragePath(name); ok {
 		// if size equals, see as existed
-		if stat.Size() == size {
+		if stat, err := os.Stat(path); err == nil && stat.Size() == size {
 			return nil, os.ErrExist
 		}
-		// some file may migrate failure. remove it if exists.
-		if err = os.Remove(path); err != nil {
-			return nil, err
-		}
 	}
+	mp := pool.DriverManager.SelectMountPointFallback(pool.Config.BaseMountPoint)
+	path := filepath.Join(mp, pool.Config.StoragePath, GenerateTempID())
 	return os.OpenFile(path, os.O_APPEND|os.O_WRONLY|os.O_CREATE, cst.OS.ModeUser)
 }
+
+// CommitReceived moves a wholly received file to its name
+func (ms *MigrationService) CommitReceived(tempPath, name string, size int64) error {
+	stat, err := os.Stat(tempPath)
+	if err != nil {
+		return err
+	}
+	if stat.Size() != size {
+		return fmt.Errorf("file %s size expect %d, received %d", name, size, stat.Size())
+	}
+	// remove a different one if exists
+	pool.Cache.Delete(name)
+	if err = Delete(name); err != nil {
+		return err
+	}
+	path := filepath.Join(filepath.Dir(tempPath), name)
+	if err = os.Rename(tempPath, path); err != nil {
+		return err
+	}
+	markStored(name, path)
+	return nil
+}
-- 
2.43.0


From 311f46f28c762d52d41ad499c48bcb041ba19be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:37 +0000
Subject: [PATCH 41/97] fix: selecting a driver does not reorder the shared
 list of mount points

---
 .../internal/usecase/component/driver_balancer.go        | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/objectserver/internal/usecase/component/driver_balancer.go b/src/objectserver/internal/usecase/component/driver_balancer.go
index fc3912c..a52030d 100644
--- a/src/objectserver/internal/usecase/component/driver_balancer.go
+++ b/src/objectserver/internal/usecase/component/driver_balancer.go
@@ -5,7 +5,6 @@ import (
 	"common/util/slices"
 	"errors"
 	"math"
-	"sort"
 )
 
 type DriverBalancer interface {
@@ -22,10 +21,10 @@ func (sf *spaceFirstBalancer) Select(drivers []*Driver) (*Driver, error) {
 	if len(drivers) == 0 {
 		return nil, errors.New("non drivers available")
 	}
-	sort.Slice(drivers, func(i, j int) bool {
-		return drivers[i].FreeSpace < drivers[j].FreeSpace
-	})
-	return slices.Last(drivers), nil
+	// drivers is shared, must not be sorted in place
+	return slices.Extremal(drivers, func(max, cur *Driver) bool {
+		return cur.FreeSpace > max.FreeSpace
+	}), nil
 }
 
 type spaceWeightedBalancer struct {
-- 
2.43.0


From b72118e6ae93c74c8fe2279fe794d0db9e0d7c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:37 +0000
Subject: [PATCH 42/97] fix: close bodies of capacity responses

---
 src/objectserver/internal/usecase/service/migration_service.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/objectserver/internal/usecase/service/migration_service.go b/src/objectserver/internal/usecase/service/migration_service.go
index 8d3146f..494c709 100644
--- a/src/objectserver/internal/usecase/service/migration_service.go
+++ b/src/objectserver/internal/usecase/service/migration_service.go
@@ -58,6 +58,7 @@ func (ms *MigrationService) getPeersCapacity() map[string]int64 {
 			msLog.Errorf("get capacity from %s err: %s", ip, err)
 			continue
 		}
+		resp.Body.Close()
 		res[ip] = util.ToInt64(resp.Header.Get("Capacity"))
 	}
 	return res
-- 
2.43.0


From 6ca63889374416475a9a03f9164e8716370fc280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:23 +0000
Subject: [PATCH 43/97] fix: the size of a block of shards is a multiple of the
 number of data shards

---
 src/apiserver/config/config.go                  | 17 ++++++++++++++---
 src/apiserver/internal/entity/metadata.go       |  9 ++-------
 .../internal/usecase/service/stream_provider.go |  1 +
 3 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/apiserver/config/config.go b/src/apiserver/config/config.go
index f65fe02..1231de9 100644
--- a/src/apiserver/config/config.go
+++ b/src/apiserver/config/config.go
@@ -33,9 +33,7 @@ type Config struct {
 
 func (c *Config) initialize() {
 	c.Registry.ServerPort = c.Port
-	if i := c.Object.ReedSolomon.BlockSize() % cst.OS.NetPkgSize; i > 0 {
-		newSize := c.Object.ReedSolomon.BlockSize() - i + cst.OS.NetPkgSize
-		c.Object.ReedSolomon.BlockPerShard = newSize / c.Object.ReedSolomon.DataShards
+	if c.Object.ReedSolomon.Align() {
 		logs.Std().Warnf("aligned object.reedsolomon.block-per-shard to %d", c.Object.ReedSolomon.BlockPerShard)
 	}
 	if i := c.Object.Replication.BlockSize % datasize.DataSize(cst.OS.NetPkgSize); i > 0 {
@@ -92,6 +90,19 @@ func (r *RsConfig) FullSize() int {
 	return r.BlockPerShard * r.AllShards()
 }
 
+// Align increases BlockPerShard to make it a multiple of 4KB: object-server pads every part of a shard to it.
+// Returns true if changed.
+func (r *RsConfig) Align() bool {
+	origin := r.BlockPerShard
+	if i := r.BlockSize() % cst.OS.NetPkgSize; i > 0 {
+		r.BlockPerShard = (r.BlockSize() - i + cst.OS.NetPkgSize) / r.DataShards
+	}
+	if i := r.BlockPerShard % cst.OS.PageSize; i > 0 {
+		r.BlockPerShard += cst.OS.PageSize - i
+	}
+	return r.BlockPerShard != origin
+}
+
 func (r *RsConfig) ShardSize(totalSize int64) int {
 	dsNum := int64(r.DataShards)
 	return int((totalSize + dsNum - 1) / dsNum)
diff --git a/src/apiserver/internal/entity/metadata.go b/src/apiserver/internal/entity/metadata.go
index 0d31256..421f703 100644
--- a/src/apiserver/internal/entity/metadata.go
+++ b/src/apiserver/internal/entity/metadata.go
@@ -2,8 +2,6 @@ package entity
 
 import (
 	"apiserver/config"
-	"common/cst"
-	"common/util/math"
 )
 
 type VerMode int32
@@ -100,17 +98,14 @@ func (b *Bucket) MakeVersion(ver *Version, conf *config.ObjectConfig) {
 	}
 }
 
-func (b *Bucket) MakeConf(conf *config.ObjectConfig, objectSize int64) (cfg config.ObjectConfig) {
+func (b *Bucket) MakeConf(conf *config.ObjectConfig, _ int64) (cfg config.ObjectConfig) {
 	// copy of config
 	cfg = *conf
 	switch b.StoreStrategy {
 	case ECReedSolomon:
 		cfg.ReedSolomon.DataShards = b.DataShards
 		cfg.ReedSolomon.ParityShards = b.ParityShards
-		if i := cfg.ReedSolomon.BlockSize() % cst.OS.NetPkgSize; i > 0 {
-			newSize := math.MinInt(cfg.ReedSolomon.BlockSize()-i+cst.OS.NetPkgSize, int(objectSize))
-			cfg.ReedSolomon.BlockPerShard = newSize / cfg.ReedSolomon.DataShards
-		}
+		cfg.ReedSolomon.Align()
 	case MultiReplication:
 		cfg.Replication.CopiesCount = b.DataShards
 	}
diff --git a/src/apiserver/internal/usecase/service/stream_provider.go b/src/apiserver/internal/usecase/service/stream_provider.go
index 4c21d2a..bff3f59 100644
--- a/src/apiserver/internal/usecase/service/stream_provider.go
+++ b/src/apiserver/internal/usecase/service/stream_provider.go
@@ -8,6 +8,7 @@ type StreamOption struct {
 	Locates  []string
 	Bucket   string
 	Hash     string
+	Digest   string // Digest is the checksum of content
 	Name     string
 	Size     int64
 	Compress bool
-- 
2.43.0


From bbc84691e4b5b7339f6d29f78bafc46500f7cd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:23 +0000
Subject: [PATCH 44/97] fix: a shard shorter than asked for is an error, not
 the end of the object, and bodies are closed

---
 .../internal/usecase/service/get_stream.go    | 29 +++++++++++++++----
 .../internal/usecase/service/temp_stream.go   |  1 +
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/apiserver/internal/usecase/service/get_stream.go b/src/apiserver/internal/usecase/service/get_stream.go
index a2ad473..05b8cc4 100644
--- a/src/apiserver/internal/usecase/service/get_stream.go
+++ b/src/apiserver/internal/usecase/service/get_stream.go
@@ -12,6 +12,7 @@ type GetStream struct {
 	Locate   string
 	name     string
 	size     int64
+	left     int64 // bytes not read yet of the requested part
 	compress bool
 }
 
@@ -32,11 +33,18 @@ func (g *GetStream) CheckStat() error {
 }
 
 func (g *GetStream) request(offset int) error {
-	resp, err := webapi.GetObject(g.Locate, g.name, offset, g.size, g.compress)
+	g.left = g.size - int64(offset)
+	if g.left <= 0 {
+		// object-server doesn't know the size, it would answer with padding
+		g.left, g.reader = 0, http.NoBody
+		return nil
+	}
+	resp, err := webapi.GetObject(g.Locate, g.name, offset, g.left, g.compress)
 	if err != nil {
 		return err
 	}
 	if resp.StatusCode != http.StatusOK {
+		resp.Body.Close()
 		return fmt.Errorf("get object from dataServer return http code %v", resp.StatusCode)
 	}
 	g.reader = resp.Body
@@ -57,11 +65,11 @@ func (g *GetStream) Seek(offset int64, whence int) (int64, error) {
 		return offset, nil
 	}
 	if offset > 0 {
-		n, err := io.ReadFull(g.reader, make([]byte, offset))
-		if err == io.EOF || err == io.ErrUnexpectedEOF {
+		n, err := io.CopyN(io.Discard, g, offset)
+		if err == io.EOF {
 			err = nil
 		}
-		return int64(n), err
+		return n, err
 	}
 	return 0, nil
 }
@@ -72,7 +80,18 @@ func (g *GetStream) Read(bt []byte) (int, error) {
 			return 0, err
 		}
 	}
-	return g.reader.Read(bt)
+	if int64(len(bt)) > g.left {
+		bt = bt[:g.left]
+	}
+	if g.left == 0 {
+		return 0, io.EOF
+	}
+	n, err := g.reader.Read(bt)
+	if g.left -= int64(n); err == io.EOF && g.left > 0 {
+		// the object is incomplete
+		err = io.ErrUnexpectedEOF
+	}
+	return n, err
 }
 
 func (g *GetStream) Close() error {
diff --git a/src/apiserver/internal/usecase/service/temp_stream.go b/src/apiserver/internal/usecase/service/temp_stream.go
index d6a62cd..ab721eb 100644
--- a/src/apiserver/internal/usecase/service/temp_stream.go
+++ b/src/apiserver/internal/usecase/service/temp_stream.go
@@ -36,6 +36,7 @@ func (ts *tempStream) request() error {
 		return err
 	}
 	if resp.StatusCode != http.StatusOK {
+		resp.Body.Close()
 		return fmt.Errorf("get temp object from dataServer return http code %v", resp.StatusCode)
 	}
 	ts.reader = resp.Body
-- 
2.43.0


From 14edc32d6493c5ee2a68525e7b5866f6d09109e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:23 +0000
Subject: [PATCH 45/97] fix: reading with lost or short shards rebuilds them in
 order and a failing repair does not fail the read

---
 .../internal/usecase/service/rs_decoder.go    |  87 ++++++++----
 .../internal/usecase/service/rs_get_stream.go | 131 +++++++++++-------
 2 files changed, 140 insertions(+), 78 deletions(-)

diff --git a/src/apiserver/internal/usecase/service/rs_decoder.go b/src/apiserver/internal/usecase/service/rs_decoder.go
index 381a802..52cf476 100644
--- a/src/apiserver/internal/usecase/service/rs_decoder.go
+++ b/src/apiserver/internal/usecase/service/rs_decoder.go
@@ -5,8 +5,10 @@ import (
 	"apiserver/internal/usecase"
 	"common/graceful"
 	"common/logs"
+	"common/util"
 	"io"
 	"sync"
+	"sync/atomic"
 
 	"github.com/klauspost/reedsolomon"
 )
@@ -21,6 +23,8 @@ type rsDecoder struct {
 	cursor       int
 	total        int64
 	size         int64
+	rewriting    chan struct{} // closed when lost shards of blocks so far are saved
+	unsaved      []atomic.Bool // lost shards which are failed to save
 }
 
 func NewDecoder(readers []io.Reader, writes []io.Writer, size int64, rsCfg *config.RsConfig) *rsDecoder {
@@ -34,6 +38,7 @@ func NewDecoder(readers []io.Reader, writes []io.Writer, size int64, rsCfg *conf
 		cache:        buf[:0], // let cache and shardsBuffer using same address to reduce memory allocate and usage
 		shardsBuffer: buf,
 		rsCfg:        *rsCfg,
+		unsaved:      make([]atomic.Bool, len(writes)),
 	}
 }
 
@@ -71,22 +76,27 @@ func (d *rsDecoder) getData() error {
 	// read shards
 	var wg sync.WaitGroup
 	shards := make([][]byte, d.rsCfg.AllShards())
+	// all shards have the same length in a block
+	length := d.rsCfg.ShardSize(d.size - d.total)
+	if length > d.rsCfg.BlockPerShard {
+		length = d.rsCfg.BlockPerShard
+	}
 	for i := range shards {
 		if d.readers[i] == nil {
 			continue
 		}
 		// split shardsBuffer to avoid new memory alloc
-		shards[i] = d.shardsBuffer[i*d.rsCfg.BlockPerShard : (i+1)*d.rsCfg.BlockPerShard]
+		shards[i] = d.shardsBuffer[i*d.rsCfg.BlockPerShard : i*d.rsCfg.BlockPerShard+length]
 		wg.Add(1)
 		go func(idx int) {
 			defer graceful.Recover()
 			defer wg.Done()
-			n, err := io.ReadFull(d.readers[idx], shards[idx])
-			if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
+			if _, err := io.ReadFull(d.readers[idx], shards[idx]); err != nil {
 				logs.Std().Debugf("read shard %d err: %s", idx, err)
+				// lost from now on, what follows would not belong to this block
 				shards[idx] = nil
+				d.closeReader(idx)
 			}
-			shards[idx] = shards[idx][:n]
 		}(i)
 	}
 	wg.Wait()
@@ -97,41 +107,68 @@ func (d *rsDecoder) getData() error {
 	}
 
 	// save lost shards
-	var err error
+	d.rewrite(shards)
+
+	// combine data shards
+	for i := range shards[:d.rsCfg.DataShards] {
+		shardSize := int64(len(shards[i]))
+		// remove padding if exists
+		if d.total+shardSize > d.size {
+			shardSize = d.size - d.total
+		}
+		d.cache = append(d.cache, shards[i][:shardSize]...)
+		d.total += shardSize
+	}
+
+	return nil
+}
+
+// rewrite saves the lost shards of a block after those of the former blocks
+func (d *rsDecoder) rewrite(shards [][]byte) {
+	blocks := make(map[int][]byte)
+	for i, w := range d.writers {
+		if w != nil && !d.unsaved[i].Load() {
+			// shards are reused by the next block
+			blocks[i] = append([]byte(nil), shards[i]...)
+		}
+	}
+	if len(blocks) == 0 {
+		return
+	}
+	former, current := d.rewriting, make(chan struct{})
+	d.rewriting = current
 	go func() {
 		defer graceful.Recover()
+		defer close(current)
+		if former != nil {
+			<-former
+		}
+		var wg sync.WaitGroup
 		for i, w := range d.writers {
-			if w == nil {
+			if w == nil || d.unsaved[i].Load() {
 				continue
 			}
 			wg.Add(1)
 			go func(idx int, wt io.Writer) {
 				defer graceful.Recover()
 				defer wg.Done()
-				if _, inner := wt.Write(shards[idx]); inner != nil {
-					err = inner
-					logs.Std().Errorf("rewrite lost shards fail: %s", inner)
-					return
+				if _, err := wt.Write(blocks[idx]); err != nil {
+					logs.Std().Errorf("rewrite lost shards fail: %s", err)
+					// never save it without this block
+					d.unsaved[idx].Store(true)
 				}
 			}(i, w)
 		}
+		wg.Wait()
 	}()
-
-	// combine data shards
-	for i := range shards[:d.rsCfg.DataShards] {
-		shardSize := int64(len(shards[i]))
-		// remove padding if exists
-		if d.total+shardSize > d.size {
-			shardSize = d.size - d.total
-		}
-		d.cache = append(d.cache, shards[i][:shardSize]...)
-		d.total += shardSize
-	}
-
 	if !d.rsCfg.RewriteAsync {
-		wg.Wait()
-		return err
+		<-current
 	}
+}
 
-	return nil
+func (d *rsDecoder) closeReader(idx int) {
+	if c, ok := d.readers[idx].(io.Closer); ok {
+		util.LogErr(c.Close())
+	}
+	d.readers[idx] = nil
 }
diff --git a/src/apiserver/internal/usecase/service/rs_get_stream.go b/src/apiserver/internal/usecase/service/rs_get_stream.go
index 4a12272..cfe76f4 100644
--- a/src/apiserver/internal/usecase/service/rs_get_stream.go
+++ b/src/apiserver/internal/usecase/service/rs_get_stream.go
@@ -3,7 +3,6 @@ package service
 import (
 	"apiserver/config"
 	"apiserver/internal/usecase/logic"
-	"bytes"
 	"common/graceful"
 	"common/logs"
 	"common/util"
@@ -11,11 +10,13 @@ import (
 	"fmt"
 	"io"
 	"sync"
+	"sync/atomic"
 )
 
 type RSGetStream struct {
 	*rsDecoder
 	*StreamOption
+	newLocates map[int]string // where lost shards are rewritten to
 }
 
 type provideStream struct {
@@ -52,35 +53,46 @@ func NewRSGetStream(option *StreamOption, rsCfg *config.RsConfig) (*RSGetStream,
 	readers := make([]io.Reader, rsCfg.AllShards())
 	writers := make([]io.Writer, rsCfg.AllShards())
 	perSize := rsCfg.ShardSize(option.Size)
+	newLocates := make(map[int]string)
 	lb := logic.NewDiscovery().NewDataServSelector()
+	var lost int
 	for r := range provideGetStream(option.Hash, option.Locates, perSize, option.Compress) {
-		if r.err != nil {
-			logs.Std().Error(r.err)
-			ip := lb.Select()
-			writers[r.index], r.err = NewPutStream(ip, fmt.Sprintf("%s.%d", option.Hash, r.index), int64(perSize), option.Compress)
-			if r.err != nil {
-				return nil, r.err
-			}
-			// metadata update required
-			option.Locates[r.index] = ip
-		} else {
+		if r.err == nil {
 			readers[r.index] = r.stream
+			continue
+		}
+		logs.Std().Error(r.err)
+		lost++
+		ip := lb.Select()
+		stream, err := NewPutStream(ip, fmt.Sprintf("%s.%d", option.Hash, r.index), int64(perSize), option.Compress)
+		if err != nil {
+			// still readable without saving it
+			logs.Std().Errorf("rewrite lost shard %d of %s: %s", r.index, option.Hash, err)
+			continue
 		}
+		writers[r.index] = stream
+		newLocates[r.index] = ip
 	}
 	dec := NewDecoder(readers, writers, option.Size, rsCfg)
-	return &RSGetStream{dec, option}, nil
+	stream := &RSGetStream{dec, option, newLocates}
+	if len(option.Locates)-lost < rsCfg.DataShards {
+		util.LogErr(stream.Close())
+		return nil, fmt.Errorf("too much shards of %s lost (%d/%d)", option.Hash, lost, len(option.Locates))
+	}
+	return stream, nil
 }
 
-func NewRSTempStream(option *StreamOption, rsCfg *config.RsConfig) *RSGetStream {
+// NewRSTempStream reads from uploaded parts by their ids
+func NewRSTempStream(option *StreamOption, ids []string, rsCfg *config.RsConfig) *RSGetStream {
 	readers := make([]io.Reader, rsCfg.AllShards())
 	writers := make([]io.Writer, rsCfg.AllShards())
 	dsNum := int64(rsCfg.DataShards)
 	perSize := (option.Size + dsNum - 1) / dsNum
 	for idx, loc := range option.Locates {
-		readers[idx] = NewTempStream(loc, fmt.Sprintf("%s.%d", option.Hash, idx), perSize)
+		readers[idx] = NewTempStream(loc, ids[idx], perSize)
 	}
 	dec := NewDecoder(readers, writers, option.Size, rsCfg)
-	return &RSGetStream{dec, option}
+	return &RSGetStream{dec, option, nil}
 }
 
 func (g *RSGetStream) Seek(offset int64, whence int) (int64, error) {
@@ -90,50 +102,63 @@ func (g *RSGetStream) Seek(offset int64, whence int) (int64, error) {
 	if offset < 0 {
 		return 0, fmt.Errorf("rs get stream only supports forward seek offest")
 	}
-	length := int64(g.rsCfg.BlockSize())
-	buf := bytes.NewBuffer(make([]byte, length))
-	for offset > 0 {
-		if length > offset {
-			length = offset
-		}
-		n, err := io.CopyN(buf, g, length)
-		offset -= n
-		if err != nil {
-			if err == io.EOF {
-				err = nil
-			}
-			return offset, err
-		}
-		buf.Reset()
+	n, err := io.CopyN(io.Discard, g, offset)
+	if err == io.EOF {
+		err = nil
 	}
-	buf = nil
-	return offset, nil
+	return n, err
 }
 
+// Close saves the lost shards if all of them have been restored
 func (g *RSGetStream) Close() error {
-	wg := util.NewDoneGroup()
-	defer wg.Close()
-	var needUpdate bool
-	for _, w := range g.writers {
-		if util.InstanceOf[Committer](w) {
-			needUpdate = true
-			wg.Todo()
-			go func(cm Committer) {
-				defer wg.Done()
-				if e := cm.Commit(true); e != nil {
-					wg.Error(e)
-				}
-			}(w.(Committer))
+	for i := range g.readers {
+		if g.readers[i] != nil {
+			g.closeReader(i)
 		}
 	}
-	if err := wg.WaitUntilError(); err != nil {
-		return err
+	if len(g.newLocates) == 0 {
+		return nil
 	}
-	if needUpdate {
-		if g.Updater == nil {
-			return errors.New("locates updater required but nil")
-		}
-		return g.Updater(g.Locates)
+	if g.rsCfg.RewriteAsync {
+		go func() {
+			defer graceful.Recover()
+			util.LogErrWithPre("rewrite lost shards", g.saveLost())
+		}()
+		return nil
+	}
+	return g.saveLost()
+}
+
+func (g *RSGetStream) saveLost() error {
+	if g.rewriting != nil {
+		<-g.rewriting
+	}
+	// a part of shard must not be taken for the shard
+	complete := g.total == g.size
+	errs := make([]error, len(g.writers))
+	locates := append([]string(nil), g.Locates...)
+	var wg sync.WaitGroup
+	var saved atomic.Bool
+	for i := range g.newLocates {
+		wg.Add(1)
+		go func(idx int) {
+			defer wg.Done()
+			defer graceful.Recover(func(msg string) { errs[idx] = errors.New(msg) })
+			ok := complete && !g.unsaved[idx].Load()
+			errs[idx] = g.writers[idx].(Committer).Commit(ok)
+			if ok && errs[idx] == nil {
+				locates[idx] = g.newLocates[idx]
+				saved.Store(true)
+			}
+		}(i)
+	}
+	wg.Wait()
+	if !saved.Load() {
+		return errors.Join(errs...)
+	}
+	if g.Updater == nil {
+		return errors.New("locates updater required but nil")
 	}
-	return nil
+	g.Locates = locates
+	return errors.Join(append(errs, g.Updater(locates))...)
 }
-- 
2.43.0


From 242c6e47def485fc326eab118260f9898f41928a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:23 +0000
Subject: [PATCH 46/97] fix: reading and repairing copies keeps the size and
 reports errors

---
 .../internal/usecase/service/copy_fix_stream.go      | 12 ++++++++++--
 .../internal/usecase/service/copy_get_stream.go      |  6 ++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/apiserver/internal/usecase/service/copy_fix_stream.go b/src/apiserver/internal/usecase/service/copy_fix_stream.go
index f72fb47..aecc3f0 100644
--- a/src/apiserver/internal/usecase/service/copy_fix_stream.go
+++ b/src/apiserver/internal/usecase/service/copy_fix_stream.go
@@ -15,6 +15,8 @@ import (
 type CopyFixStream struct {
 	fileNames []string
 	locates   []string
+	all       []string // locates of all copies after fixing
+	size      int64
 	compress  bool
 	buffer    *bytes.Buffer
 	rpConfig  *config.ReplicationConfig
@@ -25,6 +27,8 @@ func NewCopyFixStream(lostNames []string, newLocates []string, opt *StreamOption
 	return &CopyFixStream{
 		fileNames: lostNames,
 		locates:   newLocates,
+		all:       opt.Locates,
+		size:      opt.Size,
 		rpConfig:  cfg,
 		compress:  opt.Compress,
 		buffer:    bytes.NewBuffer(make([]byte, 0, opt.Size)),
@@ -37,6 +41,10 @@ func (c *CopyFixStream) Write(bt []byte) (int, error) {
 }
 
 func (c *CopyFixStream) Close() error {
+	if int64(c.buffer.Len()) != c.size {
+		// a part of object must not be taken for the copy
+		return nil
+	}
 	wait := c.startFix()
 	if c.rpConfig.CopyAsync {
 		go func() {
@@ -61,7 +69,7 @@ func (c *CopyFixStream) startFix() func() error {
 			go func(i int, key string) {
 				defer wg.Done()
 				if err := webapi.PutObject(c.locates[i], key, c.compress, bytes.NewBuffer(data)); err != nil {
-					errs.Add(fmt.Sprintf("fix %s put-api err: %w", key, err))
+					errs.Add(fmt.Sprintf("fix %s put-api err: %s", key, err))
 				}
 			}(idx, name)
 		}
@@ -74,7 +82,7 @@ func (c *CopyFixStream) startFix() func() error {
 			dg.Error(errors.New("locates updater required but nil"))
 			return
 		}
-		if err := c.Updater(c.locates); err != nil {
+		if err := c.Updater(c.all); err != nil {
 			dg.Error(err)
 			return
 		}
diff --git a/src/apiserver/internal/usecase/service/copy_get_stream.go b/src/apiserver/internal/usecase/service/copy_get_stream.go
index 894178e..b595ce5 100644
--- a/src/apiserver/internal/usecase/service/copy_get_stream.go
+++ b/src/apiserver/internal/usecase/service/copy_get_stream.go
@@ -17,6 +17,8 @@ func NewCopyGetStream(opt *StreamOption, rpCfg *config.ReplicationConfig) (*Copy
 	var getStream io.ReadSeekCloser
 	var err error
 	var failIds, newLocates []string
+	// locates of origin are valid until copies are fixed
+	opt.Locates = append([]string(nil), opt.Locates...)
 	lb := logic.NewDiscovery().NewDataServSelector()
 	for idx, loc := range opt.Locates {
 		id := fmt.Sprint(opt.Hash, ".", idx)
@@ -45,8 +47,8 @@ func NewCopyGetStream(opt *StreamOption, rpCfg *config.ReplicationConfig) (*Copy
 func (c *CopyGetStream) Read(p []byte) (n int, err error) {
 	n, err = c.reader.Read(p)
 	if c.writer != nil && n > 0 {
-		if n, err = c.writer.Write(p[:n]); err != nil {
-			return
+		if _, inner := c.writer.Write(p[:n]); inner != nil {
+			return n, inner
 		}
 	}
 	return
-- 
2.43.0


From 3e15db1b7ab259a7c71af09e19da125043c65175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:23 +0000
Subject: [PATCH 47/97] fix: aborting an upload does not flush buffered data,
 and no parity shards is not a panic

---
 src/apiserver/internal/usecase/service/copy_put_stream.go | 6 ++++--
 src/apiserver/internal/usecase/service/rs_encoder.go      | 7 ++++---
 src/apiserver/internal/usecase/service/rs_put_stream.go   | 6 ++++--
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/apiserver/internal/usecase/service/copy_put_stream.go b/src/apiserver/internal/usecase/service/copy_put_stream.go
index 01a1b0b..7c33f9d 100644
--- a/src/apiserver/internal/usecase/service/copy_put_stream.go
+++ b/src/apiserver/internal/usecase/service/copy_put_stream.go
@@ -93,8 +93,10 @@ func (c *CopyPutStream) Close() error {
 }
 
 func (c *CopyPutStream) Commit(ok bool) error {
-	if err := c.Flush(); err != nil {
-		return err
+	if ok {
+		if err := c.Flush(); err != nil {
+			return err
+		}
 	}
 	wg := util.NewDoneGroup()
 	defer wg.Close()
diff --git a/src/apiserver/internal/usecase/service/rs_encoder.go b/src/apiserver/internal/usecase/service/rs_encoder.go
index 75441e0..aff8ee6 100644
--- a/src/apiserver/internal/usecase/service/rs_encoder.go
+++ b/src/apiserver/internal/usecase/service/rs_encoder.go
@@ -19,9 +19,10 @@ type rsEncoder struct {
 func NewEncoder(wrs []io.WriteCloser, rsCfg *config.RsConfig) *rsEncoder {
 	enc, _ := reedsolomon.New(rsCfg.DataShards, rsCfg.ParityShards, reedsolomon.WithAutoGoroutines(rsCfg.BlockPerShard))
 	return &rsEncoder{
-		writers:  wrs,
-		enc:      enc,
-		cache:    make([]byte, 0, rsCfg.BlockSize()),
+		writers: wrs,
+		enc:     enc,
+		// splitting pads up to one byte for each shard
+		cache:    make([]byte, 0, rsCfg.BlockSize()+rsCfg.DataShards),
 		rsConfig: *rsCfg,
 	}
 }
diff --git a/src/apiserver/internal/usecase/service/rs_put_stream.go b/src/apiserver/internal/usecase/service/rs_put_stream.go
index 2921064..500b25e 100644
--- a/src/apiserver/internal/usecase/service/rs_put_stream.go
+++ b/src/apiserver/internal/usecase/service/rs_put_stream.go
@@ -46,8 +46,10 @@ func newExistedRSPutStream(ips, ids []string, hash string, compress bool, rsCfg
 }
 
 func (p *RSPutStream) Commit(ok bool) error {
-	if _, err := p.Flush(); err != nil {
-		return err
+	if ok {
+		if _, err := p.Flush(); err != nil {
+			return err
+		}
 	}
 
 	wg := util.NewDoneGroup()
-- 
2.43.0


From fe8a927317e33da6d7b915d25ec8fb4b44cb8ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:23 +0000
Subject: [PATCH 48/97] fix: selecting among no servers returns none

---
 src/apiserver/internal/usecase/componet/selector/selectors.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/apiserver/internal/usecase/componet/selector/selectors.go b/src/apiserver/internal/usecase/componet/selector/selectors.go
index 1666c2a..824c197 100644
--- a/src/apiserver/internal/usecase/componet/selector/selectors.go
+++ b/src/apiserver/internal/usecase/componet/selector/selectors.go
@@ -51,6 +51,9 @@ func (i *IPSelector) Select() string {
 	if len(i.IPs) == 0 {
 		i.used, i.IPs = i.IPs, i.used
 	}
+	if len(i.IPs) == 0 {
+		return ""
+	}
 	var ip string
 	i.IPs, ip = i.Selector.Pop(i.IPs)
 	i.used = append(i.used, ip)
-- 
2.43.0


From e7ac1175f4eb45f258fff4b330e509005c1b6172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:23 +0000
Subject: [PATCH 49/97] fix: located shards are distinct and in range, and a
 stored object is flushed before it is committed

---
 .../internal/usecase/service/object_service.go    | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/apiserver/internal/usecase/service/object_service.go b/src/apiserver/internal/usecase/service/object_service.go
index 1e4189b..2be9067 100644
--- a/src/apiserver/internal/usecase/service/object_service.go
+++ b/src/apiserver/internal/usecase/service/object_service.go
@@ -14,7 +14,6 @@ import (
 	"common/response"
 	"common/util"
 	"common/util/crypto"
-	"common/util/math"
 	"context"
 	"errors"
 	"fmt"
@@ -97,8 +96,11 @@ func (o *ObjectService) LocateObject(hash string, shardNum int) ([]string, bool)
 			for _, event := range resp.Events {
 				ip, idx := getLocateResp(string(event.Kv.Value))
 				logs.Std().Debugf("located success for index %d of %s at %s", idx, hash, ip)
-				locates[idx] = ip
-				cnt++
+				// count every shard once even if more than one server answer
+				if idx >= 0 && idx < len(locates) && locates[idx] == "" {
+					locates[idx] = ip
+					cnt++
+				}
 			}
 		case <-tt.C:
 			logs.Std().Warnf("locate object %s timeout!", hash)
@@ -119,7 +121,7 @@ func (o *ObjectService) StoreObject(req *entity.PutReq, md *entity.Metadata) (vn
 		defer dg.Done()
 		var inner error
 		metadata, inner = o.metaService.GetMetadata(md.Name, md.Bucket, int32(entity.VerModeNot), true)
-		if err != nil && !response.CheckErrStatus(404, inner) {
+		if inner != nil && !response.CheckErrStatus(404, inner) {
 			dg.Error(inner)
 		}
 	}()
@@ -256,10 +258,7 @@ func NewStreamProvider(opt *StreamOption, ver *entity.Version) StreamProvider {
 		cfg.DataShards = ver.DataShards
 		cfg.ParityShards = ver.ParityShards
 		// aligned block size
-		if i := cfg.BlockSize() % cst.OS.NetPkgSize; i > 0 {
-			newSize := math.MinInt(cfg.BlockSize()-i+cst.OS.NetPkgSize, int(opt.Size))
-			cfg.BlockPerShard = newSize / cfg.DataShards
-		}
+		cfg.Align()
 		return RsStreamProvider(opt, &cfg)
 	case entity.MultiReplication:
 		cfg := pool.Config.Object.Replication
-- 
2.43.0


From 15d60e7ffc07bdd441a8646894302483b24bbd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:23 +0000
Subject: [PATCH 50/97] fix: ranges of objects are validated and answered with
 their true length

---
 .../internal/controller/http/objects_api.go   | 30 ++++++++++++++-----
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/apiserver/internal/controller/http/objects_api.go b/src/apiserver/internal/controller/http/objects_api.go
index 1bd1801..995726e 100644
--- a/src/apiserver/internal/controller/http/objects_api.go
+++ b/src/apiserver/internal/controller/http/objects_api.go
@@ -9,6 +9,8 @@ import (
 	"common/util"
 	"github.com/gin-gonic/gin"
 	"io"
+	"net/http"
+	"strconv"
 )
 
 type ObjectsController struct {
@@ -75,22 +77,36 @@ func (oc *ObjectsController) Get(c *gin.Context) {
 	}
 	defer util.CloseAndLog(stream)
 	// try seek
+	length := metaData.Versions[0].Size
 	if tp, ok := req.Range.GetFirstBytes(); ok {
+		if tp.First >= length || tp.Second > 0 && tp.Second < tp.First {
+			response.Exec(c).Fail(http.StatusRequestedRangeNotSatisfiable, "range is not satisfiable")
+			return
+		}
 		if _, err = stream.Seek(tp.First, io.SeekCurrent); err != nil {
 			response.FailErr(err, c)
 			return
 		}
+		// the last byte is included
+		if tp.Second > 0 && tp.Second < length {
+			length = tp.Second + 1
+		}
+		length -= tp.First
 	}
-	// copy to response
-	n, err := io.Copy(c.Writer, stream)
-	if err != nil {
+	// copy to response. a response shorter than its length is known as broken
+	c.Header("Accept-Ranges", "bytes")
+	c.Header("Content-Length", strconv.FormatInt(length, 10))
+	if _, err = io.CopyN(c.Writer, stream, length); err != nil {
 		logs.Std().Error(err)
+		if !c.Writer.Written() {
+			c.Writer.Header().Del("Content-Length")
+			response.FailErr(err, c)
+			return
+		}
+		c.Abort()
 		return
 	}
-	response.OkHeader(gin.H{
-		"Accept-Ranges":  "bytes",
-		"Content-Length": n,
-	}, c)
+	c.Status(http.StatusOK)
 }
 
 func (oc *ObjectsController) ValidatePut(g *gin.Context) {
-- 
2.43.0


From e29141624ac9384928c97a85f1555827e04e13f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:23 +0000
Subject: [PATCH 51/97] fix: a resumed upload is committed before its metadata
 is saved and broken uploads are refused

---
 .../internal/controller/http/big_api.go       | 58 +++++++++++--------
 src/apiserver/internal/usecase/errors.go      |  1 +
 .../usecase/service/rs_resumable_stream.go    | 41 ++++++++++---
 3 files changed, 69 insertions(+), 31 deletions(-)

diff --git a/src/apiserver/internal/controller/http/big_api.go b/src/apiserver/internal/controller/http/big_api.go
index ee8f1bc..abb7392 100644
--- a/src/apiserver/internal/controller/http/big_api.go
+++ b/src/apiserver/internal/controller/http/big_api.go
@@ -1,7 +1,6 @@
 package http
 
 import (
-	"apiserver/config"
 	"apiserver/internal/entity"
 	"apiserver/internal/usecase"
 	"apiserver/internal/usecase/pool"
@@ -76,7 +75,7 @@ func (bc *BigObjectsController) Post(g *gin.Context) {
 			ShardSize:     conf.ShardSize(req.Size),
 			StoreStrategy: entity.ECReedSolomon,
 		}
-		verNum, err := bc.finishUpload(req.Name, req.Bucket, object, &conf)
+		verNum, err := bc.finishUpload(req.Name, req.Bucket, object)
 		if err != nil {
 			response.FailErr(err, g)
 			return
@@ -95,6 +94,7 @@ func (bc *BigObjectsController) Post(g *gin.Context) {
 	}
 	stream, e := service.NewRSResumablePutStream(&service.StreamOption{
 		Hash:     uniqueHash,
+		Digest:   req.Hash,
 		Name:     req.Name,
 		Size:     req.Size,
 		Bucket:   req.Bucket,
@@ -165,7 +165,8 @@ func (bc *BigObjectsController) Patch(g *gin.Context) {
 	}
 	curSize += n
 	if curSize < stream.Size {
-		// not read enough, see as interrupted
+		// not read enough, see as interrupted. a part of block is not saved
+		curSize -= stream.Buffered()
 		response.Exec(g).Status(http.StatusPartialContent).
 			Header(gin.H{"Content-Length": curSize})
 		return
@@ -177,21 +178,32 @@ func (bc *BigObjectsController) Patch(g *gin.Context) {
 		return
 	}
 	// if curSize equals expected size
+	if _, err = stream.Flush(); err != nil {
+		response.FailErr(err, g)
+		return
+	}
+	// validate digest
+	if pool.Config.Object.Checksum && !bc.validate(stream) {
+		util.LogErr(stream.Commit(false))
+		response.FailErr(response.NewError(http.StatusForbidden, "signature authentication failure"), g)
+		return
+	}
+	// metadata must not refer to an object which is not stored
+	if err = stream.Commit(true); err != nil {
+		response.FailErr(err, g)
+		return
+	}
 	verNum, err := bc.finishUpload(stream.Name, stream.Bucket, &entity.Version{
 		Hash:          stream.Hash,
 		Size:          stream.Size,
+		Compress:      stream.Compress,
 		Locate:        stream.Servers,
 		DataShards:    stream.Config.DataShards,
 		ParityShards:  stream.Config.ParityShards,
 		ShardSize:     stream.Config.ShardSize(stream.Size),
 		StoreStrategy: entity.ECReedSolomon,
-	}, stream.Config)
+	})
 	if err != nil {
-		util.LogErr(stream.Commit(false))
-		response.FailErr(err, g)
-		return
-	}
-	if err = stream.Commit(true); err != nil {
 		response.FailErr(err, g)
 		return
 	}
@@ -202,20 +214,18 @@ func (bc *BigObjectsController) Patch(g *gin.Context) {
 	}, g)
 }
 
-func (bc *BigObjectsController) finishUpload(metaName, bucketName string, v *entity.Version, conf *config.RsConfig) (verNum int32, err error) {
-	// validate digest
-	if pool.Config.Object.Checksum {
-		getStream := service.NewRSTempStream(&service.StreamOption{
-			Hash:    v.Hash,
-			Size:    v.Size,
-			Locates: v.Locate,
-		}, conf)
-		hash := crypto.SHA256IO(getStream)
-		if hash != v.Hash {
-			err = response.NewError(http.StatusForbidden, "signature authentication failure")
-			return
-		}
-	}
+// validate compares the digest of uploaded data
+func (bc *BigObjectsController) validate(stream *service.RSResumablePutStream) bool {
+	getStream := service.NewRSTempStream(&service.StreamOption{
+		Hash:    stream.Hash,
+		Size:    stream.Size,
+		Locates: stream.Servers,
+	}, stream.Ids, stream.Config)
+	defer util.CloseAndLog(getStream)
+	return crypto.SHA256IO(getStream) == stream.Digest
+}
+
+func (bc *BigObjectsController) finishUpload(metaName, bucketName string, v *entity.Version) (verNum int32, err error) {
 	dg := util.NewDoneGroup()
 	defer dg.Close()
 	// get metadata if exist
@@ -225,7 +235,7 @@ func (bc *BigObjectsController) finishUpload(metaName, bucketName string, v *ent
 		defer dg.Done()
 		var inner error
 		metadata, inner = bc.metaService.GetMetadata(metaName, bucketName, int32(entity.VerModeNot), true)
-		if err != nil && !response.CheckErrStatus(404, inner) {
+		if inner != nil && !response.CheckErrStatus(404, inner) {
 			dg.Error(inner)
 		}
 	}()
diff --git a/src/apiserver/internal/usecase/errors.go b/src/apiserver/internal/usecase/errors.go
index 03e87d3..331f427 100644
--- a/src/apiserver/internal/usecase/errors.go
+++ b/src/apiserver/internal/usecase/errors.go
@@ -12,6 +12,7 @@ var (
 	ErrNotFound           = response.NewError(http.StatusNotFound, "resource not found")
 	ErrMetadataExists     = response.NewError(http.StatusInternalServerError, "metadata exist")
 	ErrInvalidFile        = response.NewError(http.StatusBadRequest, "invalid file")
+	ErrBrokenUpload       = response.NewError(http.StatusConflict, "upload is broken, restart it")
 	ErrOverRead           = errors.New("read to much data")
 	ErrStreamClosed       = errors.New("stream closed")
 )
diff --git a/src/apiserver/internal/usecase/service/rs_resumable_stream.go b/src/apiserver/internal/usecase/service/rs_resumable_stream.go
index 0144921..bbf06f3 100644
--- a/src/apiserver/internal/usecase/service/rs_resumable_stream.go
+++ b/src/apiserver/internal/usecase/service/rs_resumable_stream.go
@@ -2,6 +2,7 @@ package service
 
 import (
 	"apiserver/config"
+	"apiserver/internal/usecase"
 	"apiserver/internal/usecase/webapi"
 	"common/util"
 	"encoding/base64"
@@ -13,6 +14,7 @@ type resumeToken struct {
 	Size     int64            `json:"size"`
 	Name     string           `json:"name"`
 	Hash     string           `json:"hash"`
+	Digest   string           `json:"digest"`
 	Bucket   string           `json:"bucket"`
 	Servers  []string         `json:"servers"`
 	Ids      []string         `json:"ids"`
@@ -51,6 +53,7 @@ func NewRSResumablePutStream(opt *StreamOption, rsCfg *config.RsConfig) (*RSResu
 	token := &resumeToken{
 		Name:     opt.Name,
 		Hash:     opt.Hash,
+		Digest:   opt.Digest,
 		Bucket:   opt.Bucket,
 		Servers:  opt.Locates,
 		Size:     opt.Size,
@@ -63,17 +66,41 @@ func NewRSResumablePutStream(opt *StreamOption, rsCfg *config.RsConfig) (*RSResu
 
 // CurrentSize IO: 请求数据服务器获取分片大小
 func (p *RSResumablePutStream) CurrentSize() (int64, error) {
-	//只请求一个服务器，因为Rs算法保证每次上传到每个服务器的大小一致
-	size, err := webapi.HeadTmpObject(p.Servers[0], p.Ids[0])
-	if err != nil {
+	// all shards must have the same size, otherwise some of them missed a part or have half of it
+	sizes := make([]int64, len(p.Ids))
+	dg := util.NewDoneGroup()
+	defer dg.Close()
+	for i := range p.Ids {
+		dg.Todo()
+		go func(idx int) {
+			defer dg.Done()
+			var err error
+			if sizes[idx], err = webapi.HeadTmpObject(p.Servers[idx], p.Ids[idx]); err != nil {
+				dg.Error(err)
+			}
+		}(i)
+	}
+	if err := dg.WaitUntilError(); err != nil {
 		return 0, err
 	}
-	//求乘积得到当前大小
-	size *= int64(p.rsConfig.DataShards)
-	if size > p.Size {
+	for _, size := range sizes {
+		if size != sizes[0] {
+			return 0, usecase.ErrBrokenUpload
+		}
+	}
+	if sizes[0] >= int64(p.rsConfig.ShardSize(p.Size)) {
 		return p.Size, nil
 	}
-	return size, nil
+	if sizes[0]%int64(p.rsConfig.BlockPerShard) != 0 {
+		return 0, usecase.ErrBrokenUpload
+	}
+	//求乘积得到当前大小
+	return sizes[0] * int64(p.rsConfig.DataShards), nil
+}
+
+// Buffered returns size of data waiting for the rest of block
+func (p *RSResumablePutStream) Buffered() int64 {
+	return int64(len(p.cache))
 }
 
 // Token 上传记录
-- 
2.43.0


From 376fe8d1d7f9e6cbd510232300eb5883b35e5849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:46 +0000
Subject: [PATCH 52/97] fix: a refusal for lack of servers is answered with
 status 503

---
 src/common/response/response.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/common/response/response.go b/src/common/response/response.go
index f1687c3..72bc116 100644
--- a/src/common/response/response.go
+++ b/src/common/response/response.go
@@ -95,11 +95,10 @@ func BadRequestMsg(msg string, c *gin.Context) *GinExecutor {
 }
 
 func ServiceUnavailableMsg(msg string, c *gin.Context) *GinExecutor {
-	ge := &GinExecutor{c}
-	return ge.Status(http.StatusServiceUnavailable).
-		JSON(&FailureResp{
-			Message: msg,
-		})
+	c.JSON(http.StatusServiceUnavailable, &FailureResp{
+		Message: msg,
+	})
+	return &GinExecutor{c}
 }
 
 func ServiceUnavailableErr(err error, c *gin.Context) *GinExecutor {
-- 
2.43.0


From 56df6646993b8dd6c5ffc144ca900d77a3366c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:46 +0000
Subject: [PATCH 53/97] fix: made-up upload tokens and negative sizes are
 refused instead of panicking

---
 src/apiserver/internal/entity/dto.go                   |  2 +-
 .../internal/usecase/service/rs_resumable_stream.go    | 10 +++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/apiserver/internal/entity/dto.go b/src/apiserver/internal/entity/dto.go
index 21388e6..e44d419 100644
--- a/src/apiserver/internal/entity/dto.go
+++ b/src/apiserver/internal/entity/dto.go
@@ -43,7 +43,7 @@ type BigPostReq struct {
 	Name     string `uri:"name" binding:"required"`
 	Bucket   string `header:"bucket" binding:"required"`
 	Hash     string `header:"digest" binding:"required"`
-	Size     int64  `header:"size" binding:"required"`
+	Size     int64  `header:"size" binding:"required,min=1"`
 	Ext      string
 }
 
diff --git a/src/apiserver/internal/usecase/service/rs_resumable_stream.go b/src/apiserver/internal/usecase/service/rs_resumable_stream.go
index bbf06f3..0b3e87a 100644
--- a/src/apiserver/internal/usecase/service/rs_resumable_stream.go
+++ b/src/apiserver/internal/usecase/service/rs_resumable_stream.go
@@ -21,6 +21,14 @@ type resumeToken struct {
 	Config   *config.RsConfig `json:"config"`
 }
 
+// valid tells if a token, which is sent by client, can be used
+func (t *resumeToken) valid() bool {
+	if t.Config == nil || t.Config.DataShards <= 0 || t.Config.ParityShards < 0 || t.Config.BlockPerShard <= 0 {
+		return false
+	}
+	return len(t.Ids) == t.Config.AllShards() && len(t.Servers) == len(t.Ids)
+}
+
 // RSResumablePutStream 断点续传
 type RSResumablePutStream struct {
 	*RSPutStream
@@ -34,7 +42,7 @@ func NewRSResumablePutStreamFromToken(token string) (*RSResumablePutStream, erro
 		return nil, err
 	}
 	var tk resumeToken
-	if ok := util.GobDecode(bt, &tk); ok {
+	if ok := util.GobDecode(bt, &tk); ok && tk.valid() {
 		return &RSResumablePutStream{newExistedRSPutStream(tk.Servers, tk.Ids, tk.Hash, tk.Compress, tk.Config), &tk}, nil
 	}
 	return nil, fmt.Errorf("invalid token")
-- 
2.43.0


From fdfef405745b22b51d408b3f486b03365bc9d6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:17 +0000
Subject: [PATCH 54/97] fix: count read and write times of all drives and
 report zeros without drives

---
 src/common/system/disk/stat.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/system/disk/stat.go b/src/common/system/disk/stat.go
index 70f8262..5ca2fd0 100644
--- a/src/common/system/disk/stat.go
+++ b/src/common/system/disk/stat.go
@@ -43,9 +43,13 @@ func GetAverageIOStats() (*IOStats, error) {
 		ioStat.WeightedIO += s.WeightedIO
 		ioStat.ReadCount += s.ReadCount
 		ioStat.WriteCount += s.WriteCount
-		ioStat.ReadTime += ioStat.ReadTime
+		ioStat.ReadTime += s.ReadTime
+		ioStat.WriteTime += s.WriteTime
 	}
 	total := uint64(len(allIoStats))
+	if total == 0 {
+		return &ioStat, nil
+	}
 	ioStat.WeightedIO /= total
 	ioStat.IoTime /= total
 	ioStat.CurrentIOs /= total
-- 
2.43.0


From 2d651e1baa9bc5a636b709faef193f5f234695d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:17 +0000
Subject: [PATCH 55/97] fix: compare weighted IO of object servers without
 cutting it to 32 bits

---
 .../internal/usecase/componet/selector/weighted_io_first.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/apiserver/internal/usecase/componet/selector/weighted_io_first.go b/src/apiserver/internal/usecase/componet/selector/weighted_io_first.go
index 8d3bc7a..c542fea 100644
--- a/src/apiserver/internal/usecase/componet/selector/weighted_io_first.go
+++ b/src/apiserver/internal/usecase/componet/selector/weighted_io_first.go
@@ -17,7 +17,7 @@ var (
 	//  last update of this field.  This can provide an easy measure of both
 	//  I/O completion time and the backlog that may be accumulating.
 	//  See more: http://www.mjmwired.net/kernel/Documentation/iostats.txt
-	weightedIOMap       = map[string]int32{}
+	weightedIOMap       = map[string]int64{}
 	weightedIOLock      = sync.Mutex{}
 	weightedIOUpdatedAt time.Time
 )
@@ -39,7 +39,7 @@ func (s *WeightedIOFirst) fetchIoInfo(ds []string) {
 			delete(weightedIOMap, ip)
 			continue
 		}
-		weightedIOMap[ip] = util.ToInt32(hd.Get("Weighted-IO"))
+		weightedIOMap[ip] = util.ToInt64(hd.Get("Weighted-IO"))
 	}
 	weightedIOUpdatedAt = time.Now()
 }
@@ -51,7 +51,7 @@ func (s *WeightedIOFirst) Pop(ds []string) ([]string, string) {
 	idx := slices.ExtremalIndex(ds, func(target, b string) bool {
 		tWeighted, ok := weightedIOMap[target]
 		if !ok {
-			tWeighted = math.MaxInt32
+			tWeighted = math.MaxInt64
 		}
 		bWeighted, ok := weightedIOMap[b]
 		if !ok {
-- 
2.43.0


From 77fb7d91b48f205bb5634c66e005e1aa39927e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:28 +0000
Subject: [PATCH 56/97] fix: replace loads of object servers at once instead of
 writing to maps others read

---
 .../componet/selector/space_first_selector.go | 47 +++++++++++++------
 .../componet/selector/weighted_io_first.go    | 38 +++++++++++----
 2 files changed, 61 insertions(+), 24 deletions(-)

diff --git a/src/apiserver/internal/usecase/componet/selector/space_first_selector.go b/src/apiserver/internal/usecase/componet/selector/space_first_selector.go
index 9178f46..137dc42 100644
--- a/src/apiserver/internal/usecase/componet/selector/space_first_selector.go
+++ b/src/apiserver/internal/usecase/componet/selector/space_first_selector.go
@@ -12,7 +12,8 @@ import (
 
 var (
 	spaceUsedMap   = map[string]int64{}
-	spaceLock      = sync.Mutex{}
+	spaceLock      = sync.Mutex{}   // held while fetching
+	spaceMux       = sync.RWMutex{} // guards map and time
 	spaceUpdatedAt time.Time
 )
 
@@ -26,29 +27,47 @@ func (s *FreeSpaceFirst) fetchSpaceInfo(ds []string) {
 		return
 	}
 	defer spaceLock.Unlock()
+	fetched := make(map[string]int64, len(ds))
+	for ip, v := range spaceUsedMap { // only written to below
+		fetched[ip] = v
+	}
 	for _, ip := range ds {
 		hd, err := webapi.StatObject(ip)
 		if err != nil {
 			logs.Std().Errorf("update space info of %s err: %s", ip, err)
-			// ip is unreachable remove from origin
-			delete(spaceUsedMap, ip)
+			delete(fetched, ip)
 			continue
 		}
-		spaceUsedMap[ip] = util.ToInt64(hd.Get("Capacity"))
+		fetched[ip] = util.ToInt64(hd.Get("Capacity"))
 	}
-	spaceUpdatedAt = time.Now()
+	spaceMux.Lock()
+	spaceUsedMap, spaceUpdatedAt = fetched, time.Now()
+	spaceMux.Unlock()
 }
 
-func (s *FreeSpaceFirst) Pop(ds []string) ([]string, string) {
-	if time.Since(spaceUpdatedAt) > 1*time.Minute {
-		s.fetchSpaceInfo(ds)
+// usedSpaces returns what is known of servers after fetching it again if it is outdated.
+// The map is never written to once it is returned.
+func (s *FreeSpaceFirst) usedSpaces(ds []string) map[string]int64 {
+	spaceMux.RLock()
+	loads, updatedAt := spaceUsedMap, spaceUpdatedAt
+	spaceMux.RUnlock()
+	if time.Since(updatedAt) <= 1*time.Minute {
+		return loads
 	}
+	s.fetchSpaceInfo(ds)
+	spaceMux.RLock()
+	defer spaceMux.RUnlock()
+	return spaceUsedMap
+}
+
+func (s *FreeSpaceFirst) Pop(ds []string) ([]string, string) {
+	loads := s.usedSpaces(ds)
 	idx := slices.ExtremalIndex(ds, func(min, b string) bool {
-		minUsed, ok := spaceUsedMap[min]
+		minUsed, ok := loads[min]
 		if !ok {
 			minUsed = math.MaxInt64
 		}
-		bUsed, ok := spaceUsedMap[b]
+		bUsed, ok := loads[b]
 		if !ok {
 			// skip if b is unreachable
 			return false
@@ -61,15 +80,13 @@ func (s *FreeSpaceFirst) Pop(ds []string) ([]string, string) {
 }
 
 func (s *FreeSpaceFirst) Select(ds []string) string {
-	if time.Since(spaceUpdatedAt) > 1*time.Minute {
-		s.fetchSpaceInfo(ds)
-	}
+	loads := s.usedSpaces(ds)
 	return slices.Extremal(ds, func(min, b string) bool {
-		minUsed, ok := spaceUsedMap[min]
+		minUsed, ok := loads[min]
 		if !ok {
 			minUsed = math.MaxInt64
 		}
-		bUsed, ok := spaceUsedMap[b]
+		bUsed, ok := loads[b]
 		if !ok {
 			// skip if b is unreachable
 			return false
diff --git a/src/apiserver/internal/usecase/componet/selector/weighted_io_first.go b/src/apiserver/internal/usecase/componet/selector/weighted_io_first.go
index c542fea..3537732 100644
--- a/src/apiserver/internal/usecase/componet/selector/weighted_io_first.go
+++ b/src/apiserver/internal/usecase/componet/selector/weighted_io_first.go
@@ -18,7 +18,8 @@ var (
 	//  I/O completion time and the backlog that may be accumulating.
 	//  See more: http://www.mjmwired.net/kernel/Documentation/iostats.txt
 	weightedIOMap       = map[string]int64{}
-	weightedIOLock      = sync.Mutex{}
+	weightedIOLock      = sync.Mutex{}   // held while fetching
+	weightedIOMux       = sync.RWMutex{} // guards map and time
 	weightedIOUpdatedAt time.Time
 )
 
@@ -32,28 +33,47 @@ func (s *WeightedIOFirst) fetchIoInfo(ds []string) {
 		return
 	}
 	defer weightedIOLock.Unlock()
+	fetched := make(map[string]int64, len(ds))
+	for ip, v := range weightedIOMap { // only written to below
+		fetched[ip] = v
+	}
 	for _, ip := range ds {
 		hd, err := webapi.StatObject(ip)
 		if err != nil {
 			logs.Std().Errorf("update space info of %s err: %s", ip, err)
-			delete(weightedIOMap, ip)
+			delete(fetched, ip)
 			continue
 		}
-		weightedIOMap[ip] = util.ToInt64(hd.Get("Weighted-IO"))
+		fetched[ip] = util.ToInt64(hd.Get("Weighted-IO"))
 	}
-	weightedIOUpdatedAt = time.Now()
+	weightedIOMux.Lock()
+	weightedIOMap, weightedIOUpdatedAt = fetched, time.Now()
+	weightedIOMux.Unlock()
 }
 
-func (s *WeightedIOFirst) Pop(ds []string) ([]string, string) {
-	if time.Since(weightedIOUpdatedAt) > 1*time.Minute {
-		s.fetchIoInfo(ds)
+// weightedIOs returns what is known of servers after fetching it again if it is outdated.
+// The map is never written to once it is returned.
+func (s *WeightedIOFirst) weightedIOs(ds []string) map[string]int64 {
+	weightedIOMux.RLock()
+	loads, updatedAt := weightedIOMap, weightedIOUpdatedAt
+	weightedIOMux.RUnlock()
+	if time.Since(updatedAt) <= 1*time.Minute {
+		return loads
 	}
+	s.fetchIoInfo(ds)
+	weightedIOMux.RLock()
+	defer weightedIOMux.RUnlock()
+	return weightedIOMap
+}
+
+func (s *WeightedIOFirst) Pop(ds []string) ([]string, string) {
+	loads := s.weightedIOs(ds)
 	idx := slices.ExtremalIndex(ds, func(target, b string) bool {
-		tWeighted, ok := weightedIOMap[target]
+		tWeighted, ok := loads[target]
 		if !ok {
 			tWeighted = math.MaxInt64
 		}
-		bWeighted, ok := weightedIOMap[b]
+		bWeighted, ok := loads[b]
 		if !ok {
 			// skip if unreachable
 			return false
-- 
2.43.0


From 13d67cd9e746878934416731cbb426bc1edb1923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:55 +0000
Subject: [PATCH 57/97] fix: discovery reads and changes lists of services
 under their lock

---
 src/common/registry/etcd_discovery.go | 7 +++++--
 src/common/registry/service_list.go   | 8 ++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/common/registry/etcd_discovery.go b/src/common/registry/etcd_discovery.go
index 5c35a33..1b3100e 100644
--- a/src/common/registry/etcd_discovery.go
+++ b/src/common/registry/etcd_discovery.go
@@ -32,11 +32,14 @@ func NewEtcdDiscovery(cli *clientv3.Client, cfg *Config) *EtcdDiscovery {
 	}
 	for _, s := range cfg.Services {
 		d.services[s] = newServiceList()
-		d.initService(s)
 	}
 	// save self
 	addr, _ := cfg.RegisterAddr()
 	d.addService(cfg.Name, addr, cfg.RegisterKey())
+	// the map is only read from here on
+	for _, s := range cfg.Services {
+		d.initService(s)
+	}
 	return d
 }
 
@@ -143,7 +146,7 @@ func (e *EtcdDiscovery) GetService(name string, id string) (string, bool) {
 
 func (e *EtcdDiscovery) GetServiceMappingWith(name string, master bool) map[string]string {
 	if sl, ok := e.services[name]; ok {
-		res := make(map[string]string, len(sl.data))
+		res := make(map[string]string, sl.Len())
 		for k, addr := range sl.copy() {
 			idx := strings.LastIndexByte(k, '/')
 			if idx < 0 {
diff --git a/src/common/registry/service_list.go b/src/common/registry/service_list.go
index e6f9e70..fb2bd95 100644
--- a/src/common/registry/service_list.go
+++ b/src/common/registry/service_list.go
@@ -16,6 +16,8 @@ func newServiceListOf(mp map[string]string) *serviceList {
 }
 
 func (s *serviceList) combine(mp map[string]string) {
+	s.lock.Lock()
+	defer s.lock.Unlock()
 	for k, v := range mp {
 		s.data[k] = v
 	}
@@ -34,9 +36,9 @@ func (s *serviceList) remove(registerKey string) {
 }
 
 func (s *serviceList) list() []string {
-	ls := make([]string, 0, len(s.data))
 	s.lock.RLock()
 	defer s.lock.RUnlock()
+	ls := make([]string, 0, len(s.data))
 	for _, v := range s.data {
 		ls = append(ls, v)
 	}
@@ -45,9 +47,9 @@ func (s *serviceList) list() []string {
 
 // copy returns a map of value=address key=registered key
 func (s *serviceList) copy() map[string]string {
-	ls := make(map[string]string, len(s.data))
 	s.lock.RLock()
 	defer s.lock.RUnlock()
+	ls := make(map[string]string, len(s.data))
 	for k, v := range s.data {
 		ls[k] = v
 	}
@@ -55,5 +57,7 @@ func (s *serviceList) copy() map[string]string {
 }
 
 func (s *serviceList) Len() int {
+	s.lock.RLock()
+	defer s.lock.RUnlock()
 	return len(s.data)
 }
-- 
2.43.0


From 2f71a99dabc0aeca4565bc1470e866207d7bf250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 58/97] fix: ids of servers and groups may contain underscores

---
 src/common/registry/etcd_discovery.go | 22 +++++-----------
 src/common/registry/etcd_registry.go  | 37 +++++++++++++++++++--------
 2 files changed, 33 insertions(+), 26 deletions(-)

diff --git a/src/common/registry/etcd_discovery.go b/src/common/registry/etcd_discovery.go
index 1b3100e..122504a 100644
--- a/src/common/registry/etcd_discovery.go
+++ b/src/common/registry/etcd_discovery.go
@@ -5,7 +5,6 @@ import (
 	"common/graceful"
 	"common/util"
 	"context"
-	"strings"
 	"time"
 
 	"go.etcd.io/etcd/api/v3/mvccpb"
@@ -107,15 +106,11 @@ func (e *EtcdDiscovery) GetServiceMapping(name string) map[string]string {
 	res := make(map[string]string)
 	if sl, ok := e.services[name]; ok {
 		for k, addr := range sl.copy() {
-			idx1 := strings.LastIndexByte(k, '/')
-			if idx1 < 0 {
+			sid, _, ok := splitKey(k)
+			if !ok {
 				continue
 			}
-			idx2 := strings.LastIndexByte(k, '_')
-			if idx2 < 0 {
-				idx2 = len(k)
-			}
-			res[k[idx1+1:idx2]] = addr
+			res[sid] = addr
 		}
 	}
 	return res
@@ -148,16 +143,11 @@ func (e *EtcdDiscovery) GetServiceMappingWith(name string, master bool) map[stri
 	if sl, ok := e.services[name]; ok {
 		res := make(map[string]string, sl.Len())
 		for k, addr := range sl.copy() {
-			idx := strings.LastIndexByte(k, '/')
-			if idx < 0 {
+			sid, role, ok := splitKey(k)
+			if !ok {
 				continue
 			}
-			sid, role, contains := strings.Cut(k[idx+1:], "_")
-			if master {
-				if !contains || role == "master" {
-					res[sid] = addr
-				}
-			} else if role == "slave" {
+			if master == (role != roleSlave) {
 				res[sid] = addr
 			}
 		}
diff --git a/src/common/registry/etcd_registry.go b/src/common/registry/etcd_registry.go
index 3161a17..71f998b 100644
--- a/src/common/registry/etcd_registry.go
+++ b/src/common/registry/etcd_registry.go
@@ -1,17 +1,38 @@
 package registry
 
 import (
-	"bytes"
 	. "common/cst"
 	"common/logs"
 	"common/util"
 	"context"
 	"fmt"
+	"strings"
+
 	clientv3 "go.etcd.io/etcd/client/v3"
 )
 
 var registryLog = logs.New("etcd-registry")
 
+const (
+	roleMaster = "master"
+	roleSlave  = "slave"
+)
+
+// splitKey returns server id and role of a key like ${group}/registry/${serv}/${id}[_${slave/master}]
+func splitKey(key string) (sid, role string, ok bool) {
+	idx := strings.LastIndexByte(key, '/')
+	if idx < 0 {
+		return "", "", false
+	}
+	sid = key[idx+1:]
+	for _, r := range []string{roleMaster, roleSlave} {
+		if s, found := strings.CutSuffix(sid, "_"+r); found {
+			return s, r, true
+		}
+	}
+	return sid, "", true
+}
+
 type EtcdRegistry struct {
 	cli     *clientv3.Client
 	cfg     Config
@@ -41,12 +62,12 @@ func (e *EtcdRegistry) Key() string {
 }
 
 func (e *EtcdRegistry) AsMaster() *EtcdRegistry {
-	e.name = fmt.Sprint(e.stdName, "_", "master")
+	e.name = fmt.Sprint(e.stdName, "_", roleMaster)
 	return e
 }
 
 func (e *EtcdRegistry) AsSlave() *EtcdRegistry {
-	e.name = fmt.Sprint(e.stdName, "_", "slave")
+	e.name = fmt.Sprint(e.stdName, "_", roleSlave)
 	return e
 }
 
@@ -58,15 +79,11 @@ func (e *EtcdRegistry) GetServiceMapping(name string) map[string]string {
 	}
 	res := make(map[string]string, len(resp.Kvs))
 	for _, kv := range resp.Kvs {
-		idx1 := bytes.LastIndexByte(kv.Key, '/')
-		if idx1 < 0 {
+		sid, _, ok := splitKey(util.BytesToStr(kv.Key))
+		if !ok {
 			continue
 		}
-		idx2 := bytes.LastIndexByte(kv.Key, '_')
-		if idx2 < 0 {
-			idx2 = len(kv.Key)
-		}
-		res[util.BytesToStr(kv.Key[idx1+1:idx2])] = util.BytesToStr(kv.Value)
+		res[sid] = util.BytesToStr(kv.Value)
 	}
 	return res
 }
-- 
2.43.0


From 5fb8e5d0dfda6792add1b844b67fbf94cf23481f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:22 +0000
Subject: [PATCH 59/97] fix: services whose names start alike are told apart

---
 src/common/registry/etcd_discovery.go | 3 +--
 src/common/registry/etcd_registry.go  | 9 +++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/common/registry/etcd_discovery.go b/src/common/registry/etcd_discovery.go
index 122504a..905a6d5 100644
--- a/src/common/registry/etcd_discovery.go
+++ b/src/common/registry/etcd_discovery.go
@@ -1,7 +1,6 @@
 package registry
 
 import (
-	"common/cst"
 	"common/graceful"
 	"common/util"
 	"context"
@@ -46,7 +45,7 @@ func (e *EtcdDiscovery) initService(serv string) {
 	go func() {
 		defer graceful.Recover()
 		// fetch kvs
-		prefix := cst.EtcdPrefix.FmtRegistry(e.group, serv)
+		prefix := servicePrefix(e.group, serv)
 		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
 		defer cancel()
 		res, err := e.cli.Get(ctx, prefix, clientv3.WithPrefix())
diff --git a/src/common/registry/etcd_registry.go b/src/common/registry/etcd_registry.go
index 71f998b..efa502a 100644
--- a/src/common/registry/etcd_registry.go
+++ b/src/common/registry/etcd_registry.go
@@ -18,6 +18,11 @@ const (
 	roleSlave  = "slave"
 )
 
+// servicePrefix returns the prefix of keys of all servers of a service, and of no service whose name only starts alike
+func servicePrefix(group, service string) string {
+	return EtcdPrefix.FmtRegistry(group, service) + "/"
+}
+
 // splitKey returns server id and role of a key like ${group}/registry/${serv}/${id}[_${slave/master}]
 func splitKey(key string) (sid, role string, ok bool) {
 	idx := strings.LastIndexByte(key, '/')
@@ -72,7 +77,7 @@ func (e *EtcdRegistry) AsSlave() *EtcdRegistry {
 }
 
 func (e *EtcdRegistry) GetServiceMapping(name string) map[string]string {
-	resp, err := e.cli.Get(context.Background(), EtcdPrefix.FmtRegistry(e.cfg.Group, name), clientv3.WithPrefix())
+	resp, err := e.cli.Get(context.Background(), servicePrefix(e.cfg.Group, name), clientv3.WithPrefix())
 	if err != nil {
 		registryLog.Errorf("get services: %s", err)
 		return map[string]string{}
@@ -89,7 +94,7 @@ func (e *EtcdRegistry) GetServiceMapping(name string) map[string]string {
 }
 
 func (e *EtcdRegistry) GetServices(name string) []string {
-	resp, err := e.cli.Get(context.Background(), EtcdPrefix.FmtRegistry(e.cfg.Group, name), clientv3.WithPrefix())
+	resp, err := e.cli.Get(context.Background(), servicePrefix(e.cfg.Group, name), clientv3.WithPrefix())
 	if err != nil {
 		registryLog.Infof("get services: %s", err)
 		return []string{}
-- 
2.43.0


From a19d02bcaad6b6ade57de1c86ad209267b4fbe01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:22 +0000
Subject: [PATCH 60/97] fix: a server knows itself by the key it registers, not
 twice

---
 src/common/registry/config.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/registry/config.go b/src/common/registry/config.go
index 3c9e51c..ea8cd50 100644
--- a/src/common/registry/config.go
+++ b/src/common/registry/config.go
@@ -1,6 +1,7 @@
 package registry
 
 import (
+	"common/cst"
 	"common/util"
 	"fmt"
 	"net"
@@ -30,7 +31,7 @@ func (c *Config) RegisterAddr() (string, bool) {
 }
 
 func (c *Config) RegisterKey() string {
-	return fmt.Sprint(c.Group, "/", c.Name, "/", c.SID())
+	return cst.EtcdPrefix.FmtRegistry(c.Group, fmt.Sprint(c.Name, "/", c.SID()))
 }
 
 func (c *Config) SID() string {
-- 
2.43.0


From 35f5011cba8dafa336356f2107b1828a0be0aba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:42 +0000
Subject: [PATCH 61/97] fix: discovery retries and misses no change between
 listing and watching or after a watch ends

---
 src/common/registry/etcd_discovery.go | 104 +++++++++++++-------------
 src/common/registry/service_list.go   |   7 +-
 2 files changed, 57 insertions(+), 54 deletions(-)

diff --git a/src/common/registry/etcd_discovery.go b/src/common/registry/etcd_discovery.go
index 905a6d5..5699ab0 100644
--- a/src/common/registry/etcd_discovery.go
+++ b/src/common/registry/etcd_discovery.go
@@ -2,7 +2,6 @@ package registry
 
 import (
 	"common/graceful"
-	"common/util"
 	"context"
 	"time"
 
@@ -16,6 +15,8 @@ type EtcdDiscovery struct {
 	services map[string]*serviceList
 	context  context.Context
 	Close    func()
+	// this server is always known
+	selfName, selfKey, selfAddr string
 }
 
 func NewEtcdDiscovery(cli *clientv3.Client, cfg *Config) *EtcdDiscovery {
@@ -32,8 +33,9 @@ func NewEtcdDiscovery(cli *clientv3.Client, cfg *Config) *EtcdDiscovery {
 		d.services[s] = newServiceList()
 	}
 	// save self
-	addr, _ := cfg.RegisterAddr()
-	d.addService(cfg.Name, addr, cfg.RegisterKey())
+	d.selfAddr, _ = cfg.RegisterAddr()
+	d.selfName, d.selfKey = cfg.Name, cfg.RegisterKey()
+	d.addService(d.selfName, d.selfAddr, d.selfKey)
 	// the map is only read from here on
 	for _, s := range cfg.Services {
 		d.initService(s)
@@ -41,64 +43,66 @@ func NewEtcdDiscovery(cli *clientv3.Client, cfg *Config) *EtcdDiscovery {
 	return d
 }
 
+// initService keeps the list of servers up to date until the discovery is closed
 func (e *EtcdDiscovery) initService(serv string) {
 	go func() {
 		defer graceful.Recover()
-		// fetch kvs
 		prefix := servicePrefix(e.group, serv)
-		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
-		defer cancel()
-		res, err := e.cli.Get(ctx, prefix, clientv3.WithPrefix())
-		if err != nil {
-			registryLog.Warnf("discovery init service %s error: %s", prefix, err)
-			return
-		}
-		// wrap kvs
-		mp := make(map[string]string)
-		for _, kv := range res.Kvs {
-			mp[util.BytesToStr(kv.Key)] = util.BytesToStr(kv.Value)
+		for e.context.Err() == nil {
+			if err := e.syncService(serv, prefix); err != nil {
+				registryLog.Errorf("discovery for %s abort: %s", serv, err)
+			}
+			// sleep 2 sec before retry
+			select {
+			case <-e.context.Done():
+			case <-time.After(2 * time.Second):
+			}
 		}
-		// init serv
-		e.services[serv].combine(mp)
-		// start watch change
-		e.asyncWatch(serv, prefix)
 	}()
 }
 
-func (e *EtcdDiscovery) asyncWatch(serv, prefix string) {
-	go func() {
-		defer graceful.Recover()
-		for {
-			var success bool
-			ch := e.cli.Watch(e.context, prefix, clientv3.WithPrefix())
-			for res := range ch {
-				if res.Canceled {
-					registryLog.Errorf("dicovery for %s abort: %s", serv, res.Err())
-					success = false
-					break
-				}
-				for _, event := range res.Events {
-					// Key will be like ${group}/registry/${serv}/${id}_${slave/master}
-					key := util.BytesToStr(event.Kv.Key)
-					addr := util.BytesToStr(event.Kv.Value)
-					switch event.Type {
-					case mvccpb.PUT:
-						registryLog.Tracef("%s:%s added", serv, addr)
-						e.addService(serv, addr, key)
-					case mvccpb.DELETE:
-						registryLog.Tracef("%s:%s removed", serv, key)
-						e.removeService(serv, key)
-					}
+// syncService takes over the servers registered now and follows their changes until watching ends
+func (e *EtcdDiscovery) syncService(serv, prefix string) error {
+	ctx, cancel := context.WithCancel(e.context)
+	defer cancel()
+	// fetch kvs
+	getCtx, cancelGet := context.WithTimeout(ctx, 5*time.Second)
+	defer cancelGet()
+	res, err := e.cli.Get(getCtx, prefix, clientv3.WithPrefix())
+	if err != nil {
+		return err
+	}
+	// wrap kvs
+	mp := make(map[string]string, len(res.Kvs)+1)
+	if serv == e.selfName {
+		mp[e.selfKey] = e.selfAddr
+	}
+	for _, kv := range res.Kvs {
+		mp[string(kv.Key)] = string(kv.Value)
+	}
+	e.services[serv].replace(mp)
+	// watch all changes since then
+	for wr := range e.cli.Watch(ctx, prefix, clientv3.WithPrefix(), clientv3.WithRev(res.Header.GetRevision()+1)) {
+		if err := wr.Err(); err != nil {
+			return err
+		}
+		for _, event := range wr.Events {
+			// Key will be like ${group}/registry/${serv}/${id}_${slave/master}
+			key := string(event.Kv.Key)
+			addr := string(event.Kv.Value)
+			switch event.Type {
+			case mvccpb.PUT:
+				registryLog.Tracef("%s:%s added", serv, addr)
+				e.addService(serv, addr, key)
+			case mvccpb.DELETE:
+				registryLog.Tracef("%s:%s removed", serv, key)
+				if key != e.selfKey {
+					e.removeService(serv, key)
 				}
 			}
-			// break if canceled by context
-			if success {
-				break
-			}
-			// sleep 2 sec before retry
-			time.Sleep(2 * time.Second)
 		}
-	}()
+	}
+	return nil
 }
 
 func (e *EtcdDiscovery) GetServiceMapping(name string) map[string]string {
diff --git a/src/common/registry/service_list.go b/src/common/registry/service_list.go
index fb2bd95..b1a8a64 100644
--- a/src/common/registry/service_list.go
+++ b/src/common/registry/service_list.go
@@ -15,12 +15,11 @@ func newServiceListOf(mp map[string]string) *serviceList {
 	return &serviceList{mp, &sync.RWMutex{}}
 }
 
-func (s *serviceList) combine(mp map[string]string) {
+// replace forgets all servers and takes over mp
+func (s *serviceList) replace(mp map[string]string) {
 	s.lock.Lock()
 	defer s.lock.Unlock()
-	for k, v := range mp {
-		s.data[k] = v
-	}
+	s.data = mp
 }
 
 func (s *serviceList) add(ip string, key string) {
-- 
2.43.0


From 04695ea2b30c1f13b893d94712072af72672cd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:03 +0000
Subject: [PATCH 62/97] fix: a server registered in a new role is unregistered
 from the old one, whichever goroutine does it

---
 src/common/registry/etcd_registry.go | 32 +++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/common/registry/etcd_registry.go b/src/common/registry/etcd_registry.go
index efa502a..6eb4225 100644
--- a/src/common/registry/etcd_registry.go
+++ b/src/common/registry/etcd_registry.go
@@ -7,6 +7,7 @@ import (
 	"context"
 	"fmt"
 	"strings"
+	"sync"
 
 	clientv3 "go.etcd.io/etcd/client/v3"
 )
@@ -44,6 +45,8 @@ type EtcdRegistry struct {
 	stdName string
 	name    string
 	addr    string
+	mux     sync.Mutex
+	saved   string // key registered last
 }
 
 func NewEtcdRegistry(kv *clientv3.Client, cfg *Config) *EtcdRegistry {
@@ -63,15 +66,25 @@ func NewEtcdRegistry(kv *clientv3.Client, cfg *Config) *EtcdRegistry {
 }
 
 func (e *EtcdRegistry) Key() string {
+	e.mux.Lock()
+	defer e.mux.Unlock()
+	return e.key()
+}
+
+func (e *EtcdRegistry) key() string {
 	return EtcdPrefix.FmtRegistry(e.cfg.Group, e.name)
 }
 
 func (e *EtcdRegistry) AsMaster() *EtcdRegistry {
+	e.mux.Lock()
+	defer e.mux.Unlock()
 	e.name = fmt.Sprint(e.stdName, "_", roleMaster)
 	return e
 }
 
 func (e *EtcdRegistry) AsSlave() *EtcdRegistry {
+	e.mux.Lock()
+	defer e.mux.Unlock()
 	e.name = fmt.Sprint(e.stdName, "_", roleSlave)
 	return e
 }
@@ -113,14 +126,27 @@ func (e *EtcdRegistry) GetService(name string, id string) (string, bool) {
 }
 
 func (e *EtcdRegistry) Register(id clientv3.LeaseID) {
-	if _, err := e.cli.Put(context.Background(), e.Key(), e.addr, clientv3.WithLease(id)); err != nil {
+	e.mux.Lock()
+	defer e.mux.Unlock()
+	key := e.key()
+	if _, err := e.cli.Put(context.Background(), key, e.addr, clientv3.WithLease(id)); err != nil {
 		registryLog.Errorf("register %s fails: %s", e.addr, err)
 		return
 	}
-	registryLog.Infof("register %s success", e.Key())
+	// a server has one role at a time
+	if e.saved != "" && e.saved != key {
+		if _, err := e.cli.Delete(context.Background(), e.saved); err != nil {
+			registryLog.Errorf("unregister %s fails: %s", e.saved, err)
+			return
+		}
+	}
+	e.saved = key
+	registryLog.Infof("register %s success", key)
 }
 
 func (e *EtcdRegistry) Unregister() error {
-	_, err := e.cli.Delete(context.Background(), e.Key())
+	e.mux.Lock()
+	defer e.mux.Unlock()
+	_, err := e.cli.Delete(context.Background(), e.key())
 	return err
 }
-- 
2.43.0


From e7d843dde0b79a9004d1f2812912e8a375d7cb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:17 +0000
Subject: [PATCH 63/97] fix: a failed lease request neither deadlocks nor
 outlives the server

---
 src/common/registry/etcd_lifecycle.go | 51 ++++++++++++++++++---------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/src/common/registry/etcd_lifecycle.go b/src/common/registry/etcd_lifecycle.go
index 927c85f..3c5124c 100644
--- a/src/common/registry/etcd_lifecycle.go
+++ b/src/common/registry/etcd_lifecycle.go
@@ -29,15 +29,27 @@ func NewLifecycle(cli clientv3.Lease, ttl time.Duration) *Lifecycle {
 	}
 }
 
-func (lc *Lifecycle) notifying() {
+func (lc *Lifecycle) notifying(lease clientv3.LeaseID) {
+	lc.mux.RLock()
+	defer lc.mux.RUnlock()
 	for _, f := range lc.notifyLease {
 		go func(fn func(id clientv3.LeaseID)) {
 			defer graceful.Recover()
-			fn(lc.lease)
+			fn(lease)
 		}(f)
 	}
 }
 
+// pause waits before the next try, it returns false if closed meanwhile
+func (lc *Lifecycle) pause() bool {
+	select {
+	case <-lc.ctx.Done():
+		return false
+	case <-time.After(5 * time.Second):
+		return true
+	}
+}
+
 func (lc *Lifecycle) Lease() clientv3.LeaseID {
 	lc.mux.RLock()
 	defer lc.mux.RUnlock()
@@ -47,35 +59,38 @@ func (lc *Lifecycle) Lease() clientv3.LeaseID {
 func (lc *Lifecycle) DeadLoop() {
 	defer graceful.Recover()
 	for {
-		// lock to update lease
-		lc.mux.Lock()
-		leaseResp, err := lc.Client.Grant(context.Background(), int64(lc.ttl.Seconds()))
+		leaseResp, err := lc.Client.Grant(lc.ctx, int64(lc.ttl.Seconds()))
 		if err != nil {
 			registryLog.Errorf("grant lifecycle lease err: %s", err)
-			time.Sleep(5 * time.Second)
-			continue
+			if lc.pause() {
+				continue
+			}
+			return
 		}
-		lc.lease = leaseResp.ID
+		lease := leaseResp.ID
+		// lock to update lease
+		lc.mux.Lock()
+		lc.lease = lease
 		lc.mux.Unlock()
 
 		// notify lease change
-		lc.notifying()
+		lc.notifying(lease)
 
 		// keepalive new lease
-		response, err := lc.Client.KeepAlive(lc.ctx, lc.lease)
+		response, err := lc.Client.KeepAlive(lc.ctx, lease)
 		if err != nil {
-			registryLog.Errorf("could not keepalive for lifecycle lease %d, err: %s", lc.lease, err)
-			time.Sleep(5 * time.Second)
-			continue
-		}
-		for r := range response {
-			registryLog.Tracef("keepalive lease %d success: ttl=%d", r.ID, r.TTL)
+			registryLog.Errorf("could not keepalive for lifecycle lease %d, err: %s", lease, err)
+			lc.pause()
+		} else {
+			for r := range response {
+				registryLog.Tracef("keepalive lease %d success: ttl=%d", r.ID, r.TTL)
+			}
 		}
 
 		// break loop if closed
 		select {
 		case <-lc.ctx.Done():
-			_, _ = lc.Client.Revoke(context.Background(), lc.lease)
+			_, _ = lc.Client.Revoke(context.Background(), lease)
 			registryLog.Infof("stop keepalive lifecycle lease")
 			return
 		default:
@@ -85,6 +100,8 @@ func (lc *Lifecycle) DeadLoop() {
 }
 
 func (lc *Lifecycle) Subscribe(fn func(id clientv3.LeaseID)) {
+	lc.mux.Lock()
+	defer lc.mux.Unlock()
 	lc.notifyLease = append(lc.notifyLease, fn)
 }
 
-- 
2.43.0


From abd576e8829bb9219c2dd6b838f5154c38fbbca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:20 +0000
Subject: [PATCH 64/97] fix: leases are told in order, and a change of role
 uses the lease registered last

---
 src/common/registry/etcd_lifecycle.go         | 24 ++++++++++++-------
 src/common/registry/etcd_registry.go          | 18 +++++++++++++-
 .../internal/usecase/logic/registry_logic.go  |  4 ++--
 3 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/src/common/registry/etcd_lifecycle.go b/src/common/registry/etcd_lifecycle.go
index 3c5124c..61496d4 100644
--- a/src/common/registry/etcd_lifecycle.go
+++ b/src/common/registry/etcd_lifecycle.go
@@ -15,7 +15,12 @@ type Lifecycle struct {
 	ttl         time.Duration
 	ctx         context.Context
 	cancel      func()
-	notifyLease []func(id clientv3.LeaseID)
+	notifyLease []*leaseSubscriber
+}
+
+type leaseSubscriber struct {
+	mux sync.Mutex
+	fn  func(id clientv3.LeaseID)
 }
 
 func NewLifecycle(cli clientv3.Lease, ttl time.Duration) *Lifecycle {
@@ -29,14 +34,17 @@ func NewLifecycle(cli clientv3.Lease, ttl time.Duration) *Lifecycle {
 	}
 }
 
-func (lc *Lifecycle) notifying(lease clientv3.LeaseID) {
+func (lc *Lifecycle) notifying() {
 	lc.mux.RLock()
 	defer lc.mux.RUnlock()
-	for _, f := range lc.notifyLease {
-		go func(fn func(id clientv3.LeaseID)) {
+	for _, s := range lc.notifyLease {
+		go func(s *leaseSubscriber) {
 			defer graceful.Recover()
-			fn(lease)
-		}(f)
+			// leases are told one by one, the latest at last
+			s.mux.Lock()
+			defer s.mux.Unlock()
+			s.fn(lc.Lease())
+		}(s)
 	}
 }
 
@@ -74,7 +82,7 @@ func (lc *Lifecycle) DeadLoop() {
 		lc.mux.Unlock()
 
 		// notify lease change
-		lc.notifying(lease)
+		lc.notifying()
 
 		// keepalive new lease
 		response, err := lc.Client.KeepAlive(lc.ctx, lease)
@@ -102,7 +110,7 @@ func (lc *Lifecycle) DeadLoop() {
 func (lc *Lifecycle) Subscribe(fn func(id clientv3.LeaseID)) {
 	lc.mux.Lock()
 	defer lc.mux.Unlock()
-	lc.notifyLease = append(lc.notifyLease, fn)
+	lc.notifyLease = append(lc.notifyLease, &leaseSubscriber{fn: fn})
 }
 
 func (lc *Lifecycle) Close() error {
diff --git a/src/common/registry/etcd_registry.go b/src/common/registry/etcd_registry.go
index 6eb4225..35aeadf 100644
--- a/src/common/registry/etcd_registry.go
+++ b/src/common/registry/etcd_registry.go
@@ -47,6 +47,7 @@ type EtcdRegistry struct {
 	addr    string
 	mux     sync.Mutex
 	saved   string // key registered last
+	lease   clientv3.LeaseID
 }
 
 func NewEtcdRegistry(kv *clientv3.Client, cfg *Config) *EtcdRegistry {
@@ -125,11 +126,26 @@ func (e *EtcdRegistry) GetService(name string, id string) (string, bool) {
 	return v, ok
 }
 
+// Register registers this server for as long as the lease lasts
 func (e *EtcdRegistry) Register(id clientv3.LeaseID) {
 	e.mux.Lock()
 	defer e.mux.Unlock()
+	e.lease = id
+	e.register()
+}
+
+// Renew registers this server in its current role under the lease it was registered with last, if there is one yet
+func (e *EtcdRegistry) Renew() {
+	e.mux.Lock()
+	defer e.mux.Unlock()
+	if e.lease != clientv3.NoLease {
+		e.register()
+	}
+}
+
+func (e *EtcdRegistry) register() {
 	key := e.key()
-	if _, err := e.cli.Put(context.Background(), key, e.addr, clientv3.WithLease(id)); err != nil {
+	if _, err := e.cli.Put(context.Background(), key, e.addr, clientv3.WithLease(e.lease)); err != nil {
 		registryLog.Errorf("register %s fails: %s", e.addr, err)
 		return
 	}
diff --git a/src/metaserver/internal/usecase/logic/registry_logic.go b/src/metaserver/internal/usecase/logic/registry_logic.go
index 5655d0b..e9de96f 100644
--- a/src/metaserver/internal/usecase/logic/registry_logic.go
+++ b/src/metaserver/internal/usecase/logic/registry_logic.go
@@ -11,8 +11,8 @@ func NewRegistry() Registry { return Registry{} }
 func (Registry) OnLeaderChanged(isLeader bool) {
 	pool.Registry.Unregister()
 	if isLeader {
-		pool.Registry.AsMaster().Register(pool.Lifecycle.Lease())
+		pool.Registry.AsMaster().Renew()
 	} else {
-		pool.Registry.AsSlave().Register(pool.Lifecycle.Lease())
+		pool.Registry.AsSlave().Renew()
 	}
 }
-- 
2.43.0


From f8c29e6f4114b7f70560b4a9b617f289ea79a0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:20 +0000
Subject: [PATCH 65/97] fix: changes of leadership reach their listeners in
 order, earlier ones included

---
 .../internal/usecase/raftimpl/raft_impl.go    | 44 +++++++++++++++----
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/src/metaserver/internal/usecase/raftimpl/raft_impl.go b/src/metaserver/internal/usecase/raftimpl/raft_impl.go
index 0f36234..003eea1 100644
--- a/src/metaserver/internal/usecase/raftimpl/raft_impl.go
+++ b/src/metaserver/internal/usecase/raftimpl/raft_impl.go
@@ -14,6 +14,7 @@ import (
 	"os"
 	"path/filepath"
 	"strings"
+	"sync"
 
 	"github.com/hashicorp/raft"
 	boltdb "github.com/hashicorp/raft-boltdb/v2"
@@ -27,11 +28,18 @@ type RaftWrapper struct {
 	ID                  string
 	Address             string
 	Enabled             bool
+	mux                 sync.RWMutex // of isLeader and leaderChangedEvents
 	isLeader            bool
-	leaderChangedEvents []IRaftLeaderChanged
+	leaderChangedEvents []*leaderListener
 	closeRaftStore      func()
 }
 
+// leaderListener is told changes one by one, the latest at last
+type leaderListener struct {
+	mux   sync.Mutex
+	event IRaftLeaderChanged
+}
+
 func NewDisabledRaft() *RaftWrapper {
 	return &RaftWrapper{Enabled: false}
 }
@@ -129,7 +137,6 @@ func (rw *RaftWrapper) subscribeLeaderCh() {
 	go func() {
 		defer graceful.Recover()
 		for is := range rw.Raft.LeaderCh() {
-			rw.isLeader = is
 			rw.OnLeaderChanged(is)
 			raftLog.Infof("server %s leader", util.IfElse(is, "become", "lose"))
 		}
@@ -137,14 +144,26 @@ func (rw *RaftWrapper) subscribeLeaderCh() {
 }
 
 func (rw *RaftWrapper) OnLeaderChanged(isLeader bool) {
-	for _, event := range rw.leaderChangedEvents {
-		go func(e IRaftLeaderChanged) {
-			defer graceful.Recover()
-			e.OnLeaderChanged(isLeader)
-		}(event)
+	rw.mux.Lock()
+	defer rw.mux.Unlock()
+	rw.isLeader = isLeader
+	for _, l := range rw.leaderChangedEvents {
+		rw.notify(l)
 	}
 }
 
+func (rw *RaftWrapper) notify(l *leaderListener) {
+	go func() {
+		defer graceful.Recover()
+		l.mux.Lock()
+		defer l.mux.Unlock()
+		rw.mux.RLock()
+		isLeader := rw.isLeader
+		rw.mux.RUnlock()
+		l.event.OnLeaderChanged(isLeader)
+	}()
+}
+
 func (rw *RaftWrapper) Init() {
 	// if enabled raft, init as slave
 	// else init as singleton master
@@ -152,7 +171,14 @@ func (rw *RaftWrapper) Init() {
 }
 
 func (rw *RaftWrapper) RegisterLeaderChangedEvent(event IRaftLeaderChanged) {
-	rw.leaderChangedEvents = append(rw.leaderChangedEvents, event)
+	rw.mux.Lock()
+	defer rw.mux.Unlock()
+	l := &leaderListener{event: event}
+	rw.leaderChangedEvents = append(rw.leaderChangedEvents, l)
+	// tell what happened before
+	if rw.isLeader {
+		rw.notify(l)
+	}
 }
 
 func (rw *RaftWrapper) GetRaftIfLeader() (IRaft, bool) {
@@ -163,6 +189,8 @@ func (rw *RaftWrapper) GetRaftIfLeader() (IRaft, bool) {
 }
 
 func (rw *RaftWrapper) IsLeader() bool {
+	rw.mux.RLock()
+	defer rw.mux.RUnlock()
 	return rw.isLeader && rw.Enabled
 }
 
-- 
2.43.0


From ea1fab7f3ac3d1e44dd11f89f1d4905ddf4200ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:20 +0000
Subject: [PATCH 66/97] fix: the lease of system info is set without a race

---
 src/apiserver/internal/app/app.go    |  2 +-
 src/common/system/syncer.go          | 14 ++++++++++----
 src/metaserver/internal/app/app.go   |  2 +-
 src/objectserver/internal/app/app.go |  2 +-
 4 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/apiserver/internal/app/app.go b/src/apiserver/internal/app/app.go
index ce6adc6..c160dbe 100644
--- a/src/apiserver/internal/app/app.go
+++ b/src/apiserver/internal/app/app.go
@@ -35,7 +35,7 @@ func Run(cfg *Config) {
 	// system-info auto saving
 	syncer := system.Syncer(pool.Etcd, cst.EtcdPrefix.FmtSystemInfo(cfg.Registry.Group, cfg.Registry.Name, cfg.Registry.SID()))
 	lifecycle.Subscribe(func(id clientv3.LeaseID) {
-		syncer.LeaseID = id
+		syncer.SetLease(id)
 		_ = syncer.Sync()
 	})
 	defer syncer.StartAutoSave()()
diff --git a/src/common/system/syncer.go b/src/common/system/syncer.go
index 9292b97..0679ec9 100644
--- a/src/common/system/syncer.go
+++ b/src/common/system/syncer.go
@@ -7,6 +7,7 @@ import (
 	"common/util"
 	"context"
 	clientv3 "go.etcd.io/etcd/client/v3"
+	"sync/atomic"
 	"time"
 )
 
@@ -15,15 +16,20 @@ var (
 )
 
 type StatSyncer struct {
-	cli     clientv3.KV
-	key     string
-	LeaseID clientv3.LeaseID
+	cli   clientv3.KV
+	key   string
+	lease atomic.Int64
 }
 
 func Syncer(c clientv3.KV, key string) *StatSyncer {
 	return &StatSyncer{cli: c, key: key}
 }
 
+// SetLease lets what is saved from now on last as long as the lease
+func (d *StatSyncer) SetLease(id clientv3.LeaseID) {
+	d.lease.Store(int64(id))
+}
+
 func (d *StatSyncer) StartAutoSave() func() {
 	ctx, cancel := context.WithCancel(context.Background())
 	tk := time.NewTicker(time.Minute)
@@ -58,7 +64,7 @@ func (d *StatSyncer) Sync() error {
 	if err != nil {
 		return err
 	}
-	_, err = d.cli.Put(context.Background(), d.key, string(bt), clientv3.WithLease(d.LeaseID))
+	_, err = d.cli.Put(context.Background(), d.key, string(bt), clientv3.WithLease(clientv3.LeaseID(d.lease.Load())))
 	return err
 }
 
diff --git a/src/metaserver/internal/app/app.go b/src/metaserver/internal/app/app.go
index 9f32826..7c195ec 100644
--- a/src/metaserver/internal/app/app.go
+++ b/src/metaserver/internal/app/app.go
@@ -45,7 +45,7 @@ func Run(cfg *config.Config) {
 	// auto sync sys-info
 	syncer := system.Syncer(pool.Etcd, cst.EtcdPrefix.FmtSystemInfo(cfg.Registry.Group, cfg.Registry.Name, cfg.Registry.SID()))
 	pool.Lifecycle.Subscribe(func(id clientv3.LeaseID) {
-		syncer.LeaseID = id
+		syncer.SetLease(id)
 		_ = syncer.Sync()
 	})
 	defer syncer.StartAutoSave()()
diff --git a/src/objectserver/internal/app/app.go b/src/objectserver/internal/app/app.go
index 1645a02..2ad553a 100644
--- a/src/objectserver/internal/app/app.go
+++ b/src/objectserver/internal/app/app.go
@@ -23,7 +23,7 @@ func Run(cfg *config.Config) {
 	// lifecycle event
 	lifecycle.Subscribe(pool.Registry.Register)
 	lifecycle.Subscribe(func(id clientv3.LeaseID) {
-		syncer.LeaseID = id
+		syncer.SetLease(id)
 		_ = syncer.Sync()
 	})
 	pool.OnOpen(func() {
-- 
2.43.0


From 2eafc89cacba0816f240391cee033d263dbdbfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:50 +0000
Subject: [PATCH 67/97] fix: a failed block of an upload is left only after all
 its writers have finished

---
 src/apiserver/internal/usecase/service/copy_put_stream.go | 5 ++++-
 src/apiserver/internal/usecase/service/rs_encoder.go      | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/apiserver/internal/usecase/service/copy_put_stream.go b/src/apiserver/internal/usecase/service/copy_put_stream.go
index 7c33f9d..30b302d 100644
--- a/src/apiserver/internal/usecase/service/copy_put_stream.go
+++ b/src/apiserver/internal/usecase/service/copy_put_stream.go
@@ -58,7 +58,10 @@ func (c *CopyPutStream) Flush() (err error) {
 			}
 		}(wt)
 	}
-	return dg.WaitUntilError()
+	err = dg.WaitUntilError()
+	// the cache is in use until all have written
+	dg.Wait()
+	return err
 }
 
 func (c *CopyPutStream) Write(p []byte) (n int, err error) {
diff --git a/src/apiserver/internal/usecase/service/rs_encoder.go b/src/apiserver/internal/usecase/service/rs_encoder.go
index aff8ee6..15005de 100644
--- a/src/apiserver/internal/usecase/service/rs_encoder.go
+++ b/src/apiserver/internal/usecase/service/rs_encoder.go
@@ -109,5 +109,8 @@ func (e *rsEncoder) Flush() (int, error) {
 		}(i, v)
 	}
 
-	return int(size), dg.WaitUntilError()
+	err = dg.WaitUntilError()
+	// the cache is in use until all have written
+	dg.Wait()
+	return int(size), err
 }
-- 
2.43.0


From 8f19a707ec8818ec914ee328013647d31b381f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:16 +0000
Subject: [PATCH 68/97] fix: drivers of an object server are replaced under a
 lock

---
 .../usecase/component/driver_manager.go       | 24 ++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/objectserver/internal/usecase/component/driver_manager.go b/src/objectserver/internal/usecase/component/driver_manager.go
index 535d6ec..88d5080 100644
--- a/src/objectserver/internal/usecase/component/driver_manager.go
+++ b/src/objectserver/internal/usecase/component/driver_manager.go
@@ -10,6 +10,7 @@ import (
 	"context"
 	"os"
 	"path/filepath"
+	"sync"
 	"time"
 )
 
@@ -20,6 +21,7 @@ type Driver struct {
 }
 
 type DriverManager struct {
+	mux      sync.RWMutex // of drivers
 	drivers  []*Driver
 	balancer DriverBalancer
 	Excludes set.Set
@@ -30,6 +32,13 @@ func NewDriverManager(lb DriverBalancer) *DriverManager {
 	return &DriverManager{balancer: lb, Excludes: set.NewMapSet(), Includes: set.NewMapSet()}
 }
 
+// current returns the drivers found last
+func (dm *DriverManager) current() []*Driver {
+	dm.mux.RLock()
+	defer dm.mux.RUnlock()
+	return dm.drivers
+}
+
 func (dm *DriverManager) Update() {
 	mps, err := disk.AllMountPoints()
 	if err != nil {
@@ -61,6 +70,8 @@ func (dm *DriverManager) Update() {
 	if len(info) == 0 {
 		logs.Std().Errorf("not found any availeble mountpoints!")
 	}
+	dm.mux.Lock()
+	defer dm.mux.Unlock()
 	dm.drivers = info
 }
 
@@ -84,11 +95,11 @@ func (dm *DriverManager) StartAutoUpdate() (stop func()) {
 }
 
 func (dm *DriverManager) SelectDriver() (*Driver, error) {
-	return dm.balancer.Select(dm.drivers)
+	return dm.balancer.Select(dm.current())
 }
 
 func (dm *DriverManager) SelectMountPointFallback(fb string) string {
-	d, err := dm.balancer.Select(dm.drivers)
+	d, err := dm.balancer.Select(dm.current())
 	if err != nil {
 		return fb
 	}
@@ -96,7 +107,7 @@ func (dm *DriverManager) SelectMountPointFallback(fb string) string {
 }
 
 func (dm *DriverManager) IsPathExist(path string) bool {
-	for _, d := range dm.drivers {
+	for _, d := range dm.current() {
 		if _, err := os.Stat(filepath.Join(d.MountPoint, path)); !os.IsNotExist(err) {
 			return true
 		}
@@ -105,7 +116,7 @@ func (dm *DriverManager) IsPathExist(path string) bool {
 }
 
 func (dm *DriverManager) FindMountPath(path string) (string, error) {
-	for _, d := range dm.drivers {
+	for _, d := range dm.current() {
 		fullPath := filepath.Join(d.MountPoint, path)
 		if _, err := os.Stat(fullPath); !os.IsNotExist(err) {
 			return fullPath, nil
@@ -115,8 +126,9 @@ func (dm *DriverManager) FindMountPath(path string) (string, error) {
 }
 
 func (dm *DriverManager) GetAllMountPoint() []string {
-	res := make([]string, 0, len(dm.drivers))
-	for _, driver := range dm.drivers {
+	drivers := dm.current()
+	res := make([]string, 0, len(drivers))
+	for _, driver := range drivers {
 		res = append(res, driver.MountPoint)
 	}
 	return res
-- 
2.43.0


From cf12e2f381c3809bc285e937d0952f8bd94f047f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:17 +0000
Subject: [PATCH 69/97] fix: slots saved while slots are read are not missed
 for minutes, and migration state changes under a lock

---
 .../internal/usecase/db/hashslot_db.go        | 61 ++++++++++++++-----
 .../usecase/service/hashslot_service.go       |  8 +++
 2 files changed, 54 insertions(+), 15 deletions(-)

diff --git a/src/metaserver/internal/usecase/db/hashslot_db.go b/src/metaserver/internal/usecase/db/hashslot_db.go
index 25edd5a..bc5f45a 100644
--- a/src/metaserver/internal/usecase/db/hashslot_db.go
+++ b/src/metaserver/internal/usecase/db/hashslot_db.go
@@ -10,6 +10,7 @@ import (
 	"time"
 
 	clientv3 "go.etcd.io/etcd/client/v3"
+	"sync"
 	"sync/atomic"
 )
 
@@ -45,6 +46,9 @@ type HashSlotDB struct {
 	status         *atomic.Int32
 	provider       *atomic.Pointer[hashslot.IEdgeProvider]
 	updatedAt      int64
+	mux            sync.RWMutex // of the fields below
+	saved          int64        // how often slots were saved
+	revision       int64        // of the slots cached
 	migratingSlots []string
 	migratingHost  string
 	KeyPrefix      string
@@ -66,10 +70,14 @@ func (h *HashSlotDB) IsNormal() bool {
 }
 
 func (h *HashSlotDB) GetMigrateTo() (bool, string, []string) {
+	h.mux.RLock()
+	defer h.mux.RUnlock()
 	return h.status.Load() == StatusMigrateTo, h.migratingHost, h.migratingSlots
 }
 
 func (h *HashSlotDB) GetMigrateFrom() (bool, string, []string) {
+	h.mux.RLock()
+	defer h.mux.RUnlock()
 	return h.status.Load() == StatusMigrateFrom, h.migratingHost, h.migratingSlots
 }
 
@@ -79,43 +87,59 @@ func (h *HashSlotDB) IsExpired() bool {
 
 // GetEdgeProvider identify is http-location of server
 func (h *HashSlotDB) GetEdgeProvider(reload bool) (hashslot.IEdgeProvider, error) {
-	item := h.provider.Load()
 	if h.IsExpired() || reload {
-		if err := h.reloadProvider(item); err != nil {
-			return nil, err
+		for ok := false; !ok; {
+			var err error
+			if ok, err = h.reloadProvider(); err != nil {
+				return nil, err
+			}
 		}
 	}
 	return *h.provider.Load(), nil
 }
 
-func (h *HashSlotDB) reloadProvider(old *hashslot.IEdgeProvider) error {
+// reloadProvider returns false if slots have been saved meanwhile, what it read may be outdated then
+func (h *HashSlotDB) reloadProvider() (bool, error) {
+	h.mux.RLock()
+	saved := h.saved
+	h.mux.RUnlock()
 	slotsMap := make(map[string][]string)
 	// get slots data from etcd (only master saves into to etcd)
 	res, err := h.kv.Get(context.Background(), h.KeyPrefix, clientv3.WithPrefix())
 	if err != nil {
-		return fmt.Errorf("reloadProvider: %w", err)
+		return false, fmt.Errorf("reloadProvider: %w", err)
 	}
 	// wrap slot
 	for _, kv := range res.Kvs {
 		var info hashslot.SlotInfo
 		if err := util.DecodeMsgp(&info, kv.Value); err != nil {
-			return fmt.Errorf("reloadProvider: %w", err)
+			return false, fmt.Errorf("reloadProvider: %w", err)
 		}
 		slotsMap[info.ServerID] = info.Slots
 	}
 	data, err := hashslot.WrapSlots(slotsMap)
 	if err != nil {
-		return fmt.Errorf("reloadProvider: %w", err)
+		return false, fmt.Errorf("reloadProvider: %w", err)
 	}
-	if h.provider.CompareAndSwap(old, &data) {
+	h.mux.Lock()
+	defer h.mux.Unlock()
+	if h.saved != saved {
+		return false, nil
+	}
+	// another reload may have read later
+	if rev := res.Header.GetRevision(); h.provider.Load() == nil || rev >= h.revision {
+		h.revision = rev
+		h.provider.Store(&data)
 		now := time.Now().Unix()
 		atomic.StoreInt64(&h.updatedAt, now)
 		hsLog.Infof("update hash-slots success at %d", now)
 	}
-	return nil
+	return true, nil
 }
 
 func (h *HashSlotDB) ReadyMigrateFrom(loc string, slots []string) error {
+	h.mux.Lock()
+	defer h.mux.Unlock()
 	if h.status.CompareAndSwap(StatusNormal, StatusMigrateFrom) {
 		h.migratingHost = loc
 		h.migratingSlots = slots
@@ -126,6 +150,8 @@ func (h *HashSlotDB) ReadyMigrateFrom(loc string, slots []string) error {
 }
 
 func (h *HashSlotDB) ReadyMigrateTo(loc string, slots []string) error {
+	h.mux.Lock()
+	defer h.mux.Unlock()
 	if h.status.CompareAndSwap(StatusNormal, StatusMigrateTo) {
 		h.migratingHost = loc
 		h.migratingSlots = slots
@@ -136,6 +162,8 @@ func (h *HashSlotDB) ReadyMigrateTo(loc string, slots []string) error {
 }
 
 func (h *HashSlotDB) FinishMigrateTo() error {
+	h.mux.Lock()
+	defer h.mux.Unlock()
 	if h.status.CompareAndSwap(StatusMigrateTo, StatusNormal) {
 		h.migratingHost = ""
 		h.migratingSlots = nil
@@ -146,6 +174,8 @@ func (h *HashSlotDB) FinishMigrateTo() error {
 }
 
 func (h *HashSlotDB) FinishMigrateFrom() error {
+	h.mux.Lock()
+	defer h.mux.Unlock()
 	if h.status.CompareAndSwap(StatusMigrateFrom, StatusNormal) {
 		h.migratingHost = ""
 		h.migratingSlots = nil
@@ -177,18 +207,19 @@ func (h *HashSlotDB) Save(id string, info *hashslot.SlotInfo) (err error) {
 		return errors.New("status not in normal")
 	}
 	key := fmt.Sprint(h.KeyPrefix, id)
+	info.GroupID = id
 	bt, err := util.EncodeMsgp(info)
 	if err != nil {
 		return err
 	}
-	info.GroupID = id
 	// saving
-	if _, err = h.kv.Put(context.Background(), key, string(bt)); err != nil {
-		return err
-	}
-	// cached slots are outdated
+	_, err = h.kv.Put(context.Background(), key, string(bt))
+	// cached slots are outdated, as are those being reloaded
+	h.mux.Lock()
+	defer h.mux.Unlock()
+	h.saved++
 	atomic.StoreInt64(&h.updatedAt, 0)
-	return nil
+	return err
 }
 
 func (h *HashSlotDB) Remove(id string) error {
diff --git a/src/metaserver/internal/usecase/service/hashslot_service.go b/src/metaserver/internal/usecase/service/hashslot_service.go
index 8571005..f023c36 100644
--- a/src/metaserver/internal/usecase/service/hashslot_service.go
+++ b/src/metaserver/internal/usecase/service/hashslot_service.go
@@ -18,6 +18,7 @@ import (
 	"metaserver/internal/usecase/logic"
 	"metaserver/internal/usecase/pool"
 	"net"
+	"sync"
 	"time"
 
 	"google.golang.org/grpc"
@@ -32,6 +33,7 @@ type HashSlotService struct {
 	Service       usecase.IMetadataService
 	BucketService usecase.BucketService
 	Cfg           *config.HashSlotConfig
+	mux           sync.Mutex // of the fields below
 	startReceive  func()
 	received      []func() error // undo of received items
 }
@@ -143,6 +145,8 @@ func (h *HashSlotService) PrepareMigrationFrom(loc *pb.LocationInfo, slots []str
 		return err
 	}
 	cancelCh := make(chan struct{})
+	h.mux.Lock()
+	defer h.mux.Unlock()
 	h.startReceive = func() {
 		close(cancelCh)
 		h.startReceive = func() {}
@@ -160,6 +164,8 @@ func (h *HashSlotService) PrepareMigrationFrom(loc *pb.LocationInfo, slots []str
 }
 
 func (h *HashSlotService) FinishReceiveItem(success bool) error {
+	h.mux.Lock()
+	defer h.mux.Unlock()
 	h.startReceive()
 	var (
 		newSlots []string
@@ -200,6 +206,8 @@ func (h *HashSlotService) FinishReceiveItem(success bool) error {
 }
 
 func (h *HashSlotService) ReceiveItem(item *pb.MigrationItem) error {
+	h.mux.Lock()
+	defer h.mux.Unlock()
 	h.startReceive()
 	var err error
 	switch entity.Dest(item.Dest) {
-- 
2.43.0


From 6935052bdce6cf10bbe475e09c5c847654de8e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:20 +0000
Subject: [PATCH 70/97] fix: counts of processors are cached under a lock and
 failures to count are reported

---
 src/common/system/cpu/cpu_unix.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/common/system/cpu/cpu_unix.go b/src/common/system/cpu/cpu_unix.go
index a07e79e..57c908f 100644
--- a/src/common/system/cpu/cpu_unix.go
+++ b/src/common/system/cpu/cpu_unix.go
@@ -2,24 +2,37 @@ package cpu
 
 import (
 	"math"
+	"sync"
 	"time"
 
 	"github.com/shirou/gopsutil/v3/cpu"
 )
 
-var cachedCounts [2]int
+var (
+	countsLock   sync.Mutex
+	cachedCounts [2]int
+)
 
 func getCounts() (logical, physical int, err error) {
-	if cachedCounts[0] == 0 && cachedCounts[1] == 0 {
-		cachedCounts[0], err = cpu.Counts(true)
-		cachedCounts[1], err = cpu.Counts(false)
+	countsLock.Lock()
+	defer countsLock.Unlock()
+	if cachedCounts[0] == 0 || cachedCounts[1] == 0 {
+		if logical, err = cpu.Counts(true); err != nil {
+			return
+		}
+		if physical, err = cpu.Counts(false); err != nil {
+			return
+		}
+		cachedCounts = [2]int{logical, physical}
 	}
 	logical, physical = cachedCounts[0], cachedCounts[1]
 	return
 }
 
 func StatInfo() (res Stat, err error) {
-	res.LogicalCount, res.PhysicalCount, err = getCounts()
+	if res.LogicalCount, res.PhysicalCount, err = getCounts(); err != nil {
+		return
+	}
 	percents, err := cpu.Percent(time.Second, false)
 	if len(percents) > 0 {
 		res.UsedPercent = math.Ceil(percents[0]) / 100.0
-- 
2.43.0


From 233bc8d6ebbddebe155c40c9a53bc8e5a75f58bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:10 +0000
Subject: [PATCH 71/97] fix: objects of the console are ordered as the metadata
 servers order them

---
 src/common/proto/msg/metadata.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/proto/msg/metadata.go b/src/common/proto/msg/metadata.go
index a4852a9..993c672 100644
--- a/src/common/proto/msg/metadata.go
+++ b/src/common/proto/msg/metadata.go
@@ -22,7 +22,7 @@ type Metadata struct {
 }
 
 func (z *Metadata) ID() string {
-	return fmt.Sprintf(z.Bucket, "/", z.Name)
+	return fmt.Sprint(z.Bucket, "/", z.Name)
 }
 
 type Version struct {
-- 
2.43.0


From 48fe89f2939b4c2b41ffb2f674ca166f4c230b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:10 +0000
Subject: [PATCH 72/97] fix: the total of objects does not depend on the page

---
 src/adminserver/internal/usecase/logic/metadata_logic.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/adminserver/internal/usecase/logic/metadata_logic.go b/src/adminserver/internal/usecase/logic/metadata_logic.go
index 7c13dcd..745cb75 100644
--- a/src/adminserver/internal/usecase/logic/metadata_logic.go
+++ b/src/adminserver/internal/usecase/logic/metadata_logic.go
@@ -78,10 +78,8 @@ func (m Metadata) MetadataPaging(cond *MetadataCond) ([]*msg.Metadata, int, erro
 	sort.Slice(lst, func(i, j int) bool {
 		return lst[i].ID() < lst[j].ID()
 	})
-	if st, ed, ok := util.PagingOffset(cond.Page, cond.PageSize, len(lst)); ok {
-		return lst[st:ed], totals, nil
-	}
-	return []*msg.Metadata{}, 0, nil
+	st, ed, _ := util.PagingOffset(cond.Page, cond.PageSize, len(lst))
+	return lst[st:ed], totals, nil
 }
 
 func (m Metadata) VersionPaging(cond MetadataCond, token string) ([]byte, int, error) {
-- 
2.43.0


From 97ae183adaa84b6399cc76d037dd3f1d35fbb31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:10 +0000
Subject: [PATCH 73/97] fix: a metadata server that fails to leave its cluster
 is reported

---
 .../internal/usecase/logic/metadata_logic.go           | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/adminserver/internal/usecase/logic/metadata_logic.go b/src/adminserver/internal/usecase/logic/metadata_logic.go
index 745cb75..83c3c4d 100644
--- a/src/adminserver/internal/usecase/logic/metadata_logic.go
+++ b/src/adminserver/internal/usecase/logic/metadata_logic.go
@@ -190,8 +190,14 @@ func (m Metadata) LeaveRaftCluster(servId string) error {
 	if err != nil {
 		return err
 	}
-	_, err = pb.NewRaftCmdClient(cc).LeaveCluster(context.Background(), new(pb.EmptyReq))
-	return err
+	resp, err := pb.NewRaftCmdClient(cc).LeaveCluster(context.Background(), new(pb.EmptyReq))
+	if err != nil {
+		return err
+	}
+	if !resp.Success {
+		return response.NewError(400, resp.Message)
+	}
+	return nil
 }
 
 func (m Metadata) JoinRaftCluster(masterId, servId string) error {
-- 
2.43.0


From daff9989cc4182f07938089aeac6733c441aa97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:11 +0000
Subject: [PATCH 74/97] fix: connections of the console are shared under a lock
 and not dialed anew

---
 src/adminserver/internal/usecase/logic/conn.go         | 8 +++-----
 src/adminserver/internal/usecase/logic/object_logic.go | 3 +--
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/adminserver/internal/usecase/logic/conn.go b/src/adminserver/internal/usecase/logic/conn.go
index 4d67865..06ae7b3 100644
--- a/src/adminserver/internal/usecase/logic/conn.go
+++ b/src/adminserver/internal/usecase/logic/conn.go
@@ -15,13 +15,9 @@ var (
 )
 
 func getConn(addr string) (*grpc.ClientConn, error) {
-	conn, ok := connPool[addr]
-	if ok {
-		return conn, nil
-	}
 	poolLock.Lock()
 	defer poolLock.Unlock()
-	conn, ok = connPool[addr]
+	conn, ok := connPool[addr]
 	if ok {
 		return conn, nil
 	}
@@ -35,6 +31,8 @@ func getConn(addr string) (*grpc.ClientConn, error) {
 }
 
 func Close() error {
+	poolLock.Lock()
+	defer poolLock.Unlock()
 	var errs []error
 	for _, v := range connPool {
 		if err := v.Close(); err != nil {
diff --git a/src/adminserver/internal/usecase/logic/object_logic.go b/src/adminserver/internal/usecase/logic/object_logic.go
index b46c4e2..36cac14 100644
--- a/src/adminserver/internal/usecase/logic/object_logic.go
+++ b/src/adminserver/internal/usecase/logic/object_logic.go
@@ -8,7 +8,6 @@ import (
 	"common/util"
 	"common/util/crypto"
 	"context"
-	"google.golang.org/grpc"
 	"io"
 	"mime/multipart"
 )
@@ -46,7 +45,7 @@ func (Objects) JoinCluster(serverId string) error {
 	if !ok {
 		return response.NewError(400, "serverId not exist")
 	}
-	cc, err := grpc.Dial(addr, grpc.WithInsecure())
+	cc, err := getConn(addr)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 5c5304d804b9698cc0afb630977f84514834d060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:21 +0000
Subject: [PATCH 75/97] fix: names are escaped in the paths of requests to API
 servers

---
 src/adminserver/internal/usecase/webapi/api_server.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/adminserver/internal/usecase/webapi/api_server.go b/src/adminserver/internal/usecase/webapi/api_server.go
index 6cded40..9b7a907 100644
--- a/src/adminserver/internal/usecase/webapi/api_server.go
+++ b/src/adminserver/internal/usecase/webapi/api_server.go
@@ -13,8 +13,8 @@ import (
 )
 
 func ListVersion(ip, name, bucket string, page, pageSize int, token string) ([]byte, int, error) {
-	url := fmt.Sprintf("%s://%s/v1/metadata/%s/versions?page=%d&page_size=%d", GetSchema(), ip, name, page, pageSize)
-	req, err := http.NewRequest(http.MethodGet, url, nil)
+	name = url.PathEscape(name)
+	req, err := http.NewRequest(http.MethodGet, fmt.Sprintf("%s://%s/v1/metadata/%s/versions?page=%d&page_size=%d", GetSchema(), ip, name, page, pageSize), nil)
 	if err != nil {
 		return nil, 0, err
 	}
@@ -55,6 +55,7 @@ func PutObjects(ip, name, sha256, bucket string, fileIO io.Reader, size int64, t
 }
 
 func GetObjects(ip, name, bucket string, version int, token string) (io.ReadCloser, error) {
+	name = url.PathEscape(name)
 	req, err := http.NewRequest(http.MethodGet, fmt.Sprintf("%s://%s/v1/objects/%s?version=%d", GetSchema(), ip, name, version), nil)
 	if err != nil {
 		return nil, err
@@ -106,7 +107,7 @@ func CreateBucket(ip string, b *msg.Bucket, token string) error {
 }
 
 func UpdateBucket(ip string, b *msg.Bucket, token string) error {
-	req, err := request.JsonReq(http.MethodPut, fmt.Sprintf("%s://%s/v1/bucket/%s", GetSchema(), ip, b.Name), b)
+	req, err := request.JsonReq(http.MethodPut, fmt.Sprintf("%s://%s/v1/bucket/%s", GetSchema(), ip, url.PathEscape(b.Name)), b)
 	if err != nil {
 		return err
 	}
@@ -123,7 +124,7 @@ func UpdateBucket(ip string, b *msg.Bucket, token string) error {
 }
 
 func DeleteBucket(ip, name string, token string) error {
-	req, err := http.NewRequest(http.MethodDelete, fmt.Sprintf("%s://%s/v1/bucket/%s", GetSchema(), ip, name), nil)
+	req, err := http.NewRequest(http.MethodDelete, fmt.Sprintf("%s://%s/v1/bucket/%s", GetSchema(), ip, url.PathEscape(name)), nil)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 3587960390df673cbc303941b042a5eb266945cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:03 +0000
Subject: [PATCH 76/97] fix: a download of the console that breaks off is given
 up and its connection is freed

---
 src/adminserver/internal/controller/http/object.go |  8 ++++++--
 src/adminserver/internal/controller/http_server.go | 11 ++++++++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/adminserver/internal/controller/http/object.go b/src/adminserver/internal/controller/http/object.go
index 4bdb5d1..a6c36a7 100644
--- a/src/adminserver/internal/controller/http/object.go
+++ b/src/adminserver/internal/controller/http/object.go
@@ -4,10 +4,12 @@ import (
 	"adminserver/internal/entity"
 	"adminserver/internal/usecase/logic"
 	"adminserver/internal/usecase/pool"
+	"common/logs"
 	"common/response"
 	"github.com/gin-gonic/gin"
 	"io"
 	"mime/multipart"
+	"net/http"
 )
 
 type ObjectsController struct {
@@ -57,9 +59,11 @@ func (oc *ObjectsController) Download(c *gin.Context) {
 		response.FailErr(err, c)
 		return
 	}
+	defer reader.Close()
 	if _, err = io.Copy(c.Writer, reader); err != nil {
-		response.FailErr(err, c)
-		return
+		// the status is sent already: the client must not take the part for the whole
+		logs.Std().Errorf("download of %s abort: %s", body.Name, err)
+		panic(http.ErrAbortHandler)
 	}
 	response.Ok(c)
 }
diff --git a/src/adminserver/internal/controller/http_server.go b/src/adminserver/internal/controller/http_server.go
index ec84969..6e46f6c 100644
--- a/src/adminserver/internal/controller/http_server.go
+++ b/src/adminserver/internal/controller/http_server.go
@@ -19,7 +19,8 @@ type HttpServer struct {
 }
 
 func NewHttpServer(port string, webFs static.ServeFileSystem) *HttpServer {
-	eng := gin.Default()
+	eng := gin.New()
+	eng.Use(gin.Logger(), gin.CustomRecovery(recovery))
 
 	randSec := uuid.New()
 	eng.Use(static.Serve("/", webFs))
@@ -56,6 +57,14 @@ func NewHttpServer(port string, webFs static.ServeFileSystem) *HttpServer {
 	return &HttpServer{Server: http.Server{Handler: eng.Handler(), Addr: ":" + port}}
 }
 
+// recovery passes an aborted response on to http.Server
+func recovery(c *gin.Context, err any) {
+	if err == http.ErrAbortHandler {
+		panic(err)
+	}
+	c.AbortWithStatus(http.StatusInternalServerError)
+}
+
 func (s *HttpServer) ListenAndServe() error {
 	logs.New("http-server").Infof("server listening on %s", s.Addr)
 	logs.New("http-server").Infof("visit web-console on http://localhost" + s.Addr)
-- 
2.43.0


From 1012c02c6147f65f030c9e89a179322ff505b3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:24 +0000
Subject: [PATCH 77/97] fix: a console without API servers answers errors
 instead of panicking

---
 src/adminserver/internal/usecase/logic/api_server_logic.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/adminserver/internal/usecase/logic/api_server_logic.go b/src/adminserver/internal/usecase/logic/api_server_logic.go
index 509c17c..3b3ed45 100644
--- a/src/adminserver/internal/usecase/logic/api_server_logic.go
+++ b/src/adminserver/internal/usecase/logic/api_server_logic.go
@@ -3,12 +3,17 @@ package logic
 import (
 	"adminserver/internal/usecase/pool"
 	"adminserver/internal/usecase/webapi"
+	"common/logs"
 	"math/rand"
 	"time"
 )
 
 func SelectApiServer() string {
 	servers := pool.Discovery.GetServices(pool.Config.Discovery.ApiServName)
+	if len(servers) == 0 {
+		logs.Std().Warn("not found any api server")
+		return ""
+	}
 	rand.Seed(time.Now().Unix())
 	idx := rand.Intn(len(servers))
 	return servers[idx]
-- 
2.43.0


From d850f3b042b49d9c7b6de032d501fec385a11a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:17 +0000
Subject: [PATCH 78/97] fix: the console sees samples saved while it starts or
 watching ends, and timelines change under a lock

---
 .../internal/usecase/db/server_stat_db.go     | 71 ++++++++++++++-----
 1 file changed, 53 insertions(+), 18 deletions(-)

diff --git a/src/adminserver/internal/usecase/db/server_stat_db.go b/src/adminserver/internal/usecase/db/server_stat_db.go
index 4413eb5..a6d2e9f 100644
--- a/src/adminserver/internal/usecase/db/server_stat_db.go
+++ b/src/adminserver/internal/usecase/db/server_stat_db.go
@@ -56,6 +56,13 @@ func (st *statTimeline) Append(cpu *TimeStat, mem *TimeStat) {
 	}
 }
 
+func (st *statTimeline) copy() *statTimeline {
+	res := newStatTimeline()
+	res.cpu.PushBackList(st.cpu)
+	res.mem.PushBackList(st.mem)
+	return res
+}
+
 func (st *statTimeline) CPUTimeline() []*TimeStat {
 	arr := make([]*TimeStat, 0, st.cpu.Len())
 	for itr := st.cpu.Front(); itr != nil; itr = itr.Next() {
@@ -82,6 +89,7 @@ type ServerStatDB struct {
 	GroupName string
 	Services  []string
 	closeFn   func()
+	mux       sync.RWMutex
 	timeline  map[string]map[string]*statTimeline
 }
 
@@ -97,40 +105,62 @@ func NewServerStatDB(cli ServerStatCli, groupName string, services []string) *Se
 }
 
 func (sdb *ServerStatDB) GetTimeline(servName string) map[string]*statTimeline {
-	if tls, ok := sdb.timeline[servName]; ok {
-		return tls
+	sdb.mux.RLock()
+	defer sdb.mux.RUnlock()
+	res := make(map[string]*statTimeline, len(sdb.timeline[servName]))
+	for id, tl := range sdb.timeline[servName] {
+		res[id] = tl.copy()
 	}
-	return map[string]*statTimeline{}
+	return res
 }
 
 func (sdb *ServerStatDB) init() {
 	ctx, cancel := context.WithCancel(context.Background())
 	sdb.closeFn = cancel
-	var mux sync.Mutex
 	for _, name := range sdb.Services {
 		go func(v string) {
 			defer graceful.Recover()
 			prefix := cst.EtcdPrefix.FmtSystemInfo(sdb.GroupName, v, "")
-			// init value
-			res, err := sdb.Cli.Get(ctx, prefix, clientv3.WithPrefix())
-			if err != nil {
-				statLog.Errorf("init stat of %s fail, %s", v, err)
-			}
-			for _, kv := range res.Kvs {
-				mux.Lock()
-				if err := sdb.addStat(v, kv.Key, kv.Value); err != nil {
-					statLog.Error(err)
+			var rev int64
+			for ctx.Err() == nil {
+				if err := sdb.syncStat(ctx, v, prefix, &rev); err != nil {
+					statLog.Errorf("sync stat of %s abort, %s", v, err)
+				}
+				// sleep 2 sec before retry
+				select {
+				case <-ctx.Done():
+				case <-time.After(2 * time.Second):
 				}
-				mux.Unlock()
 			}
-			// watch channel
-			ch := sdb.Cli.Watch(ctx, prefix, clientv3.WithPrefix())
-			sdb.watching(v, ch)
 		}(name)
 	}
 }
 
+// syncStat adds the stats saved since rev and follows their changes until watching ends
+func (sdb *ServerStatDB) syncStat(parent context.Context, serv, prefix string, rev *int64) error {
+	ctx, cancel := context.WithCancel(parent)
+	defer cancel()
+	// init value
+	res, err := sdb.Cli.Get(ctx, prefix, clientv3.WithPrefix())
+	if err != nil {
+		return err
+	}
+	for _, kv := range res.Kvs {
+		if kv.ModRevision <= *rev {
+			continue
+		}
+		if err := sdb.addStat(serv, kv.Key, kv.Value); err != nil {
+			statLog.Error(err)
+		}
+	}
+	*rev = res.Header.GetRevision()
+	// watch channel
+	return sdb.watching(serv, sdb.Cli.Watch(ctx, prefix, clientv3.WithPrefix(), clientv3.WithRev(*rev+1)), rev)
+}
+
 func (sdb *ServerStatDB) addStat(serv string, key, value []byte) error {
+	sdb.mux.Lock()
+	defer sdb.mux.Unlock()
 	ts := time.Now()
 	mp, ok := sdb.timeline[serv]
 	if !ok {
@@ -158,17 +188,22 @@ func (sdb *ServerStatDB) addStat(serv string, key, value []byte) error {
 	return nil
 }
 
-func (sdb *ServerStatDB) watching(serv string, ch clientv3.WatchChan) {
+func (sdb *ServerStatDB) watching(serv string, ch clientv3.WatchChan, rev *int64) error {
 	for v := range ch {
+		if err := v.Err(); err != nil {
+			return err
+		}
 		for _, event := range v.Events {
 			if event.Type != mvccpb.PUT {
 				continue
 			}
+			*rev = event.Kv.ModRevision
 			if err := sdb.addStat(serv, event.Kv.Key, event.Kv.Value); err != nil {
 				statLog.Error(err)
 			}
 		}
 	}
+	return nil
 }
 
 func (sdb *ServerStatDB) Close() error {
-- 
2.43.0


From 572b58a442edf5eeb591f08ade8c298f8bb8f043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:20 +0000
Subject: [PATCH 79/97] fix: lists by prefix count all that match

---
 .../internal/usecase/logic/bucket_logic.go         | 14 +++++++++-----
 .../internal/usecase/repo/metadata_repo.go         |  9 ++++++---
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/metaserver/internal/usecase/logic/bucket_logic.go b/src/metaserver/internal/usecase/logic/bucket_logic.go
index f749c02..c986a70 100644
--- a/src/metaserver/internal/usecase/logic/bucket_logic.go
+++ b/src/metaserver/internal/usecase/logic/bucket_logic.go
@@ -127,18 +127,22 @@ func (b *BucketCrud) List(prefix string, limit int, res *[]*msg.Bucket, total *i
 		var k, v []byte
 		if prefix != "" {
 			k, v = cur.Seek(prefixBt)
-			defer func() { *total = len(*res) }()
 		} else {
 			*total = root.Stats().KeyN
 			k, v = cur.First()
 		}
-		for k != nil && len(*res) < limit {
-			if v == nil {
-				continue
-			}
+		for k != nil && (prefix != "" || len(*res) < limit) {
 			if prefix != "" && !bytes.HasPrefix(k, prefixBt) {
 				break
 			}
+			// count all that match but return the first ones
+			if prefix != "" {
+				*total++
+				if len(*res) >= limit {
+					k, v = cur.Next()
+					continue
+				}
+			}
 			var i msg.Bucket
 			if err = util.DecodeMsgp(&i, v); err != nil {
 				return err
diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index 568fa45..9d3c91b 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -230,16 +230,19 @@ func (m *MetadataRepo) ListMetadata(prefix string, size int) (lst []*msg.Metadat
 		var k, v []byte
 		if prefix != "" {
 			k, v = cur.Seek(util.StrToBytes(prefix))
-			defer func() { total = len(lst) }()
 		} else {
 			k, v = cur.First()
 			total = root.Stats().KeyN
 		}
-		for k != nil && len(lst) < size {
+		for k != nil && (prefix != "" || len(lst) < size) {
 			if prefix != "" && !strings.HasPrefix(util.BytesToStr(k), prefix) {
 				break
 			}
-			if len(v) > 0 {
+			// count all that match but return the first ones
+			if prefix != "" {
+				total++
+			}
+			if len(v) > 0 && len(lst) < size {
 				var data msg.Metadata
 				if err := util.DecodeMsgp(&data, v); err != nil {
 					return err
-- 
2.43.0


From 5cf66184f13b7bfe22d1a475958ac82125686c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:12 +0000
Subject: [PATCH 80/97] fix: authentication checks the bucket that is used,
 denies with an error, and keeps the stored credential

---
 .../internal/controller/http/big_api.go       | 16 +++++++++++
 .../usecase/componet/auth/auth_middleware.go  |  3 +++
 .../componet/auth/callback_validator.go       | 27 +++++++++++++------
 .../componet/auth/password_validator.go       |  2 ++
 4 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/apiserver/internal/controller/http/big_api.go b/src/apiserver/internal/controller/http/big_api.go
index abb7392..a8c5b0f 100644
--- a/src/apiserver/internal/controller/http/big_api.go
+++ b/src/apiserver/internal/controller/http/big_api.go
@@ -3,6 +3,7 @@ package http
 import (
 	"apiserver/internal/entity"
 	"apiserver/internal/usecase"
+	"apiserver/internal/usecase/componet/auth"
 	"apiserver/internal/usecase/pool"
 	"apiserver/internal/usecase/repo"
 	"apiserver/internal/usecase/service"
@@ -122,6 +123,9 @@ func (bc *BigObjectsController) Head(g *gin.Context) {
 		return
 	}
 	defer stream.Close()
+	if !bc.permit(stream, g) {
+		return
+	}
 	size, err := stream.CurrentSize()
 	if err != nil {
 		response.FailErr(err, g)
@@ -147,6 +151,9 @@ func (bc *BigObjectsController) Patch(g *gin.Context) {
 		return
 	}
 	defer stream.Close()
+	if !bc.permit(stream, g) {
+		return
+	}
 	curSize, err := stream.CurrentSize()
 	if err != nil {
 		response.FailErr(err, g)
@@ -214,6 +221,15 @@ func (bc *BigObjectsController) Patch(g *gin.Context) {
 	}, g)
 }
 
+// permit tells if the request is authenticated for the bucket of the upload
+func (bc *BigObjectsController) permit(stream *service.RSResumablePutStream, g *gin.Context) bool {
+	if b := g.GetString(auth.MiddleBucket); b != "" && b != stream.Bucket {
+		response.FailErr(response.NewError(http.StatusForbidden, "access to bucket denied"), g)
+		return false
+	}
+	return true
+}
+
 // validate compares the digest of uploaded data
 func (bc *BigObjectsController) validate(stream *service.RSResumablePutStream) bool {
 	getStream := service.NewRSTempStream(&service.StreamOption{
diff --git a/src/apiserver/internal/usecase/componet/auth/auth_middleware.go b/src/apiserver/internal/usecase/componet/auth/auth_middleware.go
index debf8b1..6e9b83a 100644
--- a/src/apiserver/internal/usecase/componet/auth/auth_middleware.go
+++ b/src/apiserver/internal/usecase/componet/auth/auth_middleware.go
@@ -11,6 +11,9 @@ import (
 const MiddleKey = "IsAuthenticated"
 const MiddleErr = "AuthenticatedErr"
 
+// MiddleBucket is the only bucket that a request may access, if set
+const MiddleBucket = "AuthenticatedBucket"
+
 func PreAuthenticate(cfg *Config) gin.HandlerFunc {
 	return func(c *gin.Context) {
 		// if no enable auth, every request is valid
diff --git a/src/apiserver/internal/usecase/componet/auth/callback_validator.go b/src/apiserver/internal/usecase/componet/auth/callback_validator.go
index 42ce775..43603a5 100644
--- a/src/apiserver/internal/usecase/componet/auth/callback_validator.go
+++ b/src/apiserver/internal/usecase/componet/auth/callback_validator.go
@@ -29,8 +29,14 @@ func (cv *CallbackValidator) Verify(token Credential) error {
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 	if resp.StatusCode != http.StatusOK {
-		return response.NewError(resp.StatusCode, response.MessageFromJSONBody(resp.Body))
+		msg := response.MessageFromJSONBody(resp.Body)
+		// a denied request must not be answered as a success
+		if resp.StatusCode < http.StatusBadRequest {
+			return response.NewError(http.StatusForbidden, msg)
+		}
+		return response.NewError(resp.StatusCode, msg)
 	}
 	return nil
 }
@@ -39,12 +45,14 @@ func (cv *CallbackValidator) Middleware(c *gin.Context) (bool, error) {
 	if !cv.cfg.Enable {
 		return false, nil
 	}
-	var bucket string
-	idx := strings.IndexByte(c.Request.Host, '.')
-	if idx > 0 {
+	// the header first, it names the bucket that is accessed
+	bucket := c.GetHeader("Bucket")
+	if bucket == "" {
+		idx := strings.IndexByte(c.Request.Host, '.')
+		if idx <= 0 {
+			return false, response.NewError(http.StatusBadRequest, "Host or Header does not contains bucket")
+		}
 		bucket = c.Request.Host[:idx]
-	} else if bucket = c.GetHeader("Bucket"); bucket == "" {
-		return false, response.NewError(http.StatusBadRequest, "Host or Header does not contains bucket")
 	}
 	token := &credential.CallbackToken{
 		Bucket:   bucket,
@@ -61,6 +69,9 @@ func (cv *CallbackValidator) Middleware(c *gin.Context) (bool, error) {
 		}
 		token.Extra[key] = arr
 	}
-	err := cv.Verify(token)
-	return err == nil, err
+	if err := cv.Verify(token); err != nil {
+		return false, err
+	}
+	c.Set(MiddleBucket, bucket)
+	return true, nil
 }
diff --git a/src/apiserver/internal/usecase/componet/auth/password_validator.go b/src/apiserver/internal/usecase/componet/auth/password_validator.go
index dcaeeef..263ed67 100644
--- a/src/apiserver/internal/usecase/componet/auth/password_validator.go
+++ b/src/apiserver/internal/usecase/componet/auth/password_validator.go
@@ -32,7 +32,9 @@ func (pv *PasswordValidator) init(cfg *PasswordConfig) {
 	}
 	resp, err := pv.cli.Get(context.Background(), cst.EtcdPrefix.ApiCredential)
 	if err != nil {
+		// the credential may exist, it must not be overwritten
 		logs.Std().Errorf("init PasswordValidator: %s", err)
+		return
 	} else if len(resp.Kvs) != 0 || cfg.Username == "" || cfg.Password == "" {
 		logs.Std().Info("exist credential, skip init admin credential")
 		return
-- 
2.43.0


From 905ecefa7f59f39a845729fd4f8dd45b4891864f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:45 +0000
Subject: [PATCH 81/97] fix: versions are updated by their number, and failures
 to remove one keep their status

---
 src/apiserver/internal/usecase/grpcapi/meta_server.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/apiserver/internal/usecase/grpcapi/meta_server.go b/src/apiserver/internal/usecase/grpcapi/meta_server.go
index 0a16c4a..f1c6129 100644
--- a/src/apiserver/internal/usecase/grpcapi/meta_server.go
+++ b/src/apiserver/internal/usecase/grpcapi/meta_server.go
@@ -136,6 +136,7 @@ func UpdateVersion(ip, id string, body *entity.Version) error {
 	})
 	_, err = pb.NewMetadataApiClient(conn).UpdateVersion(context.Background(), &pb.Metadata{
 		Id:      id,
+		Version: body.Sequence,
 		Msgpack: bt,
 	})
 	return proto.ResolveErr(err)
@@ -238,5 +239,5 @@ func RemoveVersion(ip, id string, version int32) error {
 		return err
 	}
 	_, err = pb.NewMetadataApiClient(conn).RemoveVersion(context.Background(), &pb.MetaReq{Id: id, Version: version})
-	return err
+	return proto.ResolveErr(err)
 }
-- 
2.43.0


From 299d75a19a921d603defbf2726f08eec26719b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:45 +0000
Subject: [PATCH 82/97] fix: bucket names are escaped in requests to metadata
 servers

---
 src/apiserver/internal/usecase/webapi/bucket_api.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/apiserver/internal/usecase/webapi/bucket_api.go b/src/apiserver/internal/usecase/webapi/bucket_api.go
index 18205c4..c3c566a 100644
--- a/src/apiserver/internal/usecase/webapi/bucket_api.go
+++ b/src/apiserver/internal/usecase/webapi/bucket_api.go
@@ -7,11 +7,18 @@ import (
 	"common/util"
 	"fmt"
 	"net/http"
+	"net/url"
+	"strings"
 )
 
+// pathName escapes a name as a segment of a path. every "+" is escaped too, as some routers take it for a space
+func pathName(name string) string {
+	return strings.ReplaceAll(url.QueryEscape(name), "+", "%20")
+}
+
 func GetBucket(ip, name string) (*entity.Bucket, error) {
 	defer perform(false)()
-	req, err := http.NewRequest(http.MethodGet, fmt.Sprintf("http://%s/bucket/%s", ip, name), nil)
+	req, err := http.NewRequest(http.MethodGet, fmt.Sprintf("http://%s/bucket/%s", ip, pathName(name)), nil)
 	if err != nil {
 		return nil, err
 	}
@@ -28,7 +35,7 @@ func GetBucket(ip, name string) (*entity.Bucket, error) {
 
 func PutBucket(ip string, data *entity.Bucket) error {
 	defer perform(true)()
-	req, err := request.JsonReq(http.MethodPut, fmt.Sprintf("http://%s/bucket/%s", ip, data.Name), data)
+	req, err := request.JsonReq(http.MethodPut, fmt.Sprintf("http://%s/bucket/%s", ip, pathName(data.Name)), data)
 	if err != nil {
 		return err
 	}
@@ -62,7 +69,7 @@ func PostBucket(ip string, data *entity.Bucket) error {
 
 func DeleteBucket(ip, name string) error {
 	defer perform(true)()
-	req, err := http.NewRequest(http.MethodDelete, fmt.Sprintf("http://%s/bucket/%s", ip, name), nil)
+	req, err := http.NewRequest(http.MethodDelete, fmt.Sprintf("http://%s/bucket/%s", ip, pathName(name)), nil)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 0a9c75edffc996ccc7a7588082e672f816853293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:45 +0000
Subject: [PATCH 83/97] fix: connections of the gRPC pool are looked up under
 its lock

---
 src/apiserver/internal/usecase/grpcapi/base.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/apiserver/internal/usecase/grpcapi/base.go b/src/apiserver/internal/usecase/grpcapi/base.go
index e731558..5c71118 100644
--- a/src/apiserver/internal/usecase/grpcapi/base.go
+++ b/src/apiserver/internal/usecase/grpcapi/base.go
@@ -15,13 +15,9 @@ var (
 )
 
 func getConn(addr string) (*grpc.ClientConn, error) {
-	conn, ok := connPool[addr]
-	if ok {
-		return conn, nil
-	}
 	poolLock.Lock()
 	defer poolLock.Unlock()
-	conn, ok = connPool[addr]
+	conn, ok := connPool[addr]
 	if ok {
 		return conn, nil
 	}
@@ -35,6 +31,8 @@ func getConn(addr string) (*grpc.ClientConn, error) {
 }
 
 func Close() error {
+	poolLock.Lock()
+	defer poolLock.Unlock()
 	var errs []error
 	for _, v := range connPool {
 		if err := v.Close(); err != nil {
-- 
2.43.0


From ae2a14240b68429c3171a94237c484f8946c6ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:53 +0000
Subject: [PATCH 84/97] fix: retention removes all versions beyond the bucket's
 limit, and uploads in parts respect readonly buckets and concurrent uploads

---
 .../internal/controller/http/big_api.go       | 34 +++++++++----------
 src/apiserver/internal/entity/metadata.go     |  8 +++++
 .../usecase/service/object_service.go         | 30 +++++++++++-----
 3 files changed, 47 insertions(+), 25 deletions(-)

diff --git a/src/apiserver/internal/controller/http/big_api.go b/src/apiserver/internal/controller/http/big_api.go
index a8c5b0f..fd0d759 100644
--- a/src/apiserver/internal/controller/http/big_api.go
+++ b/src/apiserver/internal/controller/http/big_api.go
@@ -7,10 +7,10 @@ import (
 	"apiserver/internal/usecase/pool"
 	"apiserver/internal/usecase/repo"
 	"apiserver/internal/usecase/service"
-	"common/graceful"
 	"common/response"
 	"common/util"
 	"common/util/crypto"
+	"errors"
 	"fmt"
 
 	"apiserver/internal/usecase/logic"
@@ -270,30 +270,30 @@ func (bc *BigObjectsController) finishUpload(metaName, bucketName string, v *ent
 	if err = dg.WaitUntilError(); err != nil {
 		return
 	}
-	if metadata != nil {
-		// update metadata
-		verNum, err = bc.metaService.AddVersion(metadata.Name, metadata.Bucket, v)
-		if err != nil {
-			return
-		}
-		if metadata.Total > 0 && !bucket.Versioning || metadata.Total >= bucket.VersionRemains {
-			go func() {
-				defer graceful.Recover()
-				// if not err, delete first version
-				inner := bc.metaService.RemoveVersion(metadata.Name, metadata.Bucket, int32(metadata.FirstVersion))
-				util.LogErrWithPre("remove first version err", inner)
-			}()
-		}
-	} else {
-		// add metadata
+	if bucket.Readonly {
+		err = response.NewError(http.StatusBadRequest, "bucket is readonly")
+		return
+	}
+	if metadata == nil {
+		// add metadata. if it is added by others at the same time, get it and continue
 		verNum, err = bc.metaService.SaveMetadata(&entity.Metadata{
 			Name:     metaName,
 			Bucket:   bucketName,
 			Versions: []*entity.Version{v},
 		})
+		if !errors.Is(err, usecase.ErrMetadataExists) {
+			return
+		}
+		metadata, err = bc.metaService.GetMetadata(metaName, bucketName, int32(entity.VerModeNot), true)
 		if err != nil {
 			return
 		}
 	}
+	// update metadata
+	verNum, err = bc.metaService.AddVersion(metadata.Name, metadata.Bucket, v)
+	if err != nil {
+		return
+	}
+	go service.RemoveOldVersions(bc.metaService, metadata.Name, metadata.Bucket, bucket.MaxVersions())
 	return
 }
diff --git a/src/apiserver/internal/entity/metadata.go b/src/apiserver/internal/entity/metadata.go
index 421f703..3281239 100644
--- a/src/apiserver/internal/entity/metadata.go
+++ b/src/apiserver/internal/entity/metadata.go
@@ -98,6 +98,14 @@ func (b *Bucket) MakeVersion(ver *Version, conf *config.ObjectConfig) {
 	}
 }
 
+// MaxVersions returns the maximum number of versions that an object in this bucket keeps. The last one is always kept.
+func (b *Bucket) MaxVersions() int {
+	if !b.Versioning || b.VersionRemains < 1 {
+		return 1
+	}
+	return b.VersionRemains
+}
+
 func (b *Bucket) MakeConf(conf *config.ObjectConfig, _ int64) (cfg config.ObjectConfig) {
 	// copy of config
 	cfg = *conf
diff --git a/src/apiserver/internal/usecase/service/object_service.go b/src/apiserver/internal/usecase/service/object_service.go
index 2be9067..2cc5cdb 100644
--- a/src/apiserver/internal/usecase/service/object_service.go
+++ b/src/apiserver/internal/usecase/service/object_service.go
@@ -184,17 +184,31 @@ func (o *ObjectService) StoreObject(req *entity.PutReq, md *entity.Metadata) (vn
 	if vn, err = o.metaService.AddVersion(md.Name, md.Bucket, ver); err != nil {
 		return
 	}
-	if metadata.Total > 0 && !bucket.Versioning || metadata.Total >= bucket.VersionRemains {
-		go func() {
-			defer graceful.Recover()
-			// if not err, delete first version
-			inner := o.metaService.RemoveVersion(md.Name, md.Bucket, int32(metadata.FirstVersion))
-			util.LogErrWithPre("remove first version err", inner)
-		}()
-	}
+	go RemoveOldVersions(o.metaService, md.Name, md.Bucket, bucket.MaxVersions())
 	return
 }
 
+// RemoveOldVersions removes first versions of an object until no more than max remain
+func RemoveOldVersions(s IMetaService, name, bucket string, max int) {
+	defer graceful.Recover()
+	for last := 0; ; {
+		metadata, err := s.GetMetadata(name, bucket, int32(entity.VerModeNot), true)
+		if err != nil {
+			util.LogErrWithPre("remove first version err", err)
+			return
+		}
+		// the answer of a server that is not up to date can be the same as the last one
+		if metadata.Total <= max || metadata.FirstVersion <= last {
+			return
+		}
+		last = metadata.FirstVersion
+		if err = s.RemoveVersion(name, bucket, int32(last)); err != nil {
+			util.LogErrWithPre("remove first version err", err)
+			return
+		}
+	}
+}
+
 func streamToDataServer(req *entity.PutReq, meta *entity.Version, provider StreamProvider) ([]string, error) {
 	//stream to store
 	stream, locates, err := dataServerStream(meta, provider)
-- 
2.43.0


From e78d94c70abeb9b116e92743f11514763513dff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:48 +0000
Subject: [PATCH 85/97] fix: requests which cannot be bound are answered as bad
 requests

---
 .../internal/controller/http/metadata.go       | 18 +++++++++---------
 .../internal/controller/http/object.go         |  4 ++--
 .../internal/controller/http/bucket_api.go     |  4 ++--
 .../internal/controller/http/metadata_api.go   |  4 ++--
 .../internal/controller/http/bucket_rest.go    |  6 +++---
 .../internal/controller/http/metadata_rest.go  |  6 +++---
 .../internal/controller/http/version_rest.go   |  4 ++--
 .../controller/http/objects/objects_rest.go    |  4 ++--
 .../internal/controller/http/temp/temp_rest.go |  4 ++--
 9 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/src/adminserver/internal/controller/http/metadata.go b/src/adminserver/internal/controller/http/metadata.go
index 3f1dfd6..b0c9df7 100644
--- a/src/adminserver/internal/controller/http/metadata.go
+++ b/src/adminserver/internal/controller/http/metadata.go
@@ -37,7 +37,7 @@ func (mc *MetadataController) Register(r gin.IRouter) {
 func (mc *MetadataController) Page(c *gin.Context) {
 	var cond logic.MetadataCond
 	if err := c.ShouldBindQuery(&cond); err != nil {
-		response.FailErr(err, c)
+		response.BadRequestErr(err, c)
 		return
 	}
 	res, total, err := logic.NewMetadata().MetadataPaging(&cond)
@@ -53,7 +53,7 @@ func (mc *MetadataController) Page(c *gin.Context) {
 func (mc *MetadataController) Versions(c *gin.Context) {
 	var cond logic.MetadataCond
 	if err := c.ShouldBindQuery(&cond); err != nil {
-		response.FailErr(err, c)
+		response.BadRequestErr(err, c)
 		return
 	}
 	res, total, err := logic.NewMetadata().VersionPaging(cond, GetAuthToken(c))
@@ -75,7 +75,7 @@ func (mc *MetadataController) Migration(c *gin.Context) {
 		Slots        []string `json:"slots" binding:"required"`
 	}{}
 	if err := c.ShouldBindJSON(&body); err != nil {
-		response.FailErr(err, c)
+		response.BadRequestErr(err, c)
 		return
 	}
 	if err := logic.NewMetadata().StartMigration(body.SrcServerId, body.DestServerId, body.Slots); err != nil {
@@ -100,7 +100,7 @@ func (mc *MetadataController) JoinLeader(c *gin.Context) {
 		MasterId string `json:"masterId" binding:"required"`
 	}{}
 	if err := c.ShouldBindJSON(&req); err != nil {
-		response.FailErr(err, c)
+		response.BadRequestErr(err, c)
 		return
 	}
 	if err := logic.NewMetadata().JoinRaftCluster(req.MasterId, req.ServerId); err != nil {
@@ -115,7 +115,7 @@ func (mc *MetadataController) LeaveCluster(c *gin.Context) {
 		ServerId string `json:"serverId" binding:"required"`
 	}{}
 	if err := c.ShouldBindJSON(&req); err != nil {
-		response.FailErr(err, c)
+		response.BadRequestErr(err, c)
 		return
 	}
 	if err := logic.NewMetadata().LeaveRaftCluster(req.ServerId); err != nil {
@@ -130,7 +130,7 @@ func (mc *MetadataController) Peers(c *gin.Context) {
 		ServerId string `form:"serverId" binding:"required"`
 	}{}
 	if err := c.ShouldBindQuery(&req); err != nil {
-		response.FailErr(err, c)
+		response.BadRequestErr(err, c)
 		return
 	}
 	res, err := logic.NewMetadata().GetPeers(req.ServerId)
@@ -144,7 +144,7 @@ func (mc *MetadataController) Peers(c *gin.Context) {
 func (mc *MetadataController) BucketList(c *gin.Context) {
 	var cond logic.BucketCond
 	if err := c.ShouldBindQuery(&cond); err != nil {
-		response.FailErr(err, c)
+		response.BadRequestErr(err, c)
 		return
 	}
 	list, total, err := logic.NewMetadata().BucketPaging(&cond)
@@ -179,7 +179,7 @@ func (mc *MetadataController) GetConfig(c *gin.Context) {
 func (mc *MetadataController) CreateBucket(c *gin.Context) {
 	var b msg.Bucket
 	if err := c.ShouldBindJSON(&b); err != nil {
-		response.FailErr(err, c)
+		response.BadRequestErr(err, c)
 		return
 	}
 	err := webapi.CreateBucket(logic.SelectApiServer(), &b, GetAuthToken(c))
@@ -193,7 +193,7 @@ func (mc *MetadataController) CreateBucket(c *gin.Context) {
 func (mc *MetadataController) UpdateBucket(c *gin.Context) {
 	var b msg.Bucket
 	if err := c.ShouldBindJSON(&b); err != nil {
-		response.FailErr(err, c)
+		response.BadRequestErr(err, c)
 		return
 	}
 	err := webapi.UpdateBucket(logic.SelectApiServer(), &b, GetAuthToken(c))
diff --git a/src/adminserver/internal/controller/http/object.go b/src/adminserver/internal/controller/http/object.go
index a6c36a7..3aff437 100644
--- a/src/adminserver/internal/controller/http/object.go
+++ b/src/adminserver/internal/controller/http/object.go
@@ -34,7 +34,7 @@ func (oc *ObjectsController) Upload(c *gin.Context) {
 		Bucket string                `form:"bucket" binding:"required"`
 	}{}
 	if err := c.ShouldBind(&body); err != nil {
-		response.FailErr(err, c)
+		response.BadRequestErr(err, c)
 		return
 	}
 	if err := logic.NewObjects().Upload(body.File, body.Bucket, GetAuthToken(c)); err != nil {
@@ -51,7 +51,7 @@ func (oc *ObjectsController) Download(c *gin.Context) {
 		Version int    `form:"version"`
 	}{}
 	if err := entity.Bind(c, &body, false); err != nil {
-		response.FailErr(err, c)
+		response.BadRequestErr(err, c)
 		return
 	}
 	reader, err := logic.NewObjects().Download(body.Name, body.Bucket, body.Version, GetAuthToken(c))
diff --git a/src/apiserver/internal/controller/http/bucket_api.go b/src/apiserver/internal/controller/http/bucket_api.go
index 499156a..676924d 100644
--- a/src/apiserver/internal/controller/http/bucket_api.go
+++ b/src/apiserver/internal/controller/http/bucket_api.go
@@ -25,7 +25,7 @@ func (lc *BucketController) Register(r gin.IRoutes) {
 func (lc *BucketController) Create(c *gin.Context) {
 	var i entity.Bucket
 	if err := c.ShouldBindJSON(&i); err != nil {
-		response.FailErr(err, c)
+		response.BadRequestErr(err, c)
 		return
 	}
 	if i.Name == "" {
@@ -42,7 +42,7 @@ func (lc *BucketController) Create(c *gin.Context) {
 func (lc *BucketController) Update(c *gin.Context) {
 	var i entity.Bucket
 	if err := c.ShouldBindJSON(&i); err != nil {
-		response.FailErr(err, c)
+		response.BadRequestErr(err, c)
 		return
 	}
 	i.Name = c.Param("name")
diff --git a/src/apiserver/internal/controller/http/metadata_api.go b/src/apiserver/internal/controller/http/metadata_api.go
index 4d9eb64..145818a 100644
--- a/src/apiserver/internal/controller/http/metadata_api.go
+++ b/src/apiserver/internal/controller/http/metadata_api.go
@@ -32,7 +32,7 @@ func (mc *MetadataController) Get(c *gin.Context) {
 		Version int32  `form:"version"`
 	}{}
 	if err := entity.Bind(c, &body, false); err != nil {
-		response.FailErr(err, c)
+		response.BadRequestErr(err, c)
 		return
 	}
 	data, err := mc.Service.GetMetadata(body.Name, body.Bucket, body.Version, true)
@@ -51,7 +51,7 @@ func (mc *MetadataController) Versions(c *gin.Context) {
 		Name     string `uri:"name" binding:"min=1"`
 	}{}
 	if err := entity.Bind(c, &body, false); err != nil {
-		response.FailErr(err, c)
+		response.BadRequestErr(err, c)
 		return
 	}
 	id := fmt.Sprint(body.Bucket, "/", body.Name)
diff --git a/src/metaserver/internal/controller/http/bucket_rest.go b/src/metaserver/internal/controller/http/bucket_rest.go
index a5ce489..2161039 100644
--- a/src/metaserver/internal/controller/http/bucket_rest.go
+++ b/src/metaserver/internal/controller/http/bucket_rest.go
@@ -40,7 +40,7 @@ func (b *BucketController) Get(c *gin.Context) {
 func (b *BucketController) CreateNew(c *gin.Context) {
 	var data msg.Bucket
 	if err := c.ShouldBindJSON(&data); err != nil {
-		response.FailErr(err, c)
+		response.BadRequestErr(err, c)
 		return
 	}
 	if data.Name == "" {
@@ -65,7 +65,7 @@ func (b *BucketController) Update(c *gin.Context) {
 	name := c.Param("name")
 	var data msg.Bucket
 	if err := c.ShouldBindJSON(&data); err != nil {
-		response.FailErr(err, c)
+		response.BadRequestErr(err, c)
 		return
 	}
 	data.Name = name
@@ -91,7 +91,7 @@ func (b *BucketController) List(c *gin.Context) {
 		PageSize int    `form:"page_size" binding:"required,lte=10000"`
 	}{}
 	if err := c.ShouldBindQuery(req); err != nil {
-		response.FailErr(err, c)
+		response.BadRequestErr(err, c)
 		return
 	}
 	res, total, err := b.service.List(req.Prefix, req.PageSize)
diff --git a/src/metaserver/internal/controller/http/metadata_rest.go b/src/metaserver/internal/controller/http/metadata_rest.go
index d72179c..f23fffc 100644
--- a/src/metaserver/internal/controller/http/metadata_rest.go
+++ b/src/metaserver/internal/controller/http/metadata_rest.go
@@ -30,7 +30,7 @@ func (m *MetadataController) RegisterRoute(engine gin.IRouter) {
 func (m *MetadataController) Post(g *gin.Context) {
 	var data msg.Metadata
 	if err := g.ShouldBindJSON(&data); err != nil {
-		response.FailErr(err, g)
+		response.BadRequestErr(err, g)
 		return
 	}
 	if err := m.service.AddMetadata(g.Param("name"), &data); err != nil {
@@ -56,7 +56,7 @@ func (m *MetadataController) Get(g *gin.Context) {
 		WithExtra bool `form:"with_extra"`
 	}{}
 	if err := g.ShouldBindQuery(&qry); err != nil {
-		response.FailErr(err, g)
+		response.BadRequestErr(err, g)
 		return
 	}
 	meta, vers, err := m.service.GetMetadata(g.Param("name"), qry.Version, qry.WithExtra)
@@ -92,7 +92,7 @@ func (m *MetadataController) List(c *gin.Context) {
 		Desc     bool   `form:"desc"`
 	}{}
 	if err := c.ShouldBindQuery(&req); err != nil {
-		response.FailErr(err, c)
+		response.BadRequestErr(err, c)
 		return
 	}
 	res, total, err := m.service.ListMetadata(req.Prefix, req.PageSize)
diff --git a/src/metaserver/internal/controller/http/version_rest.go b/src/metaserver/internal/controller/http/version_rest.go
index 7a3fb68..7a16696 100644
--- a/src/metaserver/internal/controller/http/version_rest.go
+++ b/src/metaserver/internal/controller/http/version_rest.go
@@ -30,7 +30,7 @@ func (v *VersionController) RegisterRoute(engine gin.IRouter) {
 func (v *VersionController) Post(g *gin.Context) {
 	var data msg.Version
 	if err := g.ShouldBindJSON(&data); err != nil {
-		response.FailErr(err, g)
+		response.BadRequestErr(err, g)
 		return
 	}
 	data.Sequence = 0
@@ -45,7 +45,7 @@ func (v *VersionController) Post(g *gin.Context) {
 func (v *VersionController) Put(g *gin.Context) {
 	var data msg.Version
 	if err := g.ShouldBindJSON(&data); err != nil {
-		response.FailErr(err, g)
+		response.BadRequestErr(err, g)
 		return
 	}
 	if s, ok := request.GetQryInt("version", g); ok {
diff --git a/src/objectserver/internal/controller/http/objects/objects_rest.go b/src/objectserver/internal/controller/http/objects/objects_rest.go
index 7c291fd..51b0a9f 100644
--- a/src/objectserver/internal/controller/http/objects/objects_rest.go
+++ b/src/objectserver/internal/controller/http/objects/objects_rest.go
@@ -20,7 +20,7 @@ func Put(c *gin.Context) {
 		Compress bool   `form:"compress"`
 	}{}
 	if err := entity.BindAll(c, req, binding.Uri, binding.Query); err != nil {
-		response.FailErr(err, c)
+		response.BadRequestErr(err, c)
 		return
 	}
 	if service.Exist(req.Name) {
@@ -62,7 +62,7 @@ func Get(c *gin.Context) {
 		Compress bool   `form:"compress"`
 	}{}
 	if err := entity.BindAll(c, req, binding.Uri, binding.Query, binding.Header); err != nil {
-		response.FailErr(err, c)
+		response.BadRequestErr(err, c)
 		return
 	}
 	var rg request.Range
diff --git a/src/objectserver/internal/controller/http/temp/temp_rest.go b/src/objectserver/internal/controller/http/temp/temp_rest.go
index bef99b6..bbe850b 100644
--- a/src/objectserver/internal/controller/http/temp/temp_rest.go
+++ b/src/objectserver/internal/controller/http/temp/temp_rest.go
@@ -42,7 +42,7 @@ func Delete(g *gin.Context) {
 func Post(g *gin.Context) {
 	var req entity.TempPostReq
 	if err := entity.BindAll(g, &req, binding.Header, binding.Uri); err != nil {
-		response.FailErr(err, g)
+		response.BadRequestErr(err, g)
 		return
 	}
 	tmpInfo := &entity.TempInfo{
@@ -66,7 +66,7 @@ func Put(g *gin.Context) {
 		Compress bool   `form:"compress"`
 	}{}
 	if err := entity.BindAll(g, req, binding.Uri, binding.Query); err != nil {
-		response.FailErr(err, g)
+		response.BadRequestErr(err, g)
 		return
 	}
 	ti, ok := service.GetTempInfo(req.ID)
-- 
2.43.0


From 532de6b95bf6e1ba623948d7079a73089ff34db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:34 +0000
Subject: [PATCH 86/97] fix: numbers which cannot be parsed are refused instead
 of taken as 0

---
 src/common/request/request.go                         | 11 +++++++----
 .../internal/usecase/service/migration_service.go     |  6 +++++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/common/request/request.go b/src/common/request/request.go
index c0ebd8a..dc860aa 100644
--- a/src/common/request/request.go
+++ b/src/common/request/request.go
@@ -2,12 +2,12 @@ package request
 
 import (
 	"bytes"
-	"common/util"
 	"encoding/json"
 	"fmt"
 	"io"
 	"net/http"
 	"net/url"
+	"strconv"
 
 	"github.com/gin-gonic/gin"
 )
@@ -17,11 +17,14 @@ const (
 	ContentTypeUrlEncode = "application/x-www-form-urlencoded"
 )
 
+// GetQryInt returns false if the param is missing or not an integer
 func GetQryInt(key string, c *gin.Context) (int, bool) {
-	if v, ok := c.GetQuery(key); ok {
-		return util.ToInt(v), true
+	v, ok := c.GetQuery(key)
+	if !ok {
+		return 0, false
 	}
-	return 0, false
+	i, err := strconv.Atoi(v)
+	return i, err == nil
 }
 
 func GetReq(body io.Reader, method, url, contentType string) (*http.Request, error) {
diff --git a/src/objectserver/internal/usecase/service/migration_service.go b/src/objectserver/internal/usecase/service/migration_service.go
index 494c709..a6d405b 100644
--- a/src/objectserver/internal/usecase/service/migration_service.go
+++ b/src/objectserver/internal/usecase/service/migration_service.go
@@ -24,6 +24,7 @@ import (
 	"objectserver/internal/usecase/webapi"
 	"os"
 	"path/filepath"
+	"strconv"
 	"strings"
 	"sync"
 
@@ -288,7 +289,10 @@ func (ms *MigrationService) FinishObject(data *pb.ObjectInfo) error {
 	if idx < 0 {
 		return fmt.Errorf("file name %s has no shard index", data.FileName)
 	}
-	seq := util.ToInt(data.FileName[idx+1:])
+	seq, err := strconv.Atoi(data.FileName[idx+1:])
+	if err != nil {
+		return fmt.Errorf("file name %s has no shard index: %w", data.FileName, err)
+	}
 	hash := data.FileName[:idx]
 	// get metadata locations of file
 	var wg sync.WaitGroup
-- 
2.43.0


From e356bba615f27cc5e3feca33950741315e8bd024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:34 +0000
Subject: [PATCH 87/97] fix: malformed metadata doesn't replace the stored one

---
 src/metaserver/internal/controller/http/metadata_rest.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/metaserver/internal/controller/http/metadata_rest.go b/src/metaserver/internal/controller/http/metadata_rest.go
index f23fffc..0ca5730 100644
--- a/src/metaserver/internal/controller/http/metadata_rest.go
+++ b/src/metaserver/internal/controller/http/metadata_rest.go
@@ -42,7 +42,10 @@ func (m *MetadataController) Post(g *gin.Context) {
 
 func (m *MetadataController) Put(g *gin.Context) {
 	var data msg.Metadata
-	_ = g.ShouldBindJSON(&data)
+	if err := g.ShouldBindJSON(&data); err != nil {
+		response.BadRequestErr(err, g)
+		return
+	}
 	if err := m.service.UpdateMetadata(g.Param("name"), &data); err != nil {
 		response.FailErr(err, g)
 		return
-- 
2.43.0


From c9dc36a48073d9f16d5fdf229dffd6c9568312f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:34 +0000
Subject: [PATCH 88/97] fix: errors of requests keep their status through
 wrapping, gRPC and the binding of several parts

---
 src/adminserver/internal/entity/binder.go     |  5 +++
 src/apiserver/internal/entity/binder.go       |  5 +++
 src/common/proto/generate.go                  |  4 ++
 src/common/response/errors.go                 | 23 +++++++----
 src/common/response/resp_util.go              |  3 ++
 src/common/response/response.go               | 41 +++++++++----------
 .../controller/grpc/metadata_server.go        |  4 +-
 src/metaserver/internal/entity/binder.go      |  5 +++
 src/objectserver/internal/entity/binder.go    |  5 +++
 9 files changed, 63 insertions(+), 32 deletions(-)

diff --git a/src/adminserver/internal/entity/binder.go b/src/adminserver/internal/entity/binder.go
index 1338252..f989c8e 100644
--- a/src/adminserver/internal/entity/binder.go
+++ b/src/adminserver/internal/entity/binder.go
@@ -1,6 +1,7 @@
 package entity
 
 import (
+	"common/response"
 	"github.com/gin-gonic/gin"
 	"github.com/gin-gonic/gin/binding"
 )
@@ -14,6 +15,7 @@ func Bind(c *gin.Context, b any, json bool) error {
 	return BindAll(c, b, FullBindings[:len(FullBindings)-1]...)
 }
 
+// BindAll binds everything to one object, so only the last validation sees all fields, while values that cannot be parsed always fail
 func BindAll(c *gin.Context, obj any, bindings ...any) error {
 	var e error
 	for _, b := range bindings {
@@ -24,6 +26,9 @@ func BindAll(c *gin.Context, obj any, bindings ...any) error {
 		} else if trans2, ok := b.(binding.Binding); ok {
 			e = c.ShouldBindWith(obj, trans2)
 		}
+		if e != nil && !response.IsInvalid(e) {
+			return e
+		}
 	}
 	return e
 }
diff --git a/src/apiserver/internal/entity/binder.go b/src/apiserver/internal/entity/binder.go
index 08be0ca..dea80fd 100644
--- a/src/apiserver/internal/entity/binder.go
+++ b/src/apiserver/internal/entity/binder.go
@@ -1,6 +1,7 @@
 package entity
 
 import (
+	"common/response"
 	"github.com/gin-gonic/gin"
 	"github.com/gin-gonic/gin/binding"
 )
@@ -14,6 +15,7 @@ func Bind(c *gin.Context, b any, json bool) error {
 	return BindAll(c, b, FullBindings[:len(FullBindings)-1]...)
 }
 
+// BindAll binds everything to one object, so only the last validation sees all fields, while values that cannot be parsed always fail
 func BindAll(c *gin.Context, obj any, bindings ...any) error {
 	var e error
 	for _, b := range bindings {
@@ -24,6 +26,9 @@ func BindAll(c *gin.Context, obj any, bindings ...any) error {
 		} else if trans2, ok := b.(binding.Binding); ok {
 			e = c.ShouldBindWith(obj, trans2)
 		}
+		if e != nil && !response.IsInvalid(e) {
+			return e
+		}
 	}
 	return e
 }
diff --git a/src/common/proto/generate.go b/src/common/proto/generate.go
index 170afb2..9dc054d 100644
--- a/src/common/proto/generate.go
+++ b/src/common/proto/generate.go
@@ -30,6 +30,10 @@ func ResolveErr(err error) error {
 		return response.NewError(404, s.Message())
 	case codes.InvalidArgument, codes.Aborted:
 		return response.NewError(400, s.Message())
+	case codes.Unauthenticated:
+		return response.NewError(401, s.Message())
+	case codes.PermissionDenied:
+		return response.NewError(403, s.Message())
 	default:
 		return response.NewError(500, s.Message())
 	}
diff --git a/src/common/response/errors.go b/src/common/response/errors.go
index 5ca28fc..1503619 100644
--- a/src/common/response/errors.go
+++ b/src/common/response/errors.go
@@ -1,6 +1,11 @@
 package response
 
-import "fmt"
+import (
+	"errors"
+	"fmt"
+
+	"github.com/go-playground/validator/v10"
+)
 
 type IErr interface {
 	error
@@ -34,13 +39,13 @@ func (r Err) GetStatus() int {
 	return r.Status
 }
 
+// IsInvalid tells if values of a request are not valid
+func IsInvalid(err error) bool {
+	var es validator.ValidationErrors
+	return errors.As(err, &es)
+}
+
 func CheckErrStatus(status int, err error) bool {
-	if err == nil {
-		return false
-	}
-	respErr, ok := err.(IErr)
-	if !ok {
-		return false
-	}
-	return respErr.GetStatus() == status
+	var respErr IErr
+	return errors.As(err, &respErr) && respErr.GetStatus() == status
 }
diff --git a/src/common/response/resp_util.go b/src/common/response/resp_util.go
index eb9a973..6540b1d 100644
--- a/src/common/response/resp_util.go
+++ b/src/common/response/resp_util.go
@@ -22,6 +22,9 @@ func MessageFromJSONBody(body io.ReadCloser) string {
 		logs.Std().Debugf("MessageFromJSONBody.UnmarshalBody: %s", err)
 		return "unknown"
 	}
+	if mp["message"] == nil {
+		return "unknown"
+	}
 	return fmt.Sprint(mp["message"])
 }
 
diff --git a/src/common/response/response.go b/src/common/response/response.go
index 72bc116..1ab9de5 100644
--- a/src/common/response/response.go
+++ b/src/common/response/response.go
@@ -3,13 +3,13 @@ package response
 import (
 	"common/logs"
 	"common/util"
+	"errors"
 	"fmt"
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/status"
 	"net/http"
 
 	"github.com/gin-gonic/gin"
-	"github.com/go-playground/validator/v10"
 )
 
 type FailureResp struct {
@@ -106,25 +106,25 @@ func ServiceUnavailableErr(err error, c *gin.Context) *GinExecutor {
 }
 
 func FailErr(err error, c *gin.Context) *GinExecutor {
-	switch err := err.(type) {
-	case validator.ValidationErrors, *validator.ValidationErrors:
+	var e IErr
+	if IsInvalid(err) {
 		BadRequestErr(err, c)
-	case IErr:
-		if IsOk(err.GetStatus()) {
-			c.Status(err.GetStatus())
-		} else if IsInternal(err.GetStatus()) {
+	} else if errors.As(err, &e) {
+		if IsOk(e.GetStatus()) {
+			c.Status(e.GetStatus())
+		} else if IsInternal(e.GetStatus()) {
 			logs.Std().Errorf("request(%s %s): [%T] %s", c.Request.Method, c.FullPath(), err, err)
-			c.JSON(err.GetStatus(), &FailureResp{
+			c.JSON(e.GetStatus(), &FailureResp{
 				Message:    "system error",
-				SubMessage: fmt.Sprintf("%T", err),
+				SubMessage: fmt.Sprintf("%T", e),
 			})
 		} else {
-			c.JSON(err.GetStatus(), &FailureResp{
+			c.JSON(e.GetStatus(), &FailureResp{
 				Message:    err.Error(),
-				SubMessage: err.GetSubMessage(),
+				SubMessage: e.GetSubMessage(),
 			})
 		}
-	default:
+	} else {
 		logs.Std().Errorf("request(%s %s): [%T] %s", c.Request.Method, c.FullPath(), err, err)
 		c.JSON(http.StatusInternalServerError, &FailureResp{
 			Message:    "system error",
@@ -145,25 +145,24 @@ var httpGrpcStatus = map[int]codes.Code{
 }
 
 func GRPCError(err error) error {
-	switch err := err.(type) {
-	case validator.ValidationErrors, *validator.ValidationErrors:
+	var e IErr
+	if IsInvalid(err) {
 		return status.Error(codes.InvalidArgument, err.Error())
-	case IErr:
-		if IsOk(err.GetStatus()) {
+	} else if errors.As(err, &e) {
+		if IsOk(e.GetStatus()) {
 			return nil
-		} else if IsInternal(err.GetStatus()) {
+		} else if IsInternal(e.GetStatus()) {
 			logs.Std().Errorf("grpc internal err: %s", err)
 			return status.Error(codes.Internal, err.Error())
 		} else {
-			code, ok := httpGrpcStatus[err.GetStatus()]
+			code, ok := httpGrpcStatus[e.GetStatus()]
 			if !ok {
 				logs.Std().Errorf("grpc unknown err: %s", err)
 				code = codes.Unknown
 			}
 			return status.Error(code, err.Error())
 		}
-	default:
-		logs.Std().Errorf("grpc internal err: %s", err)
-		return status.Error(codes.Internal, err.Error())
 	}
+	logs.Std().Errorf("grpc internal err: %s", err)
+	return status.Error(codes.Internal, err.Error())
 }
diff --git a/src/metaserver/internal/controller/grpc/metadata_server.go b/src/metaserver/internal/controller/grpc/metadata_server.go
index 7ddc199..2b198c6 100644
--- a/src/metaserver/internal/controller/grpc/metadata_server.go
+++ b/src/metaserver/internal/controller/grpc/metadata_server.go
@@ -32,7 +32,7 @@ func (m *MetadataApiServer) GetVersionsByHash(_ context.Context, req *pb.MetaReq
 	}
 	res, err := m.Service.FindByHash(req.Hash)
 	if err != nil {
-		return nil, err
+		return nil, response.GRPCError(err)
 	}
 	bt, err := util.EncodeArrayMsgp(res)
 	if err != nil {
@@ -50,7 +50,7 @@ func (m *MetadataApiServer) ListVersion(_ context.Context, req *pb.MetaReq) (*pb
 	}
 	res, total, err := m.Service.ListVersions(req.Id, int(req.Page.Page), int(req.Page.PageSize))
 	if err != nil {
-		return nil, err
+		return nil, response.GRPCError(err)
 	}
 	bt, err := util.EncodeArrayMsgp(res)
 	if err != nil {
diff --git a/src/metaserver/internal/entity/binder.go b/src/metaserver/internal/entity/binder.go
index b519136..dc4b907 100644
--- a/src/metaserver/internal/entity/binder.go
+++ b/src/metaserver/internal/entity/binder.go
@@ -1,12 +1,14 @@
 package entity
 
 import (
+	"common/response"
 	"github.com/gin-gonic/gin"
 	"github.com/gin-gonic/gin/binding"
 )
 
 var FullBindings = []any{binding.Uri, binding.JSON, binding.Query}
 
+// BindAll binds everything to one object, so only the last validation sees all fields, while values that cannot be parsed always fail
 func BindAll(c *gin.Context, obj any, bindings ...any) error {
 	var e error
 	for _, b := range bindings {
@@ -17,6 +19,9 @@ func BindAll(c *gin.Context, obj any, bindings ...any) error {
 		} else if trans2, ok := b.(binding.Binding); ok {
 			e = c.ShouldBindWith(obj, trans2)
 		}
+		if e != nil && !response.IsInvalid(e) {
+			return e
+		}
 	}
 	return e
 }
diff --git a/src/objectserver/internal/entity/binder.go b/src/objectserver/internal/entity/binder.go
index fd38502..0173a09 100644
--- a/src/objectserver/internal/entity/binder.go
+++ b/src/objectserver/internal/entity/binder.go
@@ -1,10 +1,12 @@
 package entity
 
 import (
+	"common/response"
 	"github.com/gin-gonic/gin"
 	"github.com/gin-gonic/gin/binding"
 )
 
+// BindAll binds everything to one object, so only the last validation sees all fields, while values that cannot be parsed always fail
 func BindAll(c *gin.Context, obj any, bindings ...any) error {
 	var e error
 	for _, b := range bindings {
@@ -15,6 +17,9 @@ func BindAll(c *gin.Context, obj any, bindings ...any) error {
 		} else if trans2, ok := b.(binding.Binding); ok {
 			e = c.ShouldBindWith(obj, trans2)
 		}
+		if e != nil && !response.IsInvalid(e) {
+			return e
+		}
 	}
 	return e
 }
-- 
2.43.0


From f0d5cc40eafd70082a35d5fabe2fcdd67a4b7c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:32 +0000
Subject: [PATCH 89/97] fix: performance averages and sums split kinds and
 actions that contain dots

---
 src/common/performance/store.go | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/common/performance/store.go b/src/common/performance/store.go
index 5f7b8b0..81c2205 100644
--- a/src/common/performance/store.go
+++ b/src/common/performance/store.go
@@ -1,8 +1,6 @@
 package performance
 
 import (
-	"fmt"
-	"strings"
 	"time"
 )
 
@@ -84,6 +82,10 @@ type avgSumStore struct {
 	Store
 }
 
+type groupKey struct {
+	kind, action string
+}
+
 // AvgSumStore inner store could just implement Get, Put, Clear and Size.
 // this will get data from inner store and calculate their Average and Sum.
 func AvgSumStore(inner Store) Store {
@@ -95,20 +97,18 @@ func (as *avgSumStore) Average(kind, action string) ([]*Perform, error) {
 	if err != nil {
 		return nil, err
 	}
-	totalMap := make(map[string]time.Duration)
-	sizeMap := make(map[string]int)
+	totalMap := make(map[groupKey]time.Duration)
+	sizeMap := make(map[groupKey]int)
 	for _, item := range data {
-		key := fmt.Sprint(item.KindOf, ".", item.Action)
+		key := groupKey{item.KindOf, item.Action}
 		totalMap[key] += item.Cost
 		sizeMap[key]++
 	}
 	res := make([]*Perform, 0, len(totalMap))
 	for k, total := range totalMap {
-		sp := strings.Split(k, ".")
-		kind, action := sp[0], sp[1]
 		res = append(res, &Perform{
-			KindOf: kind,
-			Action: action,
+			KindOf: k.kind,
+			Action: k.action,
 			Cost:   total / time.Duration(sizeMap[k]),
 		})
 	}
@@ -120,18 +120,16 @@ func (as *avgSumStore) Sum(kind, action string) ([]*Perform, error) {
 	if err != nil {
 		return nil, err
 	}
-	totalMap := make(map[string]time.Duration)
+	totalMap := make(map[groupKey]time.Duration)
 	for _, item := range data {
-		key := fmt.Sprint(item.KindOf, ".", item.Action)
+		key := groupKey{item.KindOf, item.Action}
 		totalMap[key] += item.Cost
 	}
 	res := make([]*Perform, 0, len(totalMap))
 	for k, total := range totalMap {
-		sp := strings.Split(k, ".")
-		kind, action := sp[0], sp[1]
 		res = append(res, &Perform{
-			KindOf: kind,
-			Action: action,
+			KindOf: k.kind,
+			Action: k.action,
 			Cost:   total,
 		})
 	}
-- 
2.43.0


From 579655d4a1db9957a3ba327777ec6a7c72aacece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:32 +0000
Subject: [PATCH 90/97] fix: local performance store lists, counts and clears
 records by kind and action

---
 src/common/performance/local_store.go | 122 ++++++++++++--------------
 1 file changed, 56 insertions(+), 66 deletions(-)

diff --git a/src/common/performance/local_store.go b/src/common/performance/local_store.go
index 942b818..8ddcc46 100644
--- a/src/common/performance/local_store.go
+++ b/src/common/performance/local_store.go
@@ -110,9 +110,9 @@ func (ls *LocalStore) Put(data []*Perform) error {
 }
 
 func (ls *LocalStore) keyPrefix(key string) string {
-	sp := strings.Split(key, ".")
-	if len(sp) == 2 {
-		return sp[0]
+	// the key belongs to the transaction, the result outlives it
+	if idx := strings.LastIndexByte(key, '.'); idx >= 0 {
+		return strings.Clone(key[:idx])
 	}
 	return ""
 }
@@ -125,47 +125,53 @@ func (ls *LocalStore) Get(kind, action string) ([]*Perform, error) {
 	err := ls.db.View(func(tx *bolt.Tx) error {
 		if kind != "" {
 			kndBuk, err := ls.getBucket(tx, kindBucketRoot, kind)
+			if err == errNotExist {
+				return nil
+			}
 			if err != nil {
 				return err
 			}
-			var k, v []byte
+			var k, v, prefix []byte
 			cur := kndBuk.Cursor()
 			if action != "" {
-				k, v = cur.Seek(util.StrToBytes(action))
+				prefix = []byte(action + ".")
+				k, v = cur.Seek(prefix)
 			} else {
 				k, v = cur.First()
 			}
-			for k != nil {
+			for ; k != nil && bytes.HasPrefix(k, prefix); k, v = cur.Next() {
 				act := ls.keyPrefix(util.BytesToStr(k))
 				if action != "" && act != action {
-					break
+					continue
 				}
 				res = append(res, &Perform{
 					KindOf: kind,
 					Action: act,
 					Cost:   time.Duration(util.BytesToInt(v)),
 				})
-				k, v = cur.Next()
 			}
 			return nil
 		} else {
 			// if action is empty returns action root bucket
 			actBuk, err := ls.getBucket(tx, actionBucketRoot, action)
+			if err == errNotExist {
+				return nil
+			}
 			if err != nil {
 				return err
 			}
 			return actBuk.ForEach(func(k, v []byte) error {
 				if v == nil {
 					// if k is a nest bucket (when action is emtpy, action root bucket has nest buckets)
-					actBuk.Bucket(k).ForEach(func(k, v []byte) error {
+					act := string(k)
+					return actBuk.Bucket(k).ForEach(func(k, v []byte) error {
 						res = append(res, &Perform{
 							KindOf: ls.keyPrefix(util.BytesToStr(k)),
-							Action: util.BytesToStr(k),
+							Action: act,
 							Cost:   time.Duration(util.BytesToInt(v)),
 						})
 						return nil
 					})
-					return nil
 				}
 				res = append(res, &Perform{
 					KindOf: ls.keyPrefix(util.BytesToStr(k)),
@@ -179,7 +185,25 @@ func (ls *LocalStore) Get(kind, action string) ([]*Perform, error) {
 	return res, err
 }
 
-func (ls *LocalStore) delete(tx *bolt.Tx, rootName []byte, nestName string, prefix []byte) error {
+// deletePrefix removes all of the records whose key is made of the prefix and a sequence number
+func (ls *LocalStore) deletePrefix(b *bolt.Bucket, name string) error {
+	prefix := []byte(name + ".")
+	var keys [][]byte
+	cur := b.Cursor()
+	for k, _ := cur.Seek(prefix); k != nil && bytes.HasPrefix(k, prefix); k, _ = cur.Next() {
+		if ls.keyPrefix(util.BytesToStr(k)) == name {
+			keys = append(keys, k)
+		}
+	}
+	for _, k := range keys {
+		if err := b.Delete(k); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+func (ls *LocalStore) delete(tx *bolt.Tx, rootName []byte, nestName string, name string) error {
 	if nestName != "" {
 		nest, err := ls.getBucket(tx, rootName, nestName)
 		if err == errNotExist {
@@ -188,18 +212,7 @@ func (ls *LocalStore) delete(tx *bolt.Tx, rootName []byte, nestName string, pref
 		if err != nil {
 			return err
 		}
-		cur := nest.Cursor()
-		bk, _ := cur.Seek(prefix)
-		for bk != nil {
-			if !bytes.HasPrefix(bk, prefix) {
-				break
-			}
-			if err = cur.Delete(); err != nil {
-				return err
-			}
-			bk, _ = cur.Next()
-		}
-		return nil
+		return ls.deletePrefix(nest, name)
 	}
 	// get root bucket
 	root, err := ls.getBucket(tx, rootName, "")
@@ -214,18 +227,7 @@ func (ls *LocalStore) delete(tx *bolt.Tx, rootName []byte, nestName string, pref
 		if v != nil {
 			return nil
 		}
-		cur := root.Bucket(k).Cursor()
-		bk, _ := cur.Seek(prefix)
-		for bk != nil {
-			if !bytes.HasPrefix(bk, prefix) {
-				break
-			}
-			if err = cur.Delete(); err != nil {
-				return err
-			}
-			bk, _ = cur.Next()
-		}
-		return nil
+		return ls.deletePrefix(root.Bucket(k), name)
 	})
 }
 
@@ -264,11 +266,11 @@ func (ls *LocalStore) Clear(kind, action string) error {
 				return err
 			}
 			// delete kind bucket directly
-			if err = kindRoot.Delete(util.StrToBytes(kind)); err != nil {
+			if err = kindRoot.DeleteBucket(util.StrToBytes(kind)); err != nil && err != bolt.ErrBucketNotFound {
 				return err
 			}
 			// delete from action buckets
-			return ls.delete(tx, actionBucketRoot, action, util.StrToBytes(kind))
+			return ls.delete(tx, actionBucketRoot, action, kind)
 		})
 	} else if kind == "" && action != "" {
 		return ls.db.Update(func(tx *bolt.Tx) error {
@@ -281,34 +283,29 @@ func (ls *LocalStore) Clear(kind, action string) error {
 				return err
 			}
 			// delete action bucket directly
-			if err = actionRoot.Delete(util.StrToBytes(action)); err != nil {
+			if err = actionRoot.DeleteBucket(util.StrToBytes(action)); err != nil && err != bolt.ErrBucketNotFound {
 				return err
 			}
 			// delete from kind buckets
-			return ls.delete(tx, kindBucketRoot, kind, util.StrToBytes(action))
+			return ls.delete(tx, kindBucketRoot, kind, action)
 		})
 	} else if action != "" && kind != "" {
-		kindBt := util.StrToBytes(kind)
-		actionBt := util.StrToBytes(action)
 		return ls.db.Update(func(tx *bolt.Tx) error {
-			err := ls.delete(tx, actionBucketRoot, action, kindBt)
+			err := ls.delete(tx, actionBucketRoot, action, kind)
 			if err != nil {
 				return err
 			}
-			return ls.delete(tx, kindBucketRoot, kind, actionBt)
+			return ls.delete(tx, kindBucketRoot, kind, action)
 		})
 	} else {
-		// close db
-		if err := ls.db.Close(); err != nil {
-			return err
-		}
-		// remove db file
-		path := ls.db.Path()
-		if err := os.Remove(path); err != nil {
-			return err
-		}
-		// re-open db
-		return ls.openDatabase(path)
+		return ls.db.Update(func(tx *bolt.Tx) error {
+			for _, root := range [][]byte{actionBucketRoot, kindBucketRoot} {
+				if err := tx.DeleteBucket(root); err != nil && err != bolt.ErrBucketNotFound {
+					return err
+				}
+			}
+			return nil
+		})
 	}
 }
 
@@ -316,6 +313,10 @@ func (ls *LocalStore) Size(kind, action string) (int64, error) {
 	if err := ls.checkDatabase(); err != nil {
 		return 0, err
 	}
+	if action != "" && kind != "" {
+		data, err := ls.Get(kind, action)
+		return int64(len(data)), err
+	}
 	var total int64
 	err := ls.db.View(func(tx *bolt.Tx) error {
 		if action != "" && kind == "" {
@@ -356,17 +357,6 @@ func (ls *LocalStore) Size(kind, action string) (int64, error) {
 				return nil
 			})
 		}
-		if action != "" && kind != "" {
-			data, err := ls.Get(kind, action)
-			if err == errNotExist {
-				return nil
-			}
-			if err != nil {
-				return err
-			}
-			total = int64(len(data))
-			return nil
-		}
 		return nil
 	})
 	return total, err
-- 
2.43.0


From 40744c83304e4db38ee398df931aea605fba8c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:32 +0000
Subject: [PATCH 91/97] fix: performance collector flushes every interval,
 stops when closed and keeps its memory limited

---
 src/common/performance/collector.go | 32 ++++++++++++++---------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/common/performance/collector.go b/src/common/performance/collector.go
index c0eeb81..97d71c0 100644
--- a/src/common/performance/collector.go
+++ b/src/common/performance/collector.go
@@ -56,7 +56,7 @@ type pmCollector struct {
 	store        Store
 	conf         *Config
 	memData      []*Perform
-	lastSaveTime time.Time
+	ticker       *time.Ticker
 	mux          sync.Locker
 	stopAutoSave func()
 }
@@ -66,11 +66,10 @@ func NewCollector(cfg *Config) Collector {
 		return &noneCollector{NoneStore()}
 	}
 	c := &pmCollector{
-		conf:         cfg,
-		store:        getStore(cfg.Store),
-		memData:      make([]*Perform, 0, cfg.MaxInMemory),
-		lastSaveTime: time.Time{},
-		mux:          &sync.Mutex{},
+		conf:    cfg,
+		store:   getStore(cfg.Store),
+		memData: make([]*Perform, 0, cfg.MaxInMemory),
+		mux:     &sync.Mutex{},
 	}
 	c.startAutoFlush()
 	return c
@@ -104,6 +103,8 @@ func (c *pmCollector) Put(action string, kindOf string, cost time.Duration) erro
 	if len(c.memData) > c.conf.MaxInMemory {
 		if c.conf.FlushWhenReached {
 			if err := c.Flush(); err != nil {
+				// the memory stays limited, the eldest is lost
+				slices.RemoveFirst(&c.memData)
 				return err
 			}
 		} else {
@@ -115,7 +116,9 @@ func (c *pmCollector) Put(action string, kindOf string, cost time.Duration) erro
 
 // Flush save in-memory data to Store and clear memory buffer. it's goroutine unsafe.
 func (c *pmCollector) Flush() error {
-	c.lastSaveTime = time.Now()
+	if c.ticker != nil {
+		c.ticker.Reset(c.conf.FlushInterval)
+	}
 	if err := c.store.Put(c.memData); err != nil {
 		return err
 	}
@@ -126,27 +129,22 @@ func (c *pmCollector) Flush() error {
 func (c *pmCollector) Close() error {
 	c.mux.Lock()
 	defer c.mux.Unlock()
-	if err := c.Flush(); err != nil {
-		return err
-	}
 	if c.stopAutoSave != nil {
 		c.stopAutoSave()
 	}
-	return nil
+	return c.Flush()
 }
 
 func (c *pmCollector) startAutoFlush() {
+	tk := time.NewTicker(c.conf.FlushInterval)
+	ctx, cancel := context.WithCancel(context.Background())
+	c.ticker, c.stopAutoSave = tk, cancel
 	go func() {
 		defer graceful.Recover()
-		tk := time.NewTicker(c.conf.FlushInterval)
-		ctx, cancel := context.WithCancel(context.Background())
-		c.stopAutoSave = cancel
+		defer tk.Stop()
 		flushFn := func() {
 			c.mux.Lock()
 			defer c.mux.Unlock()
-			if time.Since(c.lastSaveTime) < c.conf.FlushInterval {
-				return
-			}
 			if err := c.Flush(); err != nil {
 				pmLog.Errorf("auto flush fail: %s", err)
 			}
-- 
2.43.0


From c59945007accf8a8eefd1a20cada790cc6ec79d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:35 +0000
Subject: [PATCH 92/97] fix: waiting for a group left a goroutine behind after
 an error

---
 src/common/util/done_group.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/util/done_group.go b/src/common/util/done_group.go
index 587aa03..3aa79a8 100644
--- a/src/common/util/done_group.go
+++ b/src/common/util/done_group.go
@@ -93,7 +93,7 @@ func (d *doneGroup) WaitError() <-chan error {
 }
 
 func (d *doneGroup) WaitDone() <-chan struct{} {
-	ch := make(chan struct{})
+	ch := make(chan struct{}, 1) // nobody may wait any more
 	go func() {
 		defer func() {
 			if err := recover(); err != nil {
-- 
2.43.0


From 42123a30b6e54afd7901e06d8dff633c4a0af09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:25 +0000
Subject: [PATCH 93/97] fix: preparing a migration left its connection open

---
 src/metaserver/internal/usecase/service/hashslot_service.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/metaserver/internal/usecase/service/hashslot_service.go b/src/metaserver/internal/usecase/service/hashslot_service.go
index f023c36..8a54340 100644
--- a/src/metaserver/internal/usecase/service/hashslot_service.go
+++ b/src/metaserver/internal/usecase/service/hashslot_service.go
@@ -104,6 +104,7 @@ func (h *HashSlotService) PrepareMigrationTo(loc *pb.LocationInfo, slots []strin
 	if err != nil {
 		return err
 	}
+	defer cc.Close()
 	client := pb.NewHashSlotClient(cc)
 	resp, err := client.PrepareMigration(context.Background(), &pb.PrepareReq{
 		Id: h.Cfg.StoreID,
-- 
2.43.0


From c5737764bbd4d0ef6687f003875d5a0210230dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:18 +0000
Subject: [PATCH 94/97] fix: reading a part of an object was refused since
 ranges were bound as header values

---
 src/apiserver/internal/entity/dto.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/apiserver/internal/entity/dto.go b/src/apiserver/internal/entity/dto.go
index e44d419..5164edc 100644
--- a/src/apiserver/internal/entity/dto.go
+++ b/src/apiserver/internal/entity/dto.go
@@ -28,14 +28,14 @@ type PutReq struct {
 	Hash     string         `header:"digest" binding:"required"`
 	Ext      string
 	Locate   []string
-	Body     io.Reader
+	Body     io.Reader `uri:"-" form:"-" header:"-"`
 }
 
 type GetReq struct {
-	Name    string `uri:"name" binding:"required"`
-	Bucket  string `header:"bucket" binding:"required"`
-	Version int32  `form:"version" binding:"min=0"`
-	Range   request.Range
+	Name    string        `uri:"name" binding:"required"`
+	Bucket  string        `header:"bucket" binding:"required"`
+	Version int32         `form:"version" binding:"min=0"`
+	Range   request.Range `uri:"-" form:"-" header:"-"`
 }
 
 type BigPostReq struct {
@@ -48,8 +48,8 @@ type BigPostReq struct {
 }
 
 type BigPutReq struct {
-	Token string `uri:"token" binding:"required"`
-	Range request.Range
+	Token string        `uri:"token" binding:"required"`
+	Range request.Range `uri:"-" form:"-" header:"-"`
 }
 
 func (b *BigPostReq) Bind(c *gin.Context) error {
-- 
2.43.0


From 2a808d29954e76583aa960649504fb5ebaa4ad5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:33 +0000
Subject: [PATCH 95/97] fix: raft commands left connections to the leader open

---
 src/metaserver/internal/controller/grpc/raft_cmd_server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/metaserver/internal/controller/grpc/raft_cmd_server.go b/src/metaserver/internal/controller/grpc/raft_cmd_server.go
index 82403ea..91d6f8d 100644
--- a/src/metaserver/internal/controller/grpc/raft_cmd_server.go
+++ b/src/metaserver/internal/controller/grpc/raft_cmd_server.go
@@ -130,6 +130,7 @@ func (rcs *RaftCmdServerImpl) LeaveCluster(ctx context.Context, _ *pb.EmptyReq)
 	if err != nil {
 		return nil, err
 	}
+	defer cc.Close()
 	return pb.NewRaftCmdClient(cc).RemoveFollower(ctx, &pb.RemoveFollowerReq{
 		FollowerId: rcs.rf.ID,
 	})
@@ -172,6 +173,7 @@ func (rcs *RaftCmdServerImpl) JoinLeader(ctx context.Context, req *pb.JoinLeader
 	if err != nil {
 		return nil, err
 	}
+	defer cc.Close()
 	// send rpc request by client
 	client := pb.NewRaftCmdClient(cc)
 	if rcs.rf.LeaderID() != req.MasterId {
-- 
2.43.0


From 2ac73af0244e239908ecac4fe2c40c348ccd1134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:58 +0000
Subject: [PATCH 96/97] fix: raft commands keep the configured nodes in step
 with the members

---
 .../controller/grpc/raft_cmd_server.go        | 64 ++++++++++---------
 1 file changed, 34 insertions(+), 30 deletions(-)

diff --git a/src/metaserver/internal/controller/grpc/raft_cmd_server.go b/src/metaserver/internal/controller/grpc/raft_cmd_server.go
index 91d6f8d..0643adc 100644
--- a/src/metaserver/internal/controller/grpc/raft_cmd_server.go
+++ b/src/metaserver/internal/controller/grpc/raft_cmd_server.go
@@ -1,7 +1,6 @@
 package grpc
 
 import (
-	"common/collection/set"
 	"common/graceful"
 	"common/proto"
 	"common/proto/pb"
@@ -47,20 +46,20 @@ func (rcs *RaftCmdServerImpl) Bootstrap(_ context.Context, req *pb.BootstrapReq)
 		}
 	} else {
 		if len(pool.Config.Cluster.Nodes) == 0 {
-			pool.Config.Cluster.Nodes = append(pool.Config.Cluster.Nodes, fmt.Sprint(pool.Config.Cluster, ",", util.ServerAddress(pool.Config.Port)))
+			pool.Config.Cluster.Nodes = append(pool.Config.Cluster.Nodes, fmt.Sprint(pool.Config.Cluster.ID, ",", util.ServerAddress(pool.Config.Port)))
 		}
-		raftCfg.Servers = make([]raft.Server, len(pool.Config.Cluster.Nodes))
-		for i, v := range pool.Config.Cluster.Nodes {
+		raftCfg.Servers = make([]raft.Server, 0, len(pool.Config.Cluster.Nodes))
+		for _, v := range pool.Config.Cluster.Nodes {
 			idAndAddr := strings.Split(v, ",")
 			if len(idAndAddr) != 2 {
 				log.Warnf("raft-bootstrap: skip node %s item doesn't support format 'id,host:port'", v)
 				continue
 			}
-			raftCfg.Servers[i] = raft.Server{
+			raftCfg.Servers = append(raftCfg.Servers, raft.Server{
 				Suffrage: raft.Voter,
 				ID:       raft.ServerID(idAndAddr[0]),
 				Address:  raft.ServerAddress(idAndAddr[1]),
-			}
+			})
 		}
 	}
 	// bootstrap
@@ -82,30 +81,44 @@ func (rcs *RaftCmdServerImpl) AddVoter(_ context.Context, req *pb.AddVoterReq) (
 		resultFeatures = append(resultFeatures, res)
 	}
 	var msg strings.Builder
+	changed := false
 	for i, feature := range resultFeatures {
+		voter := req.GetVoters()[i]
 		if err := feature.Error(); err != nil {
-			voter := req.GetVoters()[i]
 			msg.WriteString(fmt.Sprintf("%s-%s add fail: %s;", voter.GetId(), voter.GetAddress(), err.Error()))
+			continue
+		}
+		// save to config
+		node := fmt.Sprint(voter.GetId(), ",", voter.GetAddress())
+		if idx := nodeIndex(voter.GetId()); idx < 0 {
+			pool.Config.Cluster.Nodes = append(pool.Config.Cluster.Nodes, node)
+		} else {
+			pool.Config.Cluster.Nodes[idx] = node
 		}
+		changed = true
+	}
+	if changed {
+		// persist config async
+		go func() {
+			defer graceful.Recover()
+			util.LogErrWithPre("persist config", pool.Config.Persist())
+		}()
 	}
 	if msg.Len() > 0 {
 		return &pb.Response{Success: false, Message: msg.String()}, nil
 	}
-	// save to config
-	nodes := set.OfString(pool.Config.Cluster.Nodes)
-	for _, item := range req.GetVoters() {
-		node := fmt.Sprint(item.Id, ",", item.Address)
-		if nodes.Contains(node) {
-			continue
+	return okResp, nil
+}
+
+// nodeIndex returns the index of the node in config, or -1
+func nodeIndex(serverId string) int {
+	// node is like id,host:port
+	for i, node := range pool.Config.Cluster.Nodes {
+		if strings.HasPrefix(node, serverId+",") {
+			return i
 		}
-		pool.Config.Cluster.Nodes = append(pool.Config.Cluster.Nodes)
 	}
-	// persist config async
-	go func() {
-		defer graceful.Recover()
-		util.LogErrWithPre("persist config", pool.Config.Persist())
-	}()
-	return okResp, nil
+	return -1
 }
 
 func (rcs *RaftCmdServerImpl) Config(context.Context, *pb.EmptyReq) (*pb.Response, error) {
@@ -141,16 +154,7 @@ func (rcs *RaftCmdServerImpl) RemoveFollower(_ context.Context, req *pb.RemoveFo
 	if err := feature.Error(); err != nil {
 		return nil, err
 	}
-	id := fmt.Sprint(req.FollowerId, ",")
-	idx := -1
-	// node is like id,host:port
-	for i, node := range pool.Config.Cluster.Nodes {
-		if strings.HasPrefix(node, id) {
-			idx = i
-			break
-		}
-	}
-	if idx > 0 {
+	if idx := nodeIndex(req.FollowerId); idx >= 0 {
 		pool.Config.Cluster.Nodes[0], pool.Config.Cluster.Nodes[idx] = pool.Config.Cluster.Nodes[idx], pool.Config.Cluster.Nodes[0]
 		slices.RemoveFirst(&pool.Config.Cluster.Nodes)
 		// persist config async
-- 
2.43.0


From 5ac182ddd8363a88ae4af70e7ee68e6cd300de1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:16 +0000
Subject: [PATCH 97/97] fix: system information saved without a lease outlived
 its server

---
 src/common/system/syncer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/common/system/syncer.go b/src/common/system/syncer.go
index 0679ec9..fc65826 100644
--- a/src/common/system/syncer.go
+++ b/src/common/system/syncer.go
@@ -56,6 +56,11 @@ func (d *StatSyncer) StartAutoSave() func() {
 }
 
 func (d *StatSyncer) Sync() error {
+	lease := clientv3.LeaseID(d.lease.Load())
+	// without a lease it would outlive the server
+	if lease == clientv3.NoLease {
+		return nil
+	}
 	info, err := NewInfo(disk.Root)
 	if err != nil {
 		return err
@@ -64,7 +69,7 @@ func (d *StatSyncer) Sync() error {
 	if err != nil {
 		return err
 	}
-	_, err = d.cli.Put(context.Background(), d.key, string(bt), clientv3.WithLease(clientv3.LeaseID(d.lease.Load())))
+	_, err = d.cli.Put(context.Background(), d.key, string(bt), clientv3.WithLease(lease))
 	return err
 }
 
-- 
2.43.0

