package msg

import (
	"common/util"
	"common/verifrt"
)

func zzStr(name string) string {
	return verifrt.AnyString(name, verifrt.Choice(name+" length", 3))
}

// A version survives its wire and storage encoding unchanged.
//
//gosym:harness C14 quick=60s thorough=600s
func VerifC14Version() {
	v := &Version{
		Compress:      verifrt.AnyBool("compress"),
		StoreStrategy: int8(verifrt.AnyByte("strategy")),
		DataShards:    3,
		ParityShards:  2,
		ShardSize:     4096,
		Hash:          "h",
	}
	// one group of fields ranges over every value at a time: the encoded width of each is independent
	switch verifrt.Choice("fields", 4) {
	case 0:
		v.DataShards, v.ParityShards = verifrt.AnyInt32("data"), verifrt.AnyInt32("parity")
	case 1:
		v.ShardSize, v.Size = verifrt.AnyInt64("shard"), verifrt.AnyInt64("size")
	case 2:
		v.Ts, v.Sequence = verifrt.AnyInt64("ts"), verifrt.AnyUint64("seq")
	case 3:
		v.Hash, v.UniqueId = zzStr("hash"), zzStr("uid")
		n := verifrt.Choice("locates", 3)
		for i := 0; i < n; i++ {
			v.Locate = append(v.Locate, zzStr("loc"))
		}
	}
	bt, err := util.EncodeMsgp(v)
	verifrt.Assert(err == nil, "encoding a version succeeds")
	var d Version
	verifrt.Assert(util.DecodeMsgp(&d, bt) == nil, "decoding an encoded version succeeds")
	verifrt.Assert(d.Compress == v.Compress && d.StoreStrategy == v.StoreStrategy, "flags survive")
	verifrt.Assert(d.DataShards == v.DataShards && d.ParityShards == v.ParityShards, "shard counts survive")
	verifrt.Assert(d.ShardSize == v.ShardSize && d.Size == v.Size, "sizes survive")
	verifrt.Assert(d.Ts == v.Ts && d.Sequence == v.Sequence, "timestamp and version number survive")
	verifrt.Assert(d.Hash == v.Hash && d.UniqueId == v.UniqueId, "hashes survive")
	verifrt.Assert(len(d.Locate) == len(v.Locate), "every location survives")
	for i := range v.Locate {
		verifrt.Assert(d.Locate[i] == v.Locate[i], "every location survives")
	}
	verifrt.Reach("end")
}

// Metadata, with or without the version summary, survives its encoding unchanged.
//
//gosym:harness C14 quick=60s thorough=600s
func VerifC14Metadata() {
	m := &Metadata{Name: zzStr("name"), Bucket: zzStr("bucket")}
	switch verifrt.Choice("fields", 3) {
	case 0:
		m.CreateTime, m.UpdateTime = verifrt.AnyInt64("create"), verifrt.AnyInt64("update")
	case 1:
		m.Extra = &Extra{Total: verifrt.AnyInt("total"), FirstVersion: 1, LastVersion: verifrt.AnyInt("last")}
	case 2:
		m.Extra = &Extra{FirstVersion: verifrt.AnyInt("first")}
	}
	bt, err := util.EncodeMsgp(m)
	verifrt.Assert(err == nil, "encoding metadata succeeds")
	var d Metadata
	verifrt.Assert(util.DecodeMsgp(&d, bt) == nil, "decoding encoded metadata succeeds")
	verifrt.Assert(d.Name == m.Name && d.Bucket == m.Bucket, "name and bucket survive")
	verifrt.Assert(d.CreateTime == m.CreateTime && d.UpdateTime == m.UpdateTime, "timestamps survive")
	verifrt.Assert((d.Extra == nil) == (m.Extra == nil), "the version summary is there exactly when it was")
	if m.Extra != nil {
		verifrt.Assert(*d.Extra == *m.Extra, "the version summary survives")
		verifrt.Reach("extra")
	}
	verifrt.Reach("end")
}

// A bucket's settings survive their encoding unchanged.
//
//gosym:harness C14 quick=60s thorough=600s
func VerifC14Bucket() {
	b := &Bucket{
		Versioning: verifrt.AnyBool("versioning"), Readonly: verifrt.AnyBool("readonly"), Compress: verifrt.AnyBool("compress"),
		StoreStrategy: int8(verifrt.AnyByte("strategy")),
	}
	switch verifrt.Choice("fields", 3) {
	case 0:
		b.DataShards, b.VersionRemains = verifrt.AnyInt32("data"), verifrt.AnyInt32("remains")
		b.ParityShards = 1
	case 1:
		b.CreateTime, b.UpdateTime = verifrt.AnyInt64("create"), verifrt.AnyInt64("update")
		b.ParityShards = verifrt.AnyInt32("parity")
	case 2:
		b.Name = zzStr("name")
		n := verifrt.Choice("policies", 3)
		for i := 0; i < n; i++ {
			b.Policies = append(b.Policies, zzStr("policy"))
		}
	}
	bt, err := util.EncodeMsgp(b)
	verifrt.Assert(err == nil, "encoding a bucket succeeds")
	var d Bucket
	verifrt.Assert(util.DecodeMsgp(&d, bt) == nil, "decoding an encoded bucket succeeds")
	verifrt.Assert(d.Versioning == b.Versioning && d.Readonly == b.Readonly && d.Compress == b.Compress, "flags survive")
	verifrt.Assert(d.StoreStrategy == b.StoreStrategy && d.DataShards == b.DataShards && d.ParityShards == b.ParityShards && d.VersionRemains == b.VersionRemains, "policy numbers survive")
	verifrt.Assert(d.CreateTime == b.CreateTime && d.UpdateTime == b.UpdateTime && d.Name == b.Name, "name and timestamps survive")
	verifrt.Assert(len(d.Policies) == len(b.Policies), "every policy survives")
	for i := range b.Policies {
		verifrt.Assert(d.Policies[i] == b.Policies[i], "every policy survives")
	}
	verifrt.Reach("end")
}

// A list survives the array encoding in order and number.
//
//gosym:harness C14 quick=60s thorough=600s
func VerifC14Array() {
	n := verifrt.Choice("items", verifrt.Bound("items", 2, 3)+1)
	arr := make([]*Version, n)
	for i := range arr {
		arr[i] = &Version{Sequence: uint64(i), Size: verifrt.AnyInt64("size"), Hash: verifrt.AnyString("hash", verifrt.Choice("hash length", 2)*4)}
	}
	bt, err := util.EncodeArrayMsgp(arr)
	verifrt.Assert(err == nil, "encoding a list succeeds")
	res, err := util.DecodeArrayMsgp(bt, func() *Version { return new(Version) })
	verifrt.Assert(err == nil, "decoding an encoded list succeeds")
	verifrt.Assert(len(res) == n, "the list keeps its length")
	for i := range arr {
		verifrt.Assert(res[i].Sequence == arr[i].Sequence && res[i].Size == arr[i].Size && res[i].Hash == arr[i].Hash, "every item keeps its place and content")
	}
	verifrt.Reach("end")
}

// Cutting an encoded list short loses whole items or is an error, never a panic or a changed item.
//
//gosym:harness C14 quick=60s thorough=600s
func VerifC14Truncated() {
	n := 1 + verifrt.Choice("items", verifrt.Bound("items", 2, 3))
	arr := make([]*Extra, n)
	ends := make([]int, 0, n)
	for i := range arr {
		arr[i] = &Extra{Total: i, LastVersion: verifrt.Int("last", 0, 127)}
		p, err := util.EncodeArrayMsgp(arr[:i+1])
		verifrt.Assert(err == nil, "encoding a list succeeds")
		ends = append(ends, len(p))
	}
	bt, _ := util.EncodeArrayMsgp(arr)
	cut := verifrt.Choice("kept bytes", len(bt))
	part, err := util.DecodeArrayMsgp(bt[:cut], func() *Extra { return new(Extra) })
	whole := 0
	at := cut == 0
	for _, e := range ends {
		if e <= cut {
			whole++
		}
		at = at || e == cut
	}
	verifrt.Assert((err == nil) == at, "a list cut inside an item is an error")
	verifrt.Assert(len(part) == whole, "a truncated list yields exactly its whole items")
	for i := range part {
		verifrt.Assert(*part[i] == *arr[i], "the whole items of a truncated list keep their content")
	}
	verifrt.Reach("cut")
}

// Decoding arbitrary bytes as a list ends with items or an error.
//
//gosym:harness C14 quick=60s thorough=600s
func VerifC14Garbage() {
	n := verifrt.Choice("length", verifrt.Bound("bytes", 6, 8)+1)
	bt := verifrt.AnyBytes("b", n)
	verifrt.Terminates(2000000)
	res, err := util.DecodeArrayMsgp(bt, func() *Bucket { return new(Bucket) })
	verifrt.Assert(err != nil || len(res)*5 <= n, "a decoded list has no more items than its encoding has headers")
	if err == nil && n > 0 {
		verifrt.Reach("decoded")
	} else {
		verifrt.Reach("refused")
	}
}
