package grpc

import (
	"common/proto/pb"
	"common/verifrt"
	_ "common/verifrt/yamlm"
	"context"
	"strconv"
	"metaserver/config"
	"metaserver/internal/usecase/pool"
)

// The configuration that is told contains no credentials, and stays as it is.
//
//gosym:harness C12 quick=40s thorough=60s
func VerifC12Toldmetaserver() {
	c := &config.Config{Port: "80"}
	pool.Config = c
	secrets := []*string{&c.Etcd.Username, &c.Etcd.Password, &c.Log.Email.Password}
	show := func(set string) []byte {
		var vals []string
		for i, s := range secrets {
			*s = verifrt.AnyString(set+strconv.Itoa(i), 2)
			vals = append(vals, *s)
		}
		r, err := (&ConfigServiceServer{}).GetConfig(context.Background(), &pb.EmptyReq{})
		verifrt.Assert(err == nil && len(r.YamlEncode) > 0, "the configuration is told")
		for i, s := range secrets {
			verifrt.Assert(verifrt.EqString(*s, vals[i]), "telling the configuration does not change it")
		}
		return r.YamlEncode
	}
	verifrt.Assert(verifrt.EqBytes(show("a"), show("b")), "what is told does not depend on credentials")
	verifrt.Reach("told")
}
