package proto

import (
	"common/response"
	"common/verifrt"
	"common/verifrt/ginm"
	"common/verifrt/httpm"
	_ "common/verifrt/jsonm"
	"encoding/json"
	"errors"
	"fmt"

	"github.com/gin-gonic/gin"
)

// zzFail makes a failure, wrapped or not.
func zzFail(n int) error {
	err := error(response.NewError(n, "why"))
	switch verifrt.Choice("wrapped", 4) {
	case 1:
		return fmt.Errorf("doing it: %w", err)
	case 2:
		return errors.Join(errors.New("other"), err)
	case 3:
		return response.Err{Status: n, Message: "why"}
	}
	return err
}

// Failures are told to clients over HTTP by their status, internal ones without their reasons.
//
//gosym:harness C22 quick=30s thorough=60s
func VerifC22HTTP() {
	gin.SetMode(gin.ReleaseMode)
	ginm.Marshal = json.Marshal
	kind := verifrt.Choice("kind", 3)
	n := verifrt.AnyInt("status")
	verifrt.Assume(n >= 400)
	verifrt.Assume(n < 600)
	var err error
	want := n
	switch kind {
	case 0:
		err = zzFail(n)
	case 1:
		err, want = errors.New("why"), 500
	case 2:
		err, want = ginm.Invalid, 400
		if verifrt.Choice("wrapped", 2) == 1 {
			err = fmt.Errorf("doing it: %w", err)
		}
	}
	h := gin.New()
	h.GET("/x", func(c *gin.Context) { response.FailErr(err, c) })
	w := ginm.Do(h, "GET", "/x", "", nil, nil, 0)
	verifrt.Assert(w.Code == want, "a failure is told by its status")
	// as servers read each other's answers
	msg := response.MessageFromJSONBody(httpm.Response(w.Code, nil, w.Body).Body)
	if want >= 500 {
		verifrt.Assert(msg == "system error", "reasons of internal failures are not told")
	} else {
		verifrt.Assert(msg == err.Error(), "reasons of failures are told")
	}
	verifrt.Reach("told")
}

// Failures are told between servers over gRPC by their status.
//
//gosym:harness C22 quick=30s thorough=60s
func VerifC22GRPC() {
	n := verifrt.AnyInt("status")
	verifrt.Assume(n >= 200)
	verifrt.Assume(n < 600)
	verifrt.Assume(verifrt.Or(n < 300, n >= 400))
	err := ResolveErr(response.GRPCError(zzFail(n)))
	if n < 300 {
		verifrt.Assert(err == nil, "success is told")
		return
	}
	verifrt.Assert(err != nil, "a failure is told")
	known := verifrt.Or(verifrt.Or(n == 400, n == 401), verifrt.Or(n == 403, n == 404))
	verifrt.Assert(verifrt.Or(verifrt.Not(known), response.CheckErrStatus(n, err)), "a failure is told by its status")
	verifrt.Assert(verifrt.Or(known, response.CheckErrStatus(500, err)), "other failures are internal")
	verifrt.Reach("told")
}

// Other errors are internal failures, and answers without a message have none.
//
//gosym:harness C22 quick=20s thorough=30s
func VerifC22Other() {
	verifrt.Assert(response.CheckErrStatus(500, ResolveErr(response.GRPCError(errors.New("why")))), "other errors are internal failures")
	verifrt.Assert(response.CheckErrStatus(400, ResolveErr(response.GRPCError(ginm.Invalid))), "invalid values are bad requests")
	verifrt.Assert(ResolveErr(nil) == nil, "success is told")
	verifrt.Assert(!response.CheckErrStatus(404, nil) && !response.CheckErrStatus(404, errors.New("not found")), "only failures with a status have it")
	body := []string{"", "{", "{}", "x"}[verifrt.Choice("body", 4)]
	if body == "{}" {
		b, _ := json.Marshal(map[string]any{"other": "x"})
		body = string(b)
	}
	verifrt.Assert(response.MessageFromJSONBody(httpm.Response(500, nil, []byte(body)).Body) == "unknown", "an answer without a message has none")
}
