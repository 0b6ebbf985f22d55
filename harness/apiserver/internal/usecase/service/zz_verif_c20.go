package service

import (
	"common/util"
	_ "common/verifrt/gobm"
	"encoding/base64"
)

// VerifToken changes a token of an upload as somebody could who makes tokens up.
func VerifToken(token string, kind int) string {
	switch kind {
	case 0:
		return "%"
	case 1:
		return base64.StdEncoding.EncodeToString([]byte("abcdef"))
	case 2: // cut off
		bt, _ := base64.StdEncoding.DecodeString(token)
		return base64.StdEncoding.EncodeToString(bt[:len(bt)-1])
	}
	bt, _ := base64.StdEncoding.DecodeString(token)
	var tk resumeToken
	util.GobDecode(bt, &tk)
	switch kind {
	case 3:
		tk.Config = nil
	case 4:
		tk.Ids = nil
	case 5:
		tk.Servers = tk.Servers[:1]
	case 6:
		tk.Ids = append(tk.Ids, tk.Ids...)
	case 7:
		tk.Config.DataShards = 0
	}
	return base64.StdEncoding.EncodeToString(util.GobEncode(&tk))
}
