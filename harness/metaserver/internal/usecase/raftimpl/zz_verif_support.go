package raftimpl

var verifLeader string

// VerifWrapper is a member of a raft cluster, or a server without raft.
func VerifWrapper(enabled, leader bool, leaderID string) *RaftWrapper {
	verifLeader = leaderID
	return &RaftWrapper{Enabled: enabled, isLeader: leader, ID: "self"}
}

// verifLeaderID stands for asking raft who leads.
//
//gosym:stub (*RaftWrapper).LeaderID
func verifLeaderID(rw *RaftWrapper) string {
	if !rw.Enabled {
		return ""
	}
	return verifLeader
}
