//go:build verif

package main

import (
	"github.com/hashicorp/raft"
	"github.com/strangelove-ventures/horcrux/signer"
)

const hooked = true

func raftOf(st *signer.RaftStore) *raft.Raft { return st.VerifRaft() }
func fsmOf(st *signer.RaftStore) raft.FSM    { return st.VerifFSM() }
