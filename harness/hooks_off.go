//go:build !verif

package main

import (
	"github.com/hashicorp/raft"
	"github.com/strangelove-ventures/horcrux/signer"
)

// The hooks are not there (or do not build with the current tree): what needs them is left out.
const hooked = false

func raftOf(st *signer.RaftStore) *raft.Raft { return nil }
func fsmOf(st *signer.RaftStore) raft.FSM    { return nil }
