package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type chanCtx struct{}
type Chan struct{ id int }

func (x *Exec) makeChan(fr *frame, t *ssa.MakeChan, st *State) Val {
	unsup("channels")
	return nil
}
func (x *Exec) send(fr *frame, t *ssa.Send, st *State)                { unsup("channels") }
func (x *Exec) recv(fr *frame, t *ssa.UnOp, st *State) Val            { unsup("channels"); return nil }
func (x *Exec) closeChan(v VChan, st *State)                          { unsup("channels") }
func (x *Exec) chanCap(v VChan) *Term                                 { unsup("channels"); return nil }
func (x *Exec) goStmt(fr *frame, cc *ssa.CallCommon, st *State)       { unsup("goroutines") }
func (x *Exec) freshChan(name string, u *types.Chan, st *State) Val   { unsup("channels"); return nil }
