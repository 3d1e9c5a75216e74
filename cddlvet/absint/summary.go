package absint

import (
	"golang.org/x/tools/go/ssa"
)

type summary struct{}

func (a *Analyzer) callSummary(st *State, fn *ssa.Function, args, binds []V, in ssa.CallInstruction) []Outcome {
	a.fail("summaries not implemented")
	return nil
}
