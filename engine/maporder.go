package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// orderFree reports whether the outcome of a loop over a map cannot depend on
// the order of iteration, so that one order stands for all: its body has no
// effects but changes of map entries under the current key and sums of integers.
func orderFree(r *ssa.Range) bool {
	refs := *r.Referrers()
	if len(refs) != 1 {
		return false
	}
	next, ok := refs[0].(*ssa.Next)
	if !ok || next.IsString {
		return false
	}
	head := next.Block()
	var okv, key ssa.Value
	for _, u := range *next.Referrers() {
		e, is := u.(*ssa.Extract)
		if !is {
			return false
		}
		switch e.Index {
		case 0:
			okv = e
		case 1:
			key = e
		}
	}
	ifi, ok := head.Instrs[len(head.Instrs)-1].(*ssa.If)
	if !ok || okv == nil || ifi.Cond != okv {
		return false
	}
	body := head.Succs[0]
	in := map[*ssa.BasicBlock]bool{}
	var blocks []*ssa.BasicBlock
	todo := []*ssa.BasicBlock{body}
	for len(todo) > 0 {
		b := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if b == head || in[b] {
			continue
		}
		if !body.Dominates(b) {
			return false // leaves the loop early
		}
		in[b] = true
		blocks = append(blocks, b)
		todo = append(todo, b.Succs...)
	}
	all := append([]*ssa.BasicBlock{head}, blocks...)
	changes, otherKeys := false, false
	for _, b := range all {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Phi, *ssa.BinOp, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index, *ssa.Extract,
				*ssa.Convert, *ssa.ChangeType, *ssa.Jump, *ssa.If, *ssa.DebugRef:
			case *ssa.UnOp:
				if i.Op == token.ARROW {
					return false
				}
			case *ssa.Next:
				if i != next {
					return false
				}
			case *ssa.Lookup:
				if i.Index != key {
					otherKeys = true
				}
			case *ssa.MapUpdate:
				if i.Key != key || i.Key == nil {
					return false
				}
				changes = true
			case *ssa.Call:
				bi, is := i.Call.Value.(*ssa.Builtin)
				if !is {
					return false
				}
				switch bi.Name() {
				case "delete":
					if key == nil || i.Call.Args[1] != key {
						return false
					}
					changes = true
				case "len", "cap":
					if _, m := i.Call.Args[0].Type().Underlying().(*types.Map); m {
						otherKeys = true
					}
				default:
					return false
				}
			default:
				return false
			}
		}
	}
	if changes && otherKeys {
		return false
	}
	inLoop := func(b *ssa.BasicBlock) bool { return b == head || in[b] }
	for _, i := range head.Instrs {
		phi, is := i.(*ssa.Phi)
		if !is {
			break
		}
		if !onlySummed(phi, head, inLoop) {
			return false
		}
	}
	return true
}

// onlySummed: within the loop the variable is only ever added to or subtracted from.
func onlySummed(phi *ssa.Phi, head *ssa.BasicBlock, inLoop func(*ssa.BasicBlock) bool) bool {
	bt, ok := phi.Type().Underlying().(*types.Basic)
	if !ok || bt.Info()&types.IsInteger == 0 {
		return false
	}
	sum := map[ssa.Value]bool{phi: true}
	todo := []ssa.Value{phi}
	for len(todo) > 0 {
		x := todo[0]
		todo = todo[1:]
		for _, u := range *x.Referrers() {
			if !inLoop(u.Block()) || u == ssa.Instruction(phi) {
				continue
			}
			var y ssa.Value
			switch u := u.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi:
				if u.Block() == head {
					return false
				}
				y = u
			case *ssa.BinOp:
				if u.X == u.Y || (u.Op != token.ADD && !(u.Op == token.SUB && u.X == x)) {
					return false
				}
				y = u
			default:
				return false
			}
			if !sum[y] {
				sum[y] = true
				todo = append(todo, y)
			}
		}
	}
	for y := range sum {
		switch y := y.(type) {
		case *ssa.BinOp:
			if sum[y.X] && sum[y.Y] {
				return false
			}
		case *ssa.Phi:
			for k, e := range y.Edges {
				if y == phi && !inLoop(head.Preds[k]) {
					continue
				}
				if !sum[e] {
					return false
				}
			}
		}
	}
	return true
}

func (mp *smap) list() []*mapEntry {
	if mp == nil {
		return nil
	}
	return append([]*mapEntry{}, mp.entries...)
}
