// Package vcha stands in for the class hierarchy analysis: the real one, with
// its graph put into an order that does not depend on map iteration.
package vcha

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/callgraph/cha"
	"golang.org/x/tools/go/ssa"

	"github.com/PatchLens/go-update-lens/zzverif/vpackages"
	"github.com/PatchLens/go-update-lens/zzverif/vsim"
)

func CallGraph(prog *ssa.Program) *callgraph.Graph {
	g := cha.CallGraph(prog)
	if vsim.W == nil {
		return g
	}
	key := map[*ssa.Function]string{}
	fns := make([]*ssa.Function, 0, len(g.Nodes))
	for fn := range g.Nodes {
		if fn == nil {
			continue
		}
		fns = append(fns, fn)
		key[fn] = fmt.Sprintf("%s %d %d %s %s", fn.String(), fn.Pos(), index(fn), fn.Synthetic, fn.Signature)
	}
	// wrappers are made for each use: tell them apart by it
	for fn, n := range g.Nodes {
		if fn == nil || fn.Synthetic == "" {
			continue
		}
		var by []string
		for _, e := range n.In {
			c := e.Caller.Func
			by = append(by, fmt.Sprintf("%s %d %d", c, e.Pos(), index(c)))
		}
		sort.Strings(by)
		key[fn] += fmt.Sprint(by)
	}
	sort.SliceStable(fns, func(i, j int) bool { return key[fns[i]] < key[fns[j]] })
	rank := map[*callgraph.Node]int{}
	for i, fn := range fns {
		vsim.Rank(fn, i)
		n := g.Nodes[fn]
		n.ID = i + 1
		vsim.Rank(n, i)
		rank[n] = i
	}
	for _, fn := range fns {
		n := g.Nodes[fn]
		for _, es := range [][]*callgraph.Edge{n.In, n.Out} {
			sort.SliceStable(es, func(i, j int) bool {
				a, b := es[i], es[j]
				if rank[a.Caller] != rank[b.Caller] {
					return rank[a.Caller] < rank[b.Caller]
				} else if rank[a.Callee] != rank[b.Callee] {
					return rank[a.Callee] < rank[b.Callee]
				}
				return a.Pos() < b.Pos()
			})
		}
	}
	return g
}

// index tells variants of one package apart.
func index(fn *ssa.Function) int {
	var p *types.Package
	switch {
	case fn.Pkg != nil:
		p = fn.Pkg.Pkg
	case fn.Object() != nil:
		p = fn.Object().Pkg()
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if q, ok := t.(*types.Pointer); ok {
			t = q.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			p = n.Obj().Pkg()
		}
	}
	return vpackages.SimIndex(p)
}
