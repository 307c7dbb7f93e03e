//go:build !cliengine

package main

import "github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"

// methods checks the queries provided for code generators.
func methods(obs any, bad func(sig, f string, a ...any)) {
	b, ok := obs.(*fn.Block)
	if !ok {
		return
	}
	for _, p := range b.Procs {
		np, nr := len(p.Params), len(p.Returns)
		if p.IsEmpty() != (np == 0 && nr == 0) || p.IsParam() != (np > 0 && nr == 0) || p.IsReturn() != (np == 0 && nr > 0) {
			bad("methods", "proc %s: wrong classification", p.Name)
		}
		pb, rb := int64(0), int64(0)
		if np > 0 {
			pb = p.Params[np-1].Access.EndAddr - p.Params[0].Access.StartAddr + 1
			if p.ParamsStartAddr() != p.Params[0].Access.StartAddr {
				bad("methods", "proc %s: params start address %d", p.Name, p.ParamsStartAddr())
			}
		}
		if nr > 0 {
			rb = p.Returns[nr-1].Access.EndAddr - p.Returns[0].Access.StartAddr + 1
			if p.ReturnsStartAddr() != p.Returns[0].Access.StartAddr {
				bad("methods", "proc %s: returns start address %d", p.Name, p.ReturnsStartAddr())
			}
		}
		if p.ParamsBufSize() != pb || p.ReturnsBufSize() != rb {
			bad("methods", "proc %s: buffer sizes %d and %d, expected %d and %d", p.Name, p.ParamsBufSize(), p.ReturnsBufSize(), pb, rb)
		}
	}
	for _, s := range b.Streams {
		up := len(s.Returns) > 0
		if s.IsUpstream() != up || s.IsDownstream() == up {
			bad("methods", "stream %s: wrong direction", s.Name)
		}
		st := s.StbAddr
		if len(s.Params) > 0 {
			st = s.Params[0].Access.StartAddr
		} else if up {
			st = s.Returns[0].Access.StartAddr
		}
		if s.StartAddr() != st {
			bad("methods", "stream %s: start address %d, expected %d", s.Name, s.StartAddr(), st)
		}
	}
}
