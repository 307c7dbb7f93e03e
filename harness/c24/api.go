//go:build !cliengine

package main

import (
	"fmt"

	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
)

type badFunc func(sig, f string, a ...any)

// list compares functionalities of one kind with the declared ones.
func list[F fn.Functionality](path, kind string, fs []F, base func(F) fn.Func, x *node, bad badFunc) []*node {
	want := []*node{}
	for _, s := range x.sub {
		if s.kind == kind {
			want = append(want, s)
		}
	}
	if len(fs) != len(want) {
		bad("missing", "%s has %d functionalities of type %s, expected %d", path, len(fs), kind, len(want))
		return nil
	}
	for i, w := range want {
		var f fn.Functionality = fs[i]
		b := base(fs[i])
		if f.GetName() != w.name || b.GetName() != w.name {
			bad("name", "%s: name of %s is %q, expected %q", path, kind, f.GetName(), w.name)
		}
		if f.Type() != kind {
			bad("type", "%s/%s: type is %q, expected %q", path, w.name, f.Type(), kind)
		}
		if b.IsArray != (w.count >= 0) || b.Count != max(w.count, 0) && w.count >= 0 || w.count < 0 && b.Count != 1 {
			bad("count", "%s/%s: array %v, count %d, expected %d", path, w.name, b.IsArray, b.Count, w.count)
		}
	}
	return want
}

func queries(obs any, main *node, bad badFunc) {
	b, ok := obs.(*fn.Block)
	if !ok || b == nil {
		bad("no-bus", "there is no bus")
		return
	}
	var f fn.Functionality = b
	if f.GetName() != main.name {
		bad("name", "name of the main bus is %q, expected %q", f.GetName(), main.name)
	}
	// Generated functionalities are the last ones.
	c := *b
	if l := len(c.Statics); l > 0 && c.Statics[l-1].GetName() == "ID" {
		c.Statics = c.Statics[:l-1]
	}
	block("main", &c, main, bad)
}

func block(path string, b *fn.Block, x *node, bad badFunc) {
	if b.Type() != "block" {
		bad("type", "%s: type is %q", path, b.Type())
	}
	if b.StartAddr() != b.AddrSpace.Start {
		bad("start", "%s: start address is %d, address space starts from %d", path, b.StartAddr(), b.AddrSpace.Start)
	}
	list(path, "blackbox", b.Blackboxes, func(f *fn.Blackbox) fn.Func { return f.Func }, x, bad)
	list(path, "config", b.Configs, func(f *fn.Config) fn.Func { return f.Func }, x, bad)
	list(path, "irq", b.Irqs, func(f *fn.Irq) fn.Func { return f.Func }, x, bad)
	list(path, "mask", b.Masks, func(f *fn.Mask) fn.Func { return f.Func }, x, bad)
	list(path, "static", b.Statics, func(f *fn.Static) fn.Func { return f.Func }, x, bad)
	list(path, "status", b.Statuses, func(f *fn.Status) fn.Func { return f.Func }, x, bad)
	for i, w := range list(path, "group", b.Groups, func(f *fn.Group) fn.Func { return f.Func }, x, bad) {
		group(path+"/"+w.name, b.Groups[i], w, bad)
	}
	for i, w := range list(path, "proc", b.Procs, func(f *fn.Proc) fn.Func { return f.Func }, x, bad) {
		p := b.Procs[i]
		list(path+"/"+w.name, "param", p.Params, func(f *fn.Param) fn.Func { return f.Func }, w, bad)
		list(path+"/"+w.name, "return", p.Returns, func(f *fn.Return) fn.Func { return f.Func }, w, bad)
		d := 0
		if p.Delay != nil {
			d = 2
			if p.Delay.IsZero() {
				d = 1
			}
		}
		delay(path+"/"+w.name, d, w, bad)
	}
	for i, w := range list(path, "stream", b.Streams, func(f *fn.Stream) fn.Func { return f.Func }, x, bad) {
		p := b.Streams[i]
		list(path+"/"+w.name, "param", p.Params, func(f *fn.Param) fn.Func { return f.Func }, w, bad)
		list(path+"/"+w.name, "return", p.Returns, func(f *fn.Return) fn.Func { return f.Func }, w, bad)
		d := 0
		if p.Delay != nil {
			d = 2
			if p.Delay.IsZero() {
				d = 1
			}
		}
		delay(path+"/"+w.name, d, w, bad)
	}
	// Order of subblocks is the order of their sizes.
	subs := []*node{}
	for _, s := range x.sub {
		if s.kind == "block" {
			subs = append(subs, s)
		}
	}
	if len(subs) != len(b.Subblocks) {
		bad("missing", "%s has %d subblocks, expected %d", path, len(b.Subblocks), len(subs))
		return
	}
	for _, w := range subs {
		found := false
		for _, s := range b.Subblocks {
			if s.GetName() != w.name {
				continue
			}
			found = true
			if s.IsArray != (w.count >= 0) || s.Count != max(w.count, 1) {
				bad("count", "%s/%s: array %v, count %d, expected %d", path, w.name, s.IsArray, s.Count, w.count)
			}
			block(path+"/"+w.name, s, w, bad)
		}
		if !found {
			bad("missing", "%s has no subblock %s", path, w.name)
		}
	}
}

func delay(path string, got int, w *node, bad badFunc) {
	if got != w.delay {
		s := [...]string{"no delay", "zero delay", "non zero delay"}
		bad("delay", "%s has %s, expected %s", path, s[got], s[w.delay])
	}
}

func group(path string, g *fn.Group, x *node, bad badFunc) {
	list(path, "config", g.Configs, func(f *fn.Config) fn.Func { return f.Func }, x, bad)
	list(path, "irq", g.Irqs, func(f *fn.Irq) fn.Func { return f.Func }, x, bad)
	list(path, "mask", g.Masks, func(f *fn.Mask) fn.Func { return f.Func }, x, bad)
	list(path, "param", g.Params, func(f *fn.Param) fn.Func { return f.Func }, x, bad)
	list(path, "return", g.Returns, func(f *fn.Return) fn.Func { return f.Func }, x, bad)
	list(path, "static", g.Statics, func(f *fn.Static) fn.Func { return f.Func }, x, bad)
	list(path, "status", g.Statuses, func(f *fn.Status) fn.Func { return f.Func }, x, bad)
	ro := true
	what := []string{}
	for _, s := range x.sub {
		ro = ro && s.readOnly
		what = append(what, fmt.Sprint(s.kind, s.props))
	}
	if g.IsReadOnly() != ro {
		bad("read-only", "%s: read only is %v, functionalities: %v", path, g.IsReadOnly(), what)
	}
}
