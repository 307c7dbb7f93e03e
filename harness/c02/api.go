//go:build !cliengine

package main

import (
	"encoding/json"
	"fmt"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/types"
)

// apiCases adds direct calls of the exported access constructors.
// One case stands for all calls of one constructor for one bus width and one item width.
func apiCases(g *lib.Gen) {
	for bw := int64(1); bw <= int64(g.Pick(16, 33)); bw++ {
		for w := int64(0); w <= 3*bw+1; w++ {
			for _, name := range ctorNames {
				f := ctors[name]
				if !g.Emit(func() *lib.Case {
					return &lib.Case{
						Meta: name,
						Run:  func() (o *lib.Outcome) { return call(name, f, bw, w) },
					}
				}) {
					return
				}
			}
		}
	}
}

func call(name string, f ctor, bw, w int64) (o *lib.Outcome) {
	o = &lib.Outcome{}
	cur := ""
	defer func() {
		if r := recover(); r != nil {
			o.Kind = lib.Crash
			o.Msg = fmt.Sprintf("%s: %v", cur, r)
		}
	}()
	types.Init(bw)
	res := ""
	f(bw, w, func(args string, arr bool, n, addr, startBit int64, mk func() types.Access) {
		if res != "" {
			return
		}
		cur = fmt.Sprintf("bus width %d: %s%s", bw, name, args)
		a := mk()
		b, err := json.Marshal(a)
		if err != nil {
			res = cur + ": " + err.Error()
			return
		}
		u := &lib.Use{Kind: "param", Width: w, IsArray: arr, Count: n}
		if err := json.Unmarshal(b, &u.Acs); err != nil {
			res = cur + ": " + err.Error()
			return
		}
		u.Bits, u.Err = lib.BitsOf(u.Acs, bw)
		if s := checkUse(u, bw); s != "" {
			res = fmt.Sprintf("%s: %+v: %s", cur, u.Acs, s)
			return
		}
		if u.Acs.StartAddr != addr || u.Acs.StartBit != startBit {
			res = fmt.Sprintf("%s: %+v: placed in different place than requested", cur, u.Acs)
			return
		}
		if r := a.AddrRange(); r.Start != u.Acs.StartAddr || r.End != u.Acs.EndAddr {
			res = fmt.Sprintf("%s: %+v: address range %v", cur, u.Acs, r)
		}
	})
	o.Obs = res
	return o
}

type emitCall func(args string, arr bool, n, addr, startBit int64, mk func() types.Access)
type ctor func(bw, w int64, emit emitCall)

var ctorNames = []string{"MakeSingleAccess", "MakeSingleOneRegAccess", "MakeSingleNRegsAccess", "MakeArrayOneRegAccess",
	"MakeArrayOneInRegAccess", "MakeArrayNRegsAccess", "MakeArrayNInRegAccess", "MakeArrayNInRegMInEndRegAccess", "MakeArrayOneInNRegsAccess"}

var addrs = []int64{0, 1, 7}

const maxItems = 20

var ctors = map[string]ctor{
	"MakeSingleAccess": func(bw, w int64, emit emitCall) {
		for _, ad := range addrs {
			for sb := int64(0); sb < bw; sb++ {
				emit(fmt.Sprint(ad, sb, w), false, 1, ad, sb, func() types.Access { return types.MakeSingleAccess(ad, sb, w) })
			}
		}
	},
	"MakeSingleOneRegAccess": func(bw, w int64, emit emitCall) {
		for _, ad := range addrs {
			for sb := int64(0); sb < bw && sb+w <= bw; sb++ {
				emit(fmt.Sprint(ad, sb, w), false, 1, ad, sb, func() types.Access { return types.MakeSingleOneRegAccess(ad, sb, w) })
			}
		}
	},
	"MakeSingleNRegsAccess": func(bw, w int64, emit emitCall) {
		for _, ad := range addrs {
			for sb := int64(0); sb < bw; sb++ {
				if sb+w > bw {
					emit(fmt.Sprint(ad, sb, w), false, 1, ad, sb, func() types.Access { return types.MakeSingleNRegsAccess(ad, sb, w) })
				}
			}
		}
	},
	"MakeArrayOneRegAccess": func(bw, w int64, emit emitCall) {
		for _, ad := range addrs {
			for sb := int64(0); sb < bw; sb++ {
				for n := int64(0); n <= maxItems && sb+n*w <= bw; n++ {
					emit(fmt.Sprint(n, ad, sb, w), true, n, ad, sb, func() types.Access { return types.MakeArrayOneRegAccess(n, ad, sb, w) })
				}
			}
		}
	},
	"MakeArrayOneInRegAccess": func(bw, w int64, emit emitCall) {
		if w == 0 {
			return
		}
		for _, ad := range addrs {
			for sb := int64(0); sb < bw && sb+w <= bw; sb++ {
				for n := int64(1); n <= maxItems; n++ {
					emit(fmt.Sprint(n, ad, sb, w), true, n, ad, sb, func() types.Access { return types.MakeArrayOneInRegAccess(n, ad, sb, w) })
				}
			}
		}
	},
	"MakeArrayNRegsAccess": func(bw, w int64, emit emitCall) {
		for _, ad := range addrs {
			for sb := int64(0); sb < bw; sb++ {
				for n := int64(0); n <= maxItems; n++ {
					emit(fmt.Sprint(n, ad, sb, w), true, n, ad, sb, func() types.Access { return types.MakeArrayNRegsAccess(n, ad, sb, w) })
				}
			}
		}
	},
	"MakeArrayNInRegAccess": func(bw, w int64, emit emitCall) {
		if w == 0 || w > bw {
			return
		}
		for _, ad := range addrs {
			for n := bw / w; n <= maxItems; n += bw / w {
				emit(fmt.Sprint(n, ad, w), true, n, ad, 0, func() types.Access { return types.MakeArrayNInRegAccess(n, ad, w) })
			}
		}
	},
	"MakeArrayNInRegMInEndRegAccess": func(bw, w int64, emit emitCall) {
		if w == 0 || w > bw {
			return
		}
		for _, ad := range addrs {
			for n := bw/w + 1; n <= maxItems; n++ {
				if n%(bw/w) != 0 {
					emit(fmt.Sprint(n, ad, w), true, n, ad, 0, func() types.Access { return types.MakeArrayNInRegMInEndRegAccess(n, ad, w) })
				}
			}
		}
	},
	"MakeArrayOneInNRegsAccess": func(bw, w int64, emit emitCall) {
		if w <= bw {
			return
		}
		for _, ad := range addrs {
			for n := int64(1); n <= maxItems; n++ {
				emit(fmt.Sprint(n, ad, w), true, n, ad, 0, func() types.Access { return types.MakeArrayOneInNRegsAccess(n, ad, w) })
			}
		}
	},
}
