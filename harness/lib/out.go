// Package lib is the exploration engine shared by all checks.
package lib

import "encoding/json"

// The types below mirror the documented JSON output of the compiler. The checks
// look only at this output, no matter whether it comes from the command line
// program or from the public Compile function.

type Access struct {
	Type                       string
	RegCount, RegWidth         int64
	ItemCount, ItemWidth       int64
	StartAddr, EndAddr         int64
	StartBit, EndBit           int64
	StartRegWidth, EndRegWidth int64
}

type Func struct {
	Name    string
	Doc     string
	IsArray bool
	Count   int64
}

type Sizes struct{ Own, Cumulated, Aligned int64 }
type AddrSpace struct{ Start, End int64 }
type Time struct{ S, Ns int64 }

type Consts struct {
	Bools     map[string]bool
	BoolLists map[string][]bool
	Floats    map[string]float64
	Ints      map[string]int64
	IntLists  map[string][]int64
	Strings   map[string]string
}

type Config struct {
	Func
	Atomic     bool
	InitValue  string
	Range      json.RawMessage
	ReadValue  string
	ResetValue string
	Width      int64
	Access     Access
}
type Mask struct {
	Func
	Atomic     bool
	InitValue  string
	ReadValue  string
	ResetValue string
	Width      int64
	Access     Access
}
type Static struct {
	Func
	InitValue  string
	ReadValue  string
	ResetValue string
	Width      int64
	Access     Access
}
type Status struct {
	Func
	Atomic    bool
	ReadValue string
	Width     int64
	Access    Access
}
type Irq struct {
	Func
	AddEnable        bool
	Clear            string
	EnableInitValue  string
	EnableResetValue string
	InTrigger        string
	OutTrigger       string
	Access           Access
	EnableAccess     Access
	ClearAddr        *int64
}
type Param struct {
	Func
	Range  json.RawMessage
	Width  int64
	Access Access
}
type Return struct {
	Func
	Width  int64
	Access Access
}
type Proc struct {
	Func
	Delay              *Time
	Params             []*Param
	Returns            []*Return
	CallAddr, ExitAddr *int64
}
type Stream struct {
	Func
	Delay   *Time
	Params  []*Param
	Returns []*Return
	StbAddr int64
}
type Blackbox struct {
	Func
	Size      int64
	Sizes     Sizes
	AddrSpace AddrSpace
}
type Group struct {
	Func
	Virtual  bool
	Consts   Consts
	Configs  []*Config
	Irqs     []*Irq
	Masks    []*Mask
	Params   []*Param
	Returns  []*Return
	Statics  []*Static
	Statuses []*Status
}
type Block struct {
	Func
	Align, Masters int64
	Reset          string
	Width          int64
	Sizes          Sizes
	AddrSpace      AddrSpace
	Consts         Consts
	Blackboxes     []*Blackbox
	Configs        []*Config
	Groups         []*Group
	Irqs           []*Irq
	Masks          []*Mask
	Procs          []*Proc
	Statics        []*Static
	Statuses       []*Status
	Streams        []*Stream
	Subblocks      []*Block
}

// Pkg holds dumped constants of a package.
type Pkg struct{ Consts Consts }
