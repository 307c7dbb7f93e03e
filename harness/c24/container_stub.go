//go:build cliengine

package main

import "github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"

func apiCases(g *lib.Gen) {}
