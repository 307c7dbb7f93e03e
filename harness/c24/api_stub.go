//go:build cliengine

package main

func queries(obs any, main *node, bad func(sig, f string, a ...any)) {}
