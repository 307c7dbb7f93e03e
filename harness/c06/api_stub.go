//go:build cliengine

package main

func methods(obs any, bad func(sig, f string, a ...any)) {}
