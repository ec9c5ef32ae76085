package main

// Part of the harness only if programs are simulated.

import program "github.com/mariotoffia/goannoy/cmd/precision"

func init() { precisionTool = program.Main }
