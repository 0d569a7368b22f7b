//go:build nohooks
// +build nohooks

package main

import (
	"github.com/go-air/gini"
	"github.com/go-air/gini/inter"
	"github.com/go-air/gini/z"
)

type verifState struct {
	Added, Learnt, Reasons [][]z.Lit
	Trail                  []z.Lit
	Levels                 []int
	Bot                    bool
}

func hookState(g *gini.Gini) *verifState { return nil }

func hookTune(g *gini.Gini, gcFactor int) {}
func hookGc(g *gini.Gini)                 {}
func hookConflicts(g *gini.Gini) int64    { return 0 }

func hookLimits(tick, restart int) {}

const hooksOn = false

func hookInner(sv inter.Sv, y z.Lit, ms []z.Lit) {}
