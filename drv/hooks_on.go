//go:build !nohooks
// +build !nohooks

package main

import (
	"github.com/go-air/gini"
	"github.com/go-air/gini/inter"
	"github.com/go-air/gini/z"
)

// white-box stress and projection, through overlay files placed in the
// packages under test; compiled out (-tags nohooks) if they do not build.

func hookTune(g *gini.Gini, gcFactor int)     { gini.VerifTune(g, gcFactor) }
func hookGc(g *gini.Gini)                     { gini.VerifGc(g) }
func hookState(g *gini.Gini) *gini.VerifState { return gini.VerifProject(g) }
func hookConflicts(g *gini.Gini) int64        { return gini.VerifConflicts(g) }

func hookLimits(tick, restart int) {
	if tick == 0 {
		tick = 20000
	}
	if restart == 0 {
		restart = 768
	}
	gini.VerifLimits(tick, restart)
}

const hooksOn = true

func hookInner(sv inter.Sv, y z.Lit, ms []z.Lit) { gini.VerifInner(sv, y, ms) }
