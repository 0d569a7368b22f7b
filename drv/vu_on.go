//go:build !nocrisp
// +build !nocrisp

package main

import (
	"io"

	"github.com/go-air/gini/crisp"
)

func hookVu(rw io.ReadWriter) vuIO { return crisp.NewVerifIO(rw) }
