//go:build nocrisp
// +build nocrisp

package main

import "io"

func hookVu(rw io.ReadWriter) vuIO { return nil }
