package crisp

import (
	"io"

	"github.com/go-air/gini/z"
)

// VerifIO gives access to the encoding of the protocol.
type VerifIO struct{ io *vu32io }

func NewVerifIO(rw io.ReadWriter) *VerifIO           { return &VerifIO{io: newVu32Io(rw)} }
func (v *VerifIO) Read() (uint32, error)             { return v.io.readu32() }
func (v *VerifIO) Data() (uint32, error)             { return v.io.readu32Data() }
func (v *VerifIO) Write(u uint32) error              { return v.io.writeu32(u) }
func (v *VerifIO) Send(ms []z.Lit) error             { return v.io.send(ms) }
func (v *VerifIO) Recv(dst []z.Lit) ([]z.Lit, error) { return v.io.recv(dst) }
func (v *VerifIO) Flush() error                      { return v.io.flush() }
