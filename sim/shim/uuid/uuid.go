package uuid

import (
	real "github.com/satori/go.uuid"
	"verif.local/sim/rt"
)

type UUID = real.UUID
type NullUUID = real.NullUUID

const Size = real.Size

var (
	Nil             = real.Nil
	FromBytes       = real.FromBytes
	FromBytesOrNil  = real.FromBytesOrNil
	FromString      = real.FromString
	FromStringOrNil = real.FromStringOrNil
	Equal           = real.Equal
	Must            = real.Must
)

func NewV4() UUID {
	var u UUID = rt.UUIDBytes()
	u.SetVersion(real.V4)
	u.SetVariant(real.VariantRFC4122)
	return u
}
func NewV1() UUID { return NewV4() }
