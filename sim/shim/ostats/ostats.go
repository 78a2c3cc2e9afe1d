package stats

import (
	"context"

	real "go.opencensus.io/stats"
	"go.opencensus.io/tag"
)

type (
	Measurement    = real.Measurement
	Measure        = real.Measure
	Int64Measure   = real.Int64Measure
	Float64Measure = real.Float64Measure
	Options        = real.Options
)

var (
	Int64   = real.Int64
	Float64 = real.Float64
)

const (
	UnitNone          = real.UnitNone
	UnitDimensionless = real.UnitDimensionless
	UnitBytes         = real.UnitBytes
	UnitMilliseconds  = real.UnitMilliseconds
)

// Record drops the measurement: metrics are a stub in the simulation.
func Record(ctx context.Context, ms ...Measurement) {}

func RecordWithTags(ctx context.Context, mutators []tag.Mutator, ms ...Measurement) error { return nil }
