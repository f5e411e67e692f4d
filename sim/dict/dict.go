// Package dict is the dictionary of the workloads: the literals of the code
// under test. The workloads use them as names, attributes, sizes and times now
// and then, because code tends to treat the values it mentions specially.
//
// This file stands in for the one cmd/instr writes.
package dict

var (
	// Strings are the texts, without those that look like messages to people.
	Strings = []string{}
	// Ints are integers of at least two.
	Ints = []int{}
	// Nanos are durations in nanoseconds.
	Nanos = []int64{}
	// Floats are floating-point numbers.
	Floats = []float64{}
)
