// Package covreg collects the block counters of an instrumented build (see covprep).
package covreg

type File struct {
	Name  string
	Count []uint32
	Pos   []uint32 // line, line, column | column<<16 for each block
}

var Files []File

func Register(name string, count, pos []uint32) { Files = append(Files, File{name, count, pos}) }
