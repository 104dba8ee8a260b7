package props

import (
	"unicode/utf8"

	"github.com/apparentlymart/go-textseg/textseg"
	"github.com/hashicorp/hcl2/hcl"
)

// posMap gives the position of each offset of a source by counting newlines
// and grapheme clusters from the start. Offsets inside of a cluster have no
// position of their own.
type posMap struct {
	src   []byte
	start hcl.Pos
	line  []int
	col   []int // 0: inside of a cluster
}

func newPosMap(src []byte, start hcl.Pos) *posMap {
	m := &posMap{src: src, start: start, line: make([]int, len(src)+1), col: make([]int, len(src)+1)}
	line, col := start.Line, start.Column
	for i := 0; i < len(src); {
		n := clusterLen(src[i:])
		m.line[i], m.col[i] = line, col
		for j := i + 1; j < i+n; j++ {
			m.line[j] = line
		}
		if src[i] == '\n' || n == 2 && src[i] == '\r' {
			line++
			col = 1
		} else {
			col++
		}
		i += n
	}
	m.line[len(src)], m.col[len(src)] = line, col
	return m
}

func clusterLen(b []byte) int {
	if b[0] < utf8.RuneSelf && (len(b) == 1 || b[1] < utf8.RuneSelf && b[0] != '\r') {
		return 1
	}
	n, _, err := textseg.ScanGraphemeClusters(b, true)
	if err != nil || n <= 0 {
		return 1
	}
	return n
}

// at returns the position of an offset relative to the source.
func (m *posMap) at(ofs int) hcl.Pos {
	return hcl.Pos{Byte: ofs + m.start.Byte, Line: m.line[ofs], Column: m.col[ofs]}
}

// whole is whether no cluster of the source continues across the offset.
func (m *posMap) whole(ofs int) bool { return m.col[ofs] != 0 }
