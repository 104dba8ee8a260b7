package props

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"unicode/utf8"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/hashicorp/hcl2/hcl"
)

func init() {
	register(&mon.Prop{
		ID: "P27",
		Rule: "pairs of ranges over random source text (also in different files, empty, nested, touching, outside of the text), with every operation on them compared with the same operation on sets of byte offsets; " +
			"random buffers scanned from random starting positions by eight splitting rules, with positions compared with counting from the start; distinct = (relative placement; rule, length)",
		Assumptions: []string{
			"the union is of ranges in one file; ranges do not end before they start, except for slicing",
			"splitting rules do not split user-perceived characters; where they do, and in text that is not valid UTF-8, only bytes are judged",
		},
		Quick:    1000000,
		Thorough: 4000000,
		Require:  []string{"overlap", "no overlap", "touching", "union", "slice", "partition", "scanned", "token and skipped", "scan error", "different files", "offsets only"},
		Run:      runP27,
	})
}

func runP27(c *mon.Case) {
	if c.Bool() {
		rangeOps(c)
	} else {
		scanRanges(c)
	}
}

func anyText(c *mon.Case) string {
	env := gen.NewEnv(c.Rand)
	switch c.Intn(5) {
	case 0:
		return gen.Str(c.Rand)
	case 1:
		s, _ := gen.Native(&gen.G{R: c.Rand, Env: env})
		return s
	case 2:
		return gen.Bytes(c.Rand)
	case 3:
		return gen.Soup(c.Rand)
	}
	s := ""
	for n := c.Size(6, 60); n > 0; n-- {
		s += c.Pick("a", "b", " ", "\n", "\r\n", "\t", "é", "é", "日", "👨‍👩‍👧", "\r", "\ufeff", "word", "\u0085", "🇩🇪", "x\n\ny")
	}
	return s
}

// rangeOps compares operations on ranges with those on sets of offsets.
func rangeOps(c *mon.Case) {
	src := []byte(clip1(anyText(c), 400))
	pm := newPosMap(src, start)
	var at []int
	for i := 0; i <= len(src); i++ {
		if pm.whole(i) {
			at = append(at, i)
		}
	}
	// Ranges may also come from offsets alone, which are what counts.
	pos := pm.at
	if c.Chance(1, 6) {
		pos = func(i int) hcl.Pos { return hcl.Pos{Byte: i} }
		c.Event("offsets only")
	}
	mk := func(name string) hcl.Range {
		i, j := at[c.Intn(len(at))], at[c.Intn(len(at))]
		if c.Chance(1, 8) {
			j = i
		}
		if i > j {
			i, j = j, i
		}
		return hcl.Range{Filename: name, Start: pos(i), End: pos(j)}
	}
	a, b := mk("a"), mk("a")
	switch c.Intn(6) {
	case 0: // touching
		b.Start = a.End
		if b.End.Byte < b.Start.Byte {
			b.End = b.Start
		}
		if c.Bool() {
			a, b = b, a
		}
	case 1: // one shared edge
		if c.Bool() {
			b.Start = a.Start
			if b.End.Byte < b.Start.Byte {
				b.End = a.End
			}
		} else {
			b.End = a.End
			if b.Start.Byte > b.End.Byte {
				b.Start = a.Start
			}
		}
	}
	if c.Chance(1, 8) {
		b.Filename = "b"
		c.Event("different files")
	}
	c.Input("source", string(src))
	desc := fmt.Sprintf("%d-%d and %d-%d", a.Start.Byte, a.End.Byte, b.Start.Byte, b.End.Byte)
	c.Input("ranges", desc)

	in := func(r hcl.Range, i int) bool { return i >= r.Start.Byte && i < r.End.Byte }
	share, first, last := 0, -1, -1
	for i := range src {
		if in(a, i) && in(b, i) && a.Filename == b.Filename {
			share++
			if first < 0 {
				first = i
			}
			last = i + 1
		}
		if a.ContainsOffset(i) != in(a, i) || a.ContainsPos(pos(i)) != in(a, i) {
			c.Failf("range %d-%d contains %d: %v", a.Start.Byte, a.End.Byte, i, a.ContainsOffset(i))
		}
	}
	if a.ContainsOffset(-1) || a.ContainsOffset(a.End.Byte) || a.ContainsPos(a.End) {
		c.Failf("range %d-%d contains offsets outside of it", a.Start.Byte, a.End.Byte)
	}
	if a.Empty() != (a.Start.Byte == a.End.Byte) {
		c.Failf("range %d-%d empty: %v", a.Start.Byte, a.End.Byte, a.Empty())
	}
	if a.Overlaps(b) != (share > 0) || b.Overlaps(a) != (share > 0) {
		c.Failf("%s overlap: %v, %v; they share %d bytes", desc, a.Overlaps(b), b.Overlaps(a), share)
	}
	if a.End == b.Start || b.End == a.Start {
		c.Event("touching")
	}
	ov := a.Overlap(b)
	before, mid, after := a.PartitionAround(b)
	if share == 0 {
		if !ov.Empty() || ov.Filename != a.Filename || ov.Start.Byte < a.Start.Byte || ov.End.Byte > a.End.Byte {
			c.Failf("overlap of %s: %d-%d in %s", desc, ov.Start.Byte, ov.End.Byte, ov.Filename)
		}
		if !before.Empty() || !mid.Empty() || !after.Empty() {
			c.Failf("partition of %s: %v %v %v", desc, before, mid, after)
		}
		c.Event("no overlap")
	} else {
		want := hcl.Range{Filename: "a", Start: pos(first), End: pos(last)}
		if ov != want {
			c.Failf("overlap of %s: %#v, should be %#v", desc, ov, want)
		}
		if mid != want || before != (hcl.Range{Filename: "a", Start: a.Start, End: want.Start}) || after != (hcl.Range{Filename: "a", Start: want.End, End: a.End}) {
			c.Failf("partition of %s: %#v %#v %#v", desc, before, mid, after)
		}
		c.Event("overlap")
		c.Event("partition")
	}
	if a.Filename == b.Filename {
		u := hcl.RangeOver(a, b)
		var want hcl.Range
		switch {
		case a.Empty() && b.Empty():
			if !u.Empty() {
				c.Failf("union of empty ranges %s: %#v", desc, u)
			}
			want = u
		case a.Empty():
			want = b
		case b.Empty():
			want = a
		default:
			s, e := a.Start, a.End
			if b.Start.Byte < s.Byte {
				s = b.Start
			}
			if b.End.Byte > e.Byte {
				e = b.End
			}
			want = hcl.Range{Filename: "a", Start: s, End: e}
		}
		if u != want {
			c.Failf("union of %s: %#v, should be %#v", desc, u, want)
		}
		c.Event("union")
		if a.Start.Byte <= b.End.Byte {
			if r := hcl.RangeBetween(a, b); r != (hcl.Range{Filename: "a", Start: a.Start, End: b.End}) {
				c.Failf("range between %s: %#v", desc, r)
			}
		}
	}
	if p := a.Ptr(); *p != a {
		c.Failf("copy of %#v is %#v", a, *p)
	}

	// slicing, also of something else
	r := a
	switch c.Intn(4) {
	case 0:
		r.Start.Byte += c.Range(-20, 20)
	case 1:
		r.End.Byte += c.Range(-20, 20)
	case 2:
		r.Start.Byte, r.End.Byte = r.Start.Byte+len(src)-5, r.End.Byte+len(src)-5
	}
	var want []byte
	for i := range src {
		if in(r, i) {
			want = append(want, src[i])
		}
	}
	var got []byte
	checkPanic(c, "slicing", func() { got = r.SliceBytes(src) })
	if !bytes.Equal(got, want) {
		c.Failf("bytes %d-%d of %s: %s, should be %s", r.Start.Byte, r.End.Byte, q(string(src)), q(string(got)), q(string(want)))
	}
	can := r.Start.Byte >= 0 && r.Start.Byte <= r.End.Byte && r.End.Byte <= len(src)
	if r.CanSliceBytes(src) != can {
		c.Failf("bytes %d-%d of %d can be sliced: %v", r.Start.Byte, r.End.Byte, len(src), r.CanSliceBytes(src))
	}
	c.Event("slice")
	sign := func(x, y int) int {
		switch {
		case x < y:
			return 0
		case x > y:
			return 2
		}
		return 1
	}
	c.Sig(sign(a.Start.Byte, b.Start.Byte), sign(a.End.Byte, b.End.Byte), sign(a.End.Byte, b.Start.Byte), sign(b.End.Byte, a.Start.Byte), a.Empty(), b.Empty(), a.Filename == b.Filename, len(src)/8)
}

func clip1(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

var errSplit = errors.New("cannot split")

// scanRanges scans a buffer and checks what is visited.
func scanRanges(c *mon.Case) {
	src := []byte(clip1(anyText(c), 3000))
	from := start
	if c.Bool() {
		from = hcl.Pos{Byte: c.Intn(5000), Line: c.Range(1, 100), Column: c.Range(1, 100)}
	}
	pm := newPosMap(src, from)
	// All rules split between characters: they look for the next place of
	// some kind.
	cuts := func(data []byte) int { return len(src) - len(data) }
	rule := c.Intn(8)
	every := c.Range(1, 9)
	failAt := -1
	if c.Chance(1, 10) {
		failAt = c.Intn(len(src) + 1)
	}
	type step struct {
		adv int
		tok []byte
	}
	var steps []step
	next := func(at int) int { // end of the character at the offset
		for i := at + 1; i <= len(src); i++ {
			if pm.whole(i) {
				return i
			}
		}
		return len(src)
	}
	split := func(data []byte, eof bool) (int, []byte, error) {
		at := cuts(data)
		if !eof {
			c.Failf("the splitting rule is not told that it has the whole rest")
		}
		if failAt >= 0 && at >= failAt {
			return 0, nil, errSplit
		}
		var adv int
		var tok []byte
		var err error
		switch rule {
		case 0:
			adv, tok, err = bufio.ScanLines(data, eof)
		case 1: // single characters
			adv = next(at) - at
			tok = data[:adv]
		case 2: // several characters
			e := at
			for i := 0; i < every && e < len(src); i++ {
				e = next(e)
			}
			adv = e - at
			tok = data[:adv]
		case 3: // one character, skipping the following
			e := next(at)
			tok = data[:e-at]
			for i := 0; i < every && e < len(src); i++ {
				e = next(e)
			}
			adv = e - at
		case 4: // everything
			adv, tok = len(data), data
		case 5: // lines with their newline
			e := at
			for e < len(src) {
				f := next(e)
				nl := src[f-1] == '\n'
				e = f
				if nl {
					break
				}
			}
			adv = e - at
			tok = data[:adv]
		case 6: // empty tokens between characters
			adv = next(at) - at
			tok = data[:0]
		case 7: // up to a space, skipping it
			e := at
			for e < len(src) && src[e] != ' ' {
				e = next(e)
			}
			tok = data[:e-at]
			if e < len(src) {
				e = next(e)
			}
			adv = e - at
		}
		if err == nil {
			steps = append(steps, step{adv, tok})
		}
		return adv, tok, err
	}
	c.Input("source", string(src))
	c.Input("rule", fmt.Sprintf("%d, %d, from %v, failing at %d", rule, every, from, failAt))
	var sc *hcl.RangeScanner
	if from == start && c.Bool() {
		sc = hcl.NewRangeScanner(src, "s.hcl", split)
	} else {
		sc = hcl.NewRangeScannerFragment(src, "s.hcl", from, split)
	}
	valid := utf8.Valid(src) // lines and columns of other text are not defined
	at := 0
	n := 0
	for sc.Scan() {
		if n >= len(steps) || n > len(src)+1 {
			c.Failf("more ranges than tokens\nsource: %s", q(string(src)))
		}
		st := steps[n]
		n++
		r := sc.Range()
		if !bytes.Equal(sc.Bytes(), st.tok) || r.Filename != "s.hcl" {
			c.Failf("token %d is %s in %s, should be %s\nsource: %s", n, q(string(sc.Bytes())), r.Filename, q(string(st.tok)), q(string(src)))
		}
		if r.Start.Byte != from.Byte+at || r.End.Byte != from.Byte+at+len(st.tok) {
			// when characters were split, the end may be the end of one
			if pm.whole(at) && pm.whole(at+len(st.tok)) {
				c.Failf("token %d is at %d-%d, should be %d-%d\nsource: %s", n, r.Start.Byte, r.End.Byte, from.Byte+at, from.Byte+at+len(st.tok), q(string(src)))
			}
		}
		if valid && pm.whole(at) && pm.whole(at+len(st.tok)) && (r.Start != pm.at(at) || r.End != pm.at(at+len(st.tok))) {
			c.Failf("token %d is at %#v, should be %#v-%#v\nsource: %s", n, r, pm.at(at), pm.at(at+len(st.tok)), q(string(src)))
		}
		at += st.adv
		c.Event("scanned")
		if len(st.tok) != st.adv {
			c.Event("token and skipped")
		}
	}
	if n != len(steps) {
		c.Failf("%d ranges for %d tokens\nsource: %s", n, len(steps), q(string(src)))
	}
	if failAt >= 0 && at >= failAt && at < len(src) {
		if sc.Err() != errSplit {
			c.Failf("error of the splitting rule is reported as %v", sc.Err())
		}
		c.Event("scan error")
		if sc.Scan() {
			c.Failf("scanning goes on after an error")
		}
	} else {
		if sc.Err() != nil {
			c.Failf("unexpected error %v", sc.Err())
		}
		if at != len(src) {
			c.Failf("only %d of %d bytes were visited\nsource: %s", at, len(src), q(string(src)))
		}
		if sc.Scan() {
			c.Failf("scanning goes on after the end")
		}
	}
	c.Sig("scan", rule, n)
	c.Sample(fmt.Sprintf("%d ranges of %s", n, clip(q(string(src)), 120)))
}
