package checks

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode/utf16"

	"vsim/world"
)

// The model of dictionaries: what a source says, worked out independently of
// the code under test.

// fill stands for a run of generated entries.
type fill struct {
	Kind string `json:"kind"` // words, homo, pos
	N    int    `json:"n"`
}

// source is the source of one dictionary.
type source struct {
	world.Dict
	Fill  []fill   `json:"fill,omitempty"`
	M     int      `json:"m,omitempty"`     // right size of the matrix, 0: as the left
	Extra []string `json:"extra,omitempty"` // further lines of the matrix
	MHead string   `json:"mhead,omitempty"` // another first line
	Style int      `json:"style,omitempty"`
	Long  []long   `json:"long,omitempty"`
	Raw   string   `json:"raw,omitempty"` // a malformed line at the end of the lexicon
	Holes int      `json:"holes,omitempty"`
}

// long makes a column of an entry long.
type long struct {
	Entry int    `json:"entry"`
	Col   string `json:"col"` // head, surf, read, norm, pos
	Unit  string `json:"unit"`
	Len   int    `json:"len"` // in bytes or UTF-16 units, as the encoding has it
}

func units(s string, u16 bool) int {
	if u16 {
		return len(utf16.Encode([]rune(s)))
	}
	return len(s)
}

// entries are the source's entries with everything filled in.
func (s *source) entries(u16 bool) []world.Entry {
	es := append([]world.Entry{}, s.Entries...)
	for _, f := range s.Fill {
		for i := 0; i < f.N && i < 70000; i++ {
			e := world.Entry{Head: "埋", Left: 1, Right: 1, Cost: 5000, Surf: "埋", Pos: world.PosList[0], Read: "ウメ", Norm: "埋", Dic: "*", Mode: "A", A: "*", B: "*", W: "*"}
			switch f.Kind {
			case "words":
				e.Head = fmt.Sprintf("語%s", strconv.FormatInt(int64(i)*7919%100003, 36))
				e.Surf, e.Norm = e.Head, e.Head
			case "pos":
				e.Head = "品"
				e.Left = -1
				e.Pos = []string{"品詞", "*", "*", "*", "*", fmt.Sprint(i)}
			}
			es = append(es, e)
		}
	}
	for _, l := range s.Long {
		if len(es) == 0 || l.Unit == "" || l.Len < 0 || l.Len > 40000 {
			continue
		}
		i := ((l.Entry % len(es)) + len(es)) % len(es)
		u := units(l.Unit, u16)
		v := strings.Repeat(l.Unit, l.Len/u)
		for units(v, u16) < l.Len {
			v += "x"
		}
		e := &es[i]
		switch l.Col {
		case "head":
			e.Head = v
		case "surf":
			e.Surf = v
		case "read":
			e.Read = v
		case "norm":
			e.Norm = v
		case "pos":
			e.Pos = append([]string{}, e.Pos...)
			e.Pos[3] = v
		}
	}
	return es
}

func (s *source) right() int {
	if s.M > 0 {
		return s.M
	}
	return s.N
}

// matrix is the text of the connection matrix.
func (s *source) matrix() []byte {
	var b strings.Builder
	if s.MHead != "" {
		b.WriteString(s.MHead + "\n")
	} else {
		fmt.Fprintf(&b, "%d %d\n", s.N, s.right())
	}
	k := 0
	for l := 0; l < s.N; l++ {
		for r := 0; r < s.right(); r++ {
			if k++; s.Holes > 0 && k%s.Holes == 0 {
				continue
			}
			fmt.Fprintf(&b, "%d %d %d\n", l, r, s.Cell(l, r))
		}
	}
	for _, l := range s.Extra {
		b.WriteString(l + "\n")
	}
	return []byte(b.String())
}

// lexicon is the source divided into n files.
func (s *source) lexicon(u16 bool, n int) [][]byte {
	es := s.entries(u16)
	n = max(1, min(n, len(es)))
	var r [][]byte
	for i := 0; i < n; i++ {
		r = append(r, world.CSV(es[len(es)*i/n:len(es)*(i+1)/n], s.Style))
	}
	if s.Raw != "" {
		l := len(r) - 1
		if len(r[l]) > 0 && r[l][len(r[l])-1] != '\n' {
			r[l] = append(r[l], '\n')
		}
		r[l] = append(r[l], s.Raw...)
	}
	return r
}

type mEntry struct {
	head       string // "" if not indexed
	l, r, c    int
	surf, read string
	norm       string
	hlen       int
	pos        int // number in the part-of-speech table, the system's first
	dic        int
	a, b, w    []int32
	rawRead    string
}

// content is what a dictionary file says.
type content struct {
	sys     *content // user dictionaries: the one it was built on
	desc    string
	es      []mEntry
	pos     []string // own parts of speech, joined by NUL
	n, m    int
	cells   map[[2]int]int
	byHead  map[string][]int
	created [2]int64 // creation time: between these
	v1      bool
}

func (d *content) posSize() int {
	n := len(d.pos)
	if d.sys != nil {
		n += d.sys.posSize()
	}
	return n
}

// posOf is the part of speech with a number as stored in the dictionary.
func (d *content) posOf(i int) []string {
	if d.sys != nil {
		if i < len(d.sys.pos) {
			return d.sys.posOf(i)
		}
		i -= len(d.sys.pos)
	}
	if i < 0 || i >= len(d.pos) {
		return nil
	}
	return strings.Split(d.pos[i], "\x00")
}

func (d *content) dicForm(i int) string {
	e := &d.es[i]
	if e.dic >= 0 && e.dic != i && e.dic < len(d.es) {
		return d.es[e.dic].surf
	}
	return e.surf
}

// verdict of the model on a source.
const (
	mustAccept = iota
	mayRefuse  // if it is accepted it must be stored faithfully
	mustRefuse
)

// compile works out what a source says. It returns the reason if the source
// has to or may be refused.
func (s *source) compile(sys *content, u16 bool) (d *content, v int, why string) {
	d = &content{sys: sys, desc: s.Desc, byHead: map[string][]int{}, cells: map[[2]int]int{}}
	refuse := func(f string, a ...interface{}) {
		if v < mustRefuse {
			v, why = mustRefuse, fmt.Sprintf(f, a...)
		}
	}
	doubt := func(f string, a ...interface{}) {
		if v < mayRefuse {
			v, why = mayRefuse, fmt.Sprintf(f, a...)
		}
	}
	if len(s.Desc) > 256 {
		refuse("the description has %d bytes", len(s.Desc))
	}
	if strings.ContainsRune(s.Desc, 0) {
		doubt("NUL in the description")
	}
	if s.Raw != "" && strings.Count(s.Raw, ",") != 17 {
		refuse("a line has %d columns", strings.Count(s.Raw, ",")+1)
	} else if s.Raw != "" {
		doubt("raw line")
	}
	ids := map[string]int{}
	base := 0
	if sys != nil {
		base = len(sys.pos)
		for i := len(sys.pos) - 1; i >= 0; i-- {
			ids[sys.pos[i]] = i
		}
	}
	i16 := func(n int) bool { return n >= -32768 && n <= 32767 }
	es := s.entries(u16)
	for i := range es {
		e := &es[i]
		for _, x := range []string{e.Head, e.Surf, e.Read, e.Norm} {
			if units(x, u16) > 32767 {
				refuse("entry %d: a string of %d units", i, units(x, u16))
			}
		}
		if len(e.Head) > 32767 {
			refuse("entry %d: a headword of %d bytes", i, len(e.Head))
		}
		if !i16(e.Left) || !i16(e.Right) || !i16(e.Cost) {
			refuse("entry %d: parameters %d,%d,%d", i, e.Left, e.Right, e.Cost)
		}
		pos := append(append([]string{}, e.Pos...), "", "", "", "", "", "")[:6]
		for _, x := range pos {
			if units(x, u16) > 32767 {
				refuse("entry %d: a part of speech of %d units", i, units(x, u16))
			}
			if strings.Contains(x, ",") {
				refuse("entry %d: comma in a part of speech", i)
			}
		}
		key := strings.Join(pos, "\x00")
		id, ok := ids[key]
		if !ok {
			id = base + len(d.pos)
			ids[key] = id
			d.pos = append(d.pos, key)
		}
		if base+len(d.pos) > 32768 {
			refuse("%d parts of speech", base+len(d.pos))
		}
		m := mEntry{l: e.Left, r: e.Right, c: e.Cost, surf: e.Surf, read: e.Read, norm: e.Norm, hlen: len(e.Head), pos: id, rawRead: e.Read}
		if e.Left != -1 {
			m.head = e.Head
		}
		if m.head == "" && e.Left != -1 {
			doubt("entry %d: no headword", i)
		}
		if strings.ContainsRune(m.head, 0) {
			refuse("entry %d: NUL in the headword", i)
		}
		if m.read == "" {
			m.read = m.surf
		}
		if m.norm == "" {
			m.norm = m.surf
		}
		if e.Mode == "A" && (e.A != "*" || e.B != "*") {
			refuse("entry %d: mode A with units", i)
		}
		if e.Dic == "*" {
			m.dic = -1
		} else if n, err := strconv.Atoi(e.Dic); err != nil {
			refuse("entry %d: dictionary form %q", i, e.Dic)
		} else {
			m.dic = n
			if n < 0 {
				doubt("entry %d: dictionary form %d", i, n)
			}
			if n >= len(es) {
				refuse("entry %d: dictionary form %d of %d", i, n, len(es))
			}
		}
		if m.head != "" {
			d.byHead[m.head] = append(d.byHead[m.head], i)
			if len(d.byHead[m.head]) > 255 {
				refuse("%d entries with one headword", len(d.byHead[m.head]))
			}
		}
		d.es = append(d.es, m)
	}
	if len(d.byHead) == 0 {
		doubt("nothing to look up")
	}
	if v == mustRefuse {
		return
	}
	find := func(c *content, surf string, pos int, read string, raw bool) int {
		for i := range c.es {
			rd := c.es[i].read
			if raw {
				rd = c.es[i].rawRead
			}
			if c.es[i].surf == surf && c.es[i].pos == pos && rd == read {
				return i
			}
		}
		return -1
	}
	unitsOf := func(i int, what, text string) []int32 {
		if text == "*" {
			return nil
		}
		parts := strings.Split(text, "/")
		if len(parts) > 127 {
			refuse("entry %d: %d %s units", i, len(parts), what)
			return nil
		}
		var r []int32
		for _, p := range parts {
			own := false
			num := p
			if strings.HasPrefix(p, "U") {
				own, num = true, p[1:]
			}
			if n, err := strconv.Atoi(num); err == nil {
				lim, flag := len(es), 0
				if sys != nil {
					if own {
						flag = 1 << 28
					} else {
						lim = len(sys.es)
					}
				}
				if n < 0 || n >= lim {
					refuse("entry %d: unit %s", i, p)
					return nil
				}
				r = append(r, int32(n|flag))
				continue
			}
			cols := strings.Split(p, ",")
			if len(cols) < 8 {
				refuse("entry %d: unit %q", i, p)
				return nil
			}
			pos, ok := ids[strings.Join(cols[1:7], "\x00")]
			if !ok {
				refuse("entry %d: part of speech of unit %q", i, p)
				return nil
			}
			if k := find(d, cols[0], pos, cols[7], true); k >= 0 {
				if sys != nil {
					k |= 1 << 28
				}
				r = append(r, int32(k))
				continue
			}
			if sys != nil {
				if k := find(sys, cols[0], pos, cols[7], false); k >= 0 {
					r = append(r, int32(k))
					continue
				}
			}
			refuse("entry %d: no word for unit %q", i, p)
			return nil
		}
		return r
	}
	for i := range es {
		d.es[i].a = unitsOf(i, "A", es[i].A)
		d.es[i].b = unitsOf(i, "B", es[i].B)
		d.es[i].w = unitsOf(i, "structure", es[i].W)
	}
	if sys != nil {
		return
	}
	// the matrix
	d.n, d.m = s.N, s.right()
	if s.MHead != "" {
		f := strings.Fields(s.MHead)
		if len(f) < 2 {
			refuse("matrix: first line %q", s.MHead)
			return
		}
		var e1, e2 error
		d.n, e1 = strconv.Atoi(f[0])
		d.m, e2 = strconv.Atoi(f[1])
		if e1 != nil || e2 != nil || !i16(d.n) || !i16(d.m) || d.n < 0 || d.m < 0 {
			refuse("matrix: first line %q", s.MHead)
			return
		}
		if len(f) > 2 {
			doubt("matrix: first line %q", s.MHead)
		}
	}
	if d.n == 0 || d.m == 0 {
		doubt("empty matrix")
	}
	for i, line := range strings.Split(string(s.matrix()), "\n") {
		if i == 0 || strings.Trim(line, " \t") == "" {
			continue
		}
		f := strings.Fields(line)
		if len(f) < 3 {
			doubt("matrix line %q", line) // skipped, with a message
			continue
		}
		if len(f) > 3 {
			doubt("matrix line %q", line)
		}
		var x [3]int
		for j := range x {
			n, err := strconv.Atoi(f[j])
			if err != nil || !i16(n) {
				refuse("matrix line %q", line)
				return
			}
			x[j] = n
		}
		if x[0] < 0 || x[0] >= d.n || x[1] < 0 || x[1] >= d.m {
			refuse("matrix line %q of a %d x %d matrix", line, d.n, d.m)
			return
		}
		d.cells[[2]int{x[0], x[1]}] = x[2]
	}
	return
}

// lookup lists what the dictionary has at an offset of a text, as
// "id:length", sorted.
func (d *content) lookup(text []byte, off int, id func(int) int32) []string {
	var r []string
	for h, is := range d.byHead {
		if strings.HasPrefix(string(text[off:]), h) {
			for _, i := range is {
				r = append(r, fmt.Sprintf("%d:%d", id(i), off+len(h)))
			}
		}
	}
	sort.Strings(r)
	return r
}

// printed is what printdic shows.
func (d *content) printed() string {
	var b strings.Builder
	ints := func(a []int32) string {
		if len(a) == 0 {
			return "*"
		}
		var s []string
		for _, x := range a {
			s = append(s, fmt.Sprint(x))
		}
		return strings.Join(s, "/")
	}
	for i := range d.es {
		e := &d.es[i]
		u := "C"
		if len(e.a) == 0 {
			u = "A"
		} else if len(e.b) == 0 {
			u = "B"
		}
		dic := "*"
		if e.dic >= 0 {
			dic = fmt.Sprint(e.dic)
		}
		fmt.Fprintf(&b, "%s,%d,%d,%d,%s,%s,%s,%s,%s,%s,%s,%s,%s\n", e.surf, e.l, e.r, e.c, e.surf, strings.Join(d.posOf(e.pos), ","), e.read, e.norm, dic, u, ints(e.a), ints(e.b), ints(e.w))
	}
	return b.String()
}
