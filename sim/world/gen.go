// Package world generates the sources the simulations work on - lexicons,
// matrices, definitions, settings and texts - and runs the real programs and
// library calls on them inside simulated processes.
package world

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"vsim/rt"
)

// Entry is one row of a lexicon source, column by column. Values are the
// decoded ones; CSV escapes them.
type Entry struct {
	Head  string   `json:"h"`
	Left  int      `json:"l"`
	Right int      `json:"r"`
	Cost  int      `json:"c"`
	Surf  string   `json:"s"`
	Pos   []string `json:"p"`
	Read  string   `json:"y"`
	Norm  string   `json:"n"`
	Dic   string   `json:"d"`
	Mode  string   `json:"m"`
	A     string   `json:"a"`
	B     string   `json:"b"`
	W     string   `json:"w"`
	Esc   int      `json:"e,omitempty"` // style of escapes used in the source text
}

var PosList = [][]string{
	{"名詞", "普通名詞", "一般", "*", "*", "*"},
	{"名詞", "固有名詞", "地名", "一般", "*", "*"},
	{"名詞", "数詞", "*", "*", "*", "*"},
	{"動詞", "一般", "*", "*", "五段-カ行", "終止形-一般"},
	{"助詞", "格助詞", "*", "*", "*", "*"},
	{"補助記号", "一般", "*", "*", "*", "*"},
	{"補助記号", "句点", "*", "*", "*", "*"},
	{"感動詞", "フィラー", "*", "*", "*", "*"},
	{"接尾辞", "名詞的", "一般", "*", "*", "*"},
	{"形容詞", "一般", "*", "*", "形容詞", "連体形-一般"},
	{"空白", "*", "*", "*", "*", "*"},
	{"記号", "文字", "*", "*", "*", "*"},
}

// Bad is a word only reachable over inhibited connections; Orphan a character
// no unknown-word provider of a world without a catch-all handles.
const (
	Bad    = "✂"
	Orphan = "ж"
)

var scripts = [][]rune{
	[]rune("東京都山田川人大府立"),
	[]rune("あいうかがきしすたてともはひをんっ"),
	[]rune("アイウカガキパシスターッン"),
	[]rune("一二三四五十百千万億"),
	[]rune("0123456789"),
	[]rune("abcdexyzAB"),
	[]rune("、。！・"),
	[]rune("０１２３ａｂＺ"),
}

// Dict is the source of one dictionary.
type Dict struct {
	Desc    string  `json:"desc"`
	Entries []Entry `json:"entries"`
	N       int     `json:"n,omitempty"` // matrix size; system dictionaries only
	MSeed   uint64  `json:"mseed,omitempty"`
	Inhibit int     `json:"inhibit,omitempty"` // percentage of inhibited cells
}

// Cell is the connection cost at (left, right).
func (d *Dict) Cell(l, r int) int {
	if d.N > 2 && (l == d.N-1 || r == d.N-1) {
		return 32767
	}
	x := rt.NewRand(d.MSeed + uint64(l)*1009 + uint64(r)*9176)
	if l != 0 && r != 0 && x.Intn(100) < d.Inhibit {
		return 32767
	}
	return x.Intn(2500) - 500
}

// Matrix is the text of the connection matrix.
func (d *Dict) Matrix() []byte {
	var b strings.Builder
	fmt.Fprintf(&b, "%d %d\n", d.N, d.N)
	for l := 0; l < d.N; l++ {
		for r := 0; r < d.N; r++ {
			fmt.Fprintf(&b, "%d %d %d\n", l, r, d.Cell(l, r))
		}
	}
	return []byte(b.String())
}

func pieces(r *rt.Rand) string {
	s := rt.Pick(r, scripts)
	n := r.Range(1, 3)
	if r.Chance(1, 8) {
		n = r.Range(3, 6)
	}
	var w []rune
	for i := 0; i < n; i++ {
		if r.Chance(1, 10) {
			s = rt.Pick(r, scripts)
		}
		w = append(w, rt.Pick(r, s))
	}
	return string(w)
}

func reading(r *rt.Rand) string {
	var w []rune
	for i := r.Range(1, 4); i > 0; i-- {
		w = append(w, rt.Pick(r, scripts[2]))
	}
	return string(w)
}

// GenSystem makes the source of a system dictionary of about n words.
func GenSystem(r *rt.Rand, n int) *Dict {
	d := &Dict{Desc: fmt.Sprintf("system %x", r.Next()&0xffff), N: r.Range(6, 10), MSeed: r.Next() >> 1, Inhibit: r.Range(0, 12)}
	d.Entries = genEntries(r, n, d.N, nil, false, r.Chance(1, 3))
	return d
}

// GenUser makes the source of a user dictionary over a system dictionary.
func GenUser(r *rt.Rand, n int, sys *Dict) *Dict {
	d := &Dict{Desc: fmt.Sprintf("user %x", r.Next()&0xffff)}
	d.Entries = genEntries(r, n, sys.N, sys.Entries, true, r.Chance(1, 3))
	return d
}

func genEntries(r *rt.Rand, n, ids int, base []Entry, user, rich bool) []Entry {
	var es []Entry
	id := func() int { return r.Intn(max(1, ids-1)) }
	add := func(h string) *Entry {
		e := Entry{Head: h, Left: id(), Right: id(), Cost: r.Range(-2000, 8000), Surf: h, Pos: rt.Pick(r, PosList), Read: reading(r), Norm: h, Dic: "*", Mode: "A", A: "*", B: "*", W: "*"}
		if r.Chance(1, 5) {
			e.Norm = pieces(r)
		}
		if r.Chance(1, 8) {
			e.Read = e.Surf
		}
		if r.Chance(1, 12) {
			e.Left, e.Right = -1, -1
		}
		if user {
			if r.Chance(1, 3) {
				e.Cost = -32768
				switch r.Intn(8) {
				case 0:
					e.Surf = ""
				case 1:
					e.Surf = h + h
				case 2:
					e.Surf = reading(r)
				}
			}
			if r.Chance(1, 4) {
				e.Pos = []string{"名詞", "固有名詞", rt.Pick(r, []string{"人名", "社名", "地名"}), rt.Pick(r, []string{"一般", "姓"}), "*", "*"}
			}
		}
		if rich {
			e.Esc = r.Intn(4)
			if r.Chance(1, 12) {
				e.Norm += rt.Pick(r, []string{",", ",", "."})
			}
			if r.Chance(1, 10) {
				e.Surf = pieces(r)
			}
		}
		es = append(es, e)
		return &es[len(es)-1]
	}
	if !user {
		for _, c := range "0123456789" {
			e := add(string(c))
			e.Pos = PosList[2]
			e.Left, e.Right = max(1, e.Left), max(1, e.Right)
		}
		for _, c := range "一二三十百千万" {
			e := add(string(c))
			e.Pos = PosList[2]
			e.Left, e.Right = max(1, e.Left), max(1, e.Right)
			e.Norm = e.Surf
		}
		e := add(Bad)
		e.Left, e.Right, e.Cost, e.Pos = ids-1, ids-1, 100, PosList[5]
		for _, p := range PosList {
			add(pieces(r)).Pos = p // every one of them occurs
		}
		add(".").Pos = PosList[5]
		add(",").Pos = PosList[5]
	}
	for i := 0; i < n; i++ {
		switch {
		case len(es) > 3 && r.Chance(1, 3):
			compound(r, &es, base, user, add)
		case len(es) > 3 && r.Chance(1, 8):
			j := r.Intn(len(es))
			o := es[j]
			if o.Head == Bad {
				break
			}
			e := add(o.Head) // homograph
			if r.Chance(1, 2) {
				// told apart by number only
				e.Surf, e.Pos, e.Read = o.Surf, o.Pos, o.Read
				if r.Bool() && o.A == "*" && o.Read != "" && !strings.ContainsAny(o.Surf+o.Read, "/,\\") {
					u := strings.Join(append(append([]string{o.Surf}, o.Pos...), o.Read), ",")
					x := add(o.Head + o.Head)
					x.Mode, x.A = "B", u+"/"+u
				}
			}
		default:
			e := add(pieces(r))
			if !user && r.Chance(1, 3) {
				// conjugated form of another word
				e.Dic = fmt.Sprint(r.Intn(len(es)))
			}
		}
	}
	return es
}

// compound adds a word made of others, with consistent splits.
func compound(r *rt.Rand, es *[]Entry, base []Entry, user bool, add func(string) *Entry) {
	var head string
	var refs, bs []string
	k := r.Range(2, 4)
	for i := 0; i < k; i++ {
		var o Entry
		var ref string
		if user && len(base) > 0 && r.Bool() {
			j := r.Intn(len(base))
			o, ref = base[j], fmt.Sprint(j)
		} else {
			j := r.Intn(len(*es))
			o, ref = (*es)[j], fmt.Sprint(j)
			if user {
				ref = fmt.Sprintf("U%d", j)
			}
		}
		if o.Head == Bad || o.A != "*" {
			continue
		}
		if r.Chance(1, 5) && !strings.ContainsAny(o.Surf+o.Read, "/,\\") && o.Read != "" {
			ref = strings.Join(append(append([]string{o.Surf}, o.Pos...), o.Read), ",")
		}
		head += o.Head
		refs = append(refs, ref)
	}
	if len(refs) < 2 {
		return
	}
	e := add(head)
	e.A = strings.Join(refs, "/")
	e.Mode = "B"
	if r.Chance(1, 2) {
		e.Mode = "C"
		bs = append(bs, refs...)
		e.B = strings.Join(bs, "/")
	}
	if r.Chance(1, 3) {
		e.W = e.A
	}
}

// esc writes a field of the source. A backslash that, before what follows, is no
// escape may stand for itself.
func esc(s string, style int) string {
	var idx []int
	for i := range s {
		idx = append(idx, i)
	}
	out := ""
	for k := len(idx) - 1; k >= 0; k-- {
		i := idx[k]
		end := len(s)
		if k+1 < len(idx) {
			end = idx[k+1]
		}
		c := []rune(s[i:end])[0]
		must := c == ',' || c == '\n' || c == '\r' || c == '\\'
		if c == '\\' && style > 1 && i%3 != 2 {
			if m := escape.FindStringSubmatch("\\" + out); m == nil {
				must = false
			} else if n, err := strconv.ParseInt(strings.Trim(m[1], "{}"), 16, 32); err != nil || n > 0x10ffff {
				must = false
			}
			if !must {
				out = "\\" + out
				continue
			}
		}
		if must || (style > 0 && (i*7+int(c))%5 < style-1) {
			switch {
			case c > 0xffff:
				out = fmt.Sprintf("\\u{%x}", c) + out
			case style == 2:
				out = fmt.Sprintf("\\u{%X}", c) + out
			default:
				out = fmt.Sprintf("\\u%04x", c) + out
			}
			continue
		}
		out = s[i:end] + out
	}
	return out
}

var escape = regexp.MustCompile(`^\\u([0-9A-Fa-f]{4}|\{[0-9A-Fa-f]+\})`)

// Line is the entry's row in the source, without line end.
func (e *Entry) Line() string {
	p := append(append([]string{}, e.Pos...), "", "", "", "", "", "")[:6]
	cols := []string{esc(e.Head, e.Esc), fmt.Sprint(e.Left), fmt.Sprint(e.Right), fmt.Sprint(e.Cost), esc(e.Surf, e.Esc)}
	for _, x := range p {
		cols = append(cols, esc(x, 0))
	}
	cols = append(cols, esc(e.Read, e.Esc), esc(e.Norm, e.Esc), e.Dic, e.Mode, esc(e.A, 0), esc(e.B, 0), esc(e.W, 0))
	return strings.Join(cols, ",")
}

// CSV is the lexicon source. Style bit 0: CR LF line ends; bit 1: no line end
// after the last row.
func CSV(es []Entry, style int) []byte {
	var b strings.Builder
	for i := range es {
		b.WriteString(es[i].Line())
		if i == len(es)-1 && style&2 != 0 {
			break
		}
		if style&1 != 0 {
			b.WriteString("\r\n")
		} else {
			b.WriteString("\n")
		}
	}
	return []byte(b.String())
}

// Texts.

var oddities = []string{"ーー", "〜〜〜", "ー", "㍿", "ｶﾞ", "ﬁ", "🍣", "👨‍👩‍👧", "か゛", "が", "Ⅳ", "ΑΒγ", "Ａ", "㌔", "１２,３４５.６", "3.14", "1,000", "二十三万", "5百", "....", "1.2.3", "ヷ", "　", " ", "\t", "é", "①②", "ｱｲｳ", "~", "…", "\u3099", "ﾞ", "x",
	"\ufeff", "\u2028", "\u0085", "\u00a0", "\x00", "\x1a", "\v", "\f", "#", "\"", "'", "\\u0041", "\\", "EOS", "\u200b", "\ufffd", "\u0301", "Ǆ", "ẞ", "İ"}

// Text makes an input text from the words of a world.
func (w *World) Text(r *rt.Rand, fail bool) string {
	var b strings.Builder
	n := r.Range(0, 8)
	switch r.Intn(12) {
	case 0:
		n = r.Range(8, 30)
	case 1:
		n = 1
	case 2:
		n = r.Range(30, 90)
	}
	for i := 0; i < n; i++ {
		switch x := r.Intn(20); {
		case x < 10 && len(w.Words) > 0:
			b.WriteString(rt.Pick(r, w.Words))
		case x < 13:
			b.WriteString(rt.Pick(r, oddities))
		case x < 15:
			for k := r.Range(1, 5); k > 0; k-- {
				b.WriteRune(rt.Pick(r, scripts[2]))
			}
		case x < 16:
			for k := r.Range(1, 6); k > 0; k-- {
				b.WriteRune(rt.Pick(r, []rune("0123456789,.一二十百万")))
			}
		default:
			b.WriteString(pieces(r))
		}
	}
	if fail {
		s := rt.Pick(r, []string{Bad, Bad, Orphan})
		if w.Spec.Catch {
			s = Bad
		}
		if r.Bool() {
			return s + b.String()
		}
		t := []rune(b.String())
		k := r.Intn(len(t) + 1)
		return string(t[:k]) + s + string(t[k:])
	}
	return b.String()
}
