# Changes tried without a demonstration: (id, property, edits).
P = []
def probe(id, prop, *edits): P.append((id, prop, edits))

probe('c01-normalize-buf', 'C01',
 ('definputtextplugin.go', '''	utf8buf := make([]byte, 8, 8)

''', '''	utf8buf := p.utf8buf[:]

'''),
 ('definputtextplugin.go', '''	replaceCharMap     map[string][]rune
}''', '''	replaceCharMap     map[string][]rune
	utf8buf            [8]byte
}'''))

probe('c01-category-memo', 'C01',
 ('dictionary/charcategory.go', '''	rangeList []*categoryRange
}''', '''	rangeList []*categoryRange
	lastRune  rune
	lastTypes uint32
}'''),
 ('dictionary/charcategory.go', '''	var categories uint32
	for _, cr''', '''	if cc.lastTypes != 0 && cc.lastRune == codePoint {
		return cc.lastTypes
	}
	var categories uint32
	for _, cr'''),
 ('dictionary/charcategory.go', '''		categories = DEFAULT
	}
''', '''		categories = DEFAULT
	}
	cc.lastRune = codePoint
	cc.lastTypes = categories
'''))

probe('c01-oov-nodes', 'C01',
 ('mecaboovproviderplugin.go', '''	nodes := []*LatticeNode{}
''', '''	nodes := p.nodes[:0]
'''),
 ('mecaboovproviderplugin.go', '''	return nodes, nil
}''', '''	p.nodes = nodes
	return nodes, nil
}'''),
 ('mecaboovproviderplugin.go', '''	oovList    map[uint32]*[]*oov
}''', '''	oovList    map[uint32]*[]*oov
	nodes      []*LatticeNode
}'''))

probe('c01-shared-lattice-pool', 'C01',
 ('dictionary.go', '''	return NewJapaneseTokenizer(
		d.grammar,
		d.lexicon,
		d.inputTextPlugins,
		d.oovProviderPlugins,
		d.pathRewritePlugins,
	)
}''', '''	t := NewJapaneseTokenizer(
		d.grammar,
		d.lexicon,
		d.inputTextPlugins,
		d.oovProviderPlugins,
		d.pathRewritePlugins,
	)
	if d.spare == nil {
		d.spare = t.lattice.endLists[0]
	}
	t.lattice.endLists[0] = d.spare
	return t
}'''),
 ('dictionary.go', '''	dictionaries       []*dictionary.BinaryDictionary
}''', '''	dictionaries       []*dictionary.BinaryDictionary
	spare              []*LatticeNode
}'''))

probe('c01-bos-params', 'C01',   # process-global state: a loaded dictionary of another kind changes the decoder
 ('dictionary/bytes.go', '''func bufferToString(bytebuffer []byte, offset int) (int, string) {
	offset, length := bufferToStringLength(bytebuffer, offset)
	offsetend := offset + int(length)
	return offsetend, string(bytebuffer[offset:offsetend])
}''', '''func bufferToString(bytebuffer []byte, offset int) (int, string) {
	offset, length := bufferToStringLength(bytebuffer, offset)
	offsetend := offset + int(length)
	stringBuffer = append(stringBuffer[:0], bytebuffer[offset:offsetend]...)
	return offsetend, string(stringBuffer)
}

var stringBuffer []byte'''))

probe('c02-memo-mode', 'C02',
 ('tokenizer.go', '''	lattice    *Lattice
}''', '''	lattice    *Lattice
	lastText   string
	lastPath   []*LatticeNode
	lastInput  *InputText
}'''),
 ('tokenizer.go', '''	for _, plugin := range t.inputTextPlugins {
		err := plugin.Rewrite(inputTextBuilder)''', '''	if text == t.lastText && t.lastPath != nil && t.DumpOutput == nil {
		path := append([]*LatticeNode{}, t.lastPath...)
		if mode != "C" {
			path = t.splitPath(path, mode)
		}
		return NewMorphemeList(t.lastInput, t.grammar, t.lexicon, path), nil
	}

	for _, plugin := range t.inputTextPlugins {
		err := plugin.Rewrite(inputTextBuilder)'''),
 ('tokenizer.go', '''	if mode != "C" {
		path = t.splitPath(path, mode)
	}

	if t.DumpOutput''', '''	if mode != "C" {
		path = t.splitPath(path, mode)
	}
	t.lastText, t.lastPath, t.lastInput = text, path, input

	if t.DumpOutput'''))

probe('c02-expand-skip', 'C02',   # expand leaves stale lists when capacity is reused
 ('lattice.go', '''	for i := 1; i < len(l.endLists); i++ {
		l.endLists[i] = l.endLists[i][:0]
	}
''', '''	for i := 1; i <= l.eosNode.Begin && i < 256; i++ {
		l.endLists[i] = l.endLists[i][:0]
	}
'''))

probe('c02-plugin-err-clear', 'C02',
 ('tokenizer.go', '''	defer t.lattice.clear()
	err := t.buildLattice(input)''', '''	err := t.buildLattice(input)'''),
 ('tokenizer.go', '''	path, err := t.lattice.GetBestPath()
	if err != nil {
		return nil, err
	}
''', '''	path, err := t.lattice.GetBestPath()
	if err != nil {
		t.lattice.clear()
		return nil, err
	}
'''),
 ('tokenizer.go', '''	if mode != "C" {
		path = t.splitPath(path, mode)
	}

	if t.DumpOutput''', '''	t.lattice.clear()
	if mode != "C" {
		path = t.splitPath(path, mode)
	}

	if t.DumpOutput'''),
 ('tokenizer.go', '''	if err != nil {
		return nil, err
	}

	if t.DumpOutput != nil {
		fmt.Fprintln(t.DumpOutput, "=== Lattice dump")''', '''	if err != nil {
		t.lattice.clear()
		return nil, err
	}

	if t.DumpOutput != nil {
		fmt.Fprintln(t.DumpOutput, "=== Lattice dump")'''))

probe('c02-default-oov-sticky', 'C02',
 ('tokenizer.go', '''		if !hasWords && t.defaultOovProvider != nil {
			nodes, err := GetOOV(t.defaultOovProvider, input, i, hasWords)
			if err != nil {
				return err
			}''', '''		if !hasWords && t.defaultOovProvider != nil {
			nodes, err := GetOOV(t.defaultOovProvider, input, i, hasWords)
			if err != nil {
				t.defaultOovProvider = nil
				return err
			}'''))

probe('c02-category-memo-grow', 'C02',  # memo of OOV words by surface ignoring length of category
 ('simpleoovproviderplugin.go', '''	cost     int16
}''', '''	cost     int16
	known    map[string]*dictionary.WordInfo
}'''),
 ('simpleoovproviderplugin.go', '''		wi := &dictionary.WordInfo{''', '''		wi, ok := p.known[s]
		if ok && int(wi.HeadwordLength) >= length {
			node.SetWordInfo(wi)
			return []*LatticeNode{node}, nil
		}
		if p.known == nil {
			p.known = map[string]*dictionary.WordInfo{}
		}
		defer func() { p.known[s] = node.extraWordInfo }()
		wi = &dictionary.WordInfo{'''))

probe('c03-offsets-reuse', 'C03',
 ('tokenizer.go', '''	inputTextBuilder := NewInputTextBuilder(text, t.grammar)
''', '''	inputTextBuilder := NewInputTextBuilder(text, t.grammar)
	inputTextBuilder.offsets = t.offsets
	defer func() { t.offsets = inputTextBuilder.offsets }()
'''),
 ('tokenizer.go', '''	lattice    *Lattice
}''', '''	lattice    *Lattice
	offsets    []int
}'''),
 ('inputtext.go', '''	grammar       *dictionary.Grammar
}

func NewInputTextBuilder''', '''	grammar       *dictionary.Grammar
	offsets       []int
}

func NewInputTextBuilder'''),
 ('inputtext.go', '''	offsets := make([]int, size, size)

	sizes''', '''	offsets := builder.offsets
	if cap(offsets) < size {
		offsets = make([]int, size, size)
	}
	offsets = offsets[:size]
	builder.offsets = offsets

	sizes'''))

probe('c03-node-pool', 'C03',
 ('lattice.go', '''func (l *Lattice) clear() {
	for i := 1; i < len(l.endLists); i++ {
''', '''func (l *Lattice) clear() {
	best := map[*LatticeNode]bool{}
	if l.eosNode != nil {
		for node := l.eosNode.bestPreviousNode; node != nil; node = node.bestPreviousNode {
			best[node] = true
		}
	}
	for i := 1; i < len(l.endLists); i++ {
		for _, node := range l.endLists[i] {
			if !best[node] && !node.IsOov {
				l.free = append(l.free, node)
			}
		}
'''),
 ('lattice.go', '''	eosParams []int16
}''', '''	eosParams []int16
	free      []*LatticeNode
}

func (l *Lattice) newNode(lexicon *dictionary.LexiconSet, leftId int16, rightId int16, cost int16, wordId int32) *LatticeNode {
	if len(l.free) == 0 {
		return NewLatticeNode(lexicon, leftId, rightId, cost, wordId)
	}
	n := l.free[len(l.free)-1]
	l.free = l.free[:len(l.free)-1]
	*n = LatticeNode{lexicon: lexicon, leftId: leftId, rightId: rightId, cost: cost, wordId: wordId, isDefined: true}
	return n
}'''),
 ('tokenizer.go', '''			n := NewLatticeNode(
				t.lexicon,
				t''', '''			n := t.lattice.newNode(
				t.lexicon,
				t'''))

probe('c03-lazy-surface', 'C03',   # the runes of the text kept with the dictionary's last text
 ('morpheme.go', '''	return string([]rune(l.inputText.OriginalText)[begin:end])
}''', '''	if runesOf != l.inputText.OriginalText {
		runesOf, runes = l.inputText.OriginalText, append(runes[:0], []rune(l.inputText.OriginalText)...)
	}
	return string(runes[begin:end])
}

var (
	runesOf string
	runes   []rune
)'''))

probe('c04-lastchar-shared', 'C04',
 ('gosudachicli/main.go', '''type normalizer struct {
	r        io.Reader
	lastChar byte
}''', '''type normalizer struct {
	r io.Reader
}

var lastChar byte'''),
 ('gosudachicli/main.go', '''		case p[i] == '\\n' && norm.lastChar == '\\r':
			copy(p[i:], p[i+1:n])
			norm.lastChar = '\\n'
''', '''		case p[i] == '\\n' && lastChar == '\\r':
			copy(p[i:], p[i+1:n])
			lastChar = '\\n'
'''),
 ('gosudachicli/main.go', '''			norm.lastChar = p[i]
			p[i] = '\\n'
		default:
			norm.lastChar = p[i]
''', '''			lastChar = p[i]
			p[i] = '\\n'
		default:
			lastChar = p[i]
'''))

probe('c04-multi-reader', 'C04',
 ('gosudachicli/main.go', '''		for _, arg := range flag.Args() {
			input, err := os.OpenFile(arg, os.O_RDONLY, 0644)
			if err != nil {
				fmt.Fprintf(os.Stderr, "%s: %s", arg, err)
				return 1
			}
			err = runFromReader(tokenizer, mode, input, output, printall, ignoreerr)
			input.Close()
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 1
			}
		}
''', '''		var inputs []io.Reader
		for _, arg := range flag.Args() {
			input, err := os.OpenFile(arg, os.O_RDONLY, 0644)
			if err != nil {
				fmt.Fprintf(os.Stderr, "%s: %s", arg, err)
				return 1
			}
			defer input.Close()
			inputs = append(inputs, input)
		}
		err = runFromReader(tokenizer, mode, io.MultiReader(inputs...), output, printall, ignoreerr)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 1
		}
'''))

probe('c04-zero-read', 'C04',   # a read holding only the LF of a CR LF is taken for the end
 ('gosudachicli/main.go', '''			norm.lastChar = p[i]
		}
	}
	return
''', '''			norm.lastChar = p[i]
		}
	}
	if n == 0 && err == nil {
		err = io.EOF
	}
	return
'''))

probe('c04-empty-line', 'C04',
 ('gosudachicli/main.go', '''	for s.Scan() {
		err''', '''	for s.Scan() {
		if len(s.Bytes()) == 0 && s.r.Buffered() == 0 {
			continue
		}
		err'''))

probe('c05-close-error', 'C05',
 ('gosudachicli/main.go', '''			if cerr := outputfd.Close(); err == nil {
				err = cerr
			}
			if err''', '''			outputfd.Close()
			if err'''))

probe('c05-f-read-error', 'C05',
 ('gosudachicli/main.go', '''			input.Close()
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 1
			}
''', '''			input.Close()
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				if !ignoreerr {
					return 1
				}
			}
'''))

probe('c05-f-missing-file', 'C05',
 ('gosudachicli/main.go', '''				fmt.Fprintf(os.Stderr, "%s: %s", arg, err)
				return 1
''', '''				fmt.Fprintf(os.Stderr, "%s: %s", arg, err)
				if ignoreerr {
					continue
				}
				return 1
'''))

probe('c05-stdout-buffer', 'C05',
 ('gosudachicli/main.go', '''	output := &outputWriter{w: os.Stdout}
''', '''	stdout := bufio.NewWriter(os.Stdout)
	output := &outputWriter{w: stdout}
'''),
 ('gosudachicli/main.go', '''			return 1
		}
	}
	return 0
}
''', '''			return 1
		}
	}
	if err := stdout.Flush(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 1
	}
	return 0
}
'''))

probe('c05-write-retry', 'C05',   # a short write's rest is written again from the start
 ('gosudachicli/main.go', '''	n, o.err = o.w.Write(p)
	return n, o.err
''', '''	n, o.err = o.w.Write(p)
	if o.err != nil && n > 0 {
		n, o.err = o.w.Write(p)
	}
	return n, o.err
'''))

probe('c05-out-eq-panic', 'C05',   # the error of the last line is forgotten
 ('gosudachicli/main.go', '''	for s.Scan() {
		err := run''', '''	var err error
	for s.Scan() {
		err = run'''),
 ('gosudachicli/main.go', '''			if ignoreError {
				fmt.Fprintln(os.Stderr, err)
			} else {
				return err
			}
		}
	}
	if err := s.Err(); err != nil {
		return err
	}
	return nil
''', '''			if ignoreError {
				fmt.Fprintln(os.Stderr, err)
			} else {
				break
			}
		}
	}
	if err := s.Err(); err != nil {
		return err
	}
	if err != nil && !ignoreError {
		return err
	}
	return nil
'''))

probe('c06-unexpected-eof', 'C06',
 ('dictionary/dicbuilder.go', '''	if len(line) > 0 && err == io.EOF {
		err = nil
	} else if err == nil {''', '''	if err == io.ErrUnexpectedEOF {
		err = io.EOF
	}
	if len(line) > 0 && err == io.EOF {
		err = nil
	} else if err == nil {'''))

probe('c06-rewrite-break', 'C06',
 ('definputtextplugin.go', '''		if err == io.EOF {
			break
		}
		if err != nil {
			return fmt.Errorf("DefaultInputTextPlugin: %s", err)
		}
''', '''		if err != nil {
			if r.NumLine > 0 {
				break
			}
			return fmt.Errorf("DefaultInputTextPlugin: %s", err)
		}
'''))

probe('c06-settings-prefix', 'C06',
 ('settingsjson.go', '''	decoder := json.NewDecoder(reader)
''', '''	buf := make([]byte, 4096)
	n, rerr := io.ReadAtLeast(reader, buf, 1)
	if rerr != nil {
		return rerr
	}
	if n < len(buf) {
		reader = bytes.NewReader(buf[:n])
	} else {
		reader = io.MultiReader(bytes.NewReader(buf[:n]), reader)
	}
	decoder := json.NewDecoder(reader)
'''),
 ('settingsjson.go', '''	"fmt"
	"io"
''', '''	"bytes"
	"fmt"
	"io"
'''))

probe('c06-crlf-boundary', 'C06',   # CR LF split over the buffer's end keeps the CR
 ('internal/lnreader/lnreader.go', '''			line, err = r.r.ReadSlice('\\n')
			r.rawBuffer = append(r.rawBuffer, line...)
		}
		line = r.rawBuffer
	}''', '''			line, err = r.r.ReadSlice('\\n')
			if len(line) == 1 && err == nil && r.rawBuffer[len(r.rawBuffer)-1] == '\\r' {
				r.rawBuffer = append(r.rawBuffer, ' ')
			}
			r.rawBuffer = append(r.rawBuffer, line...)
		}
		line = r.rawBuffer
	}'''))

probe('c06-lexicon-open', 'C06',
 ('dicbuilder/main.go', '''		if err != nil {
			fmt.Fprintf(os.Stderr, "%s: %s\\n", lexiconpath, err)
			return 1
		}
	}''', '''		if err != nil {
			fmt.Fprintf(os.Stderr, "%s: %s\\n", lexiconpath, err)
			if dicbuilder.EntrySize() == 0 {
				return 1
			}
		}
	}'''))
