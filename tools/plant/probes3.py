P = []
def probe(id, prop, *edits): P.append((id, prop, edits))

probe('c01-iter-reuse', 'C01',
 ('dartsclone/da.go', '''	array  []uint32
	buffer []byte
}

func NewDoubleArray''', '''	array  []uint32
	buffer []byte
	it     Iterator
}

func NewDoubleArray'''),
 ('dartsclone/da.go', '''	return newIterator(da.array, key, offset)
''', '''	da.it = *newIterator(da.array, key, offset)
	return &da.it
'''))
probe('c01-params-scratch', 'C01',
 ('dictionary/dalexicon.go', '''type wordIdTable struct {
	bytebuffer []byte
	size       int32
''', '''type wordIdTable struct {
	bytebuffer []byte
	size       int32
	last       int
	lastIds    []int32
'''),
 ('dictionary/dalexicon.go', '''	_, result := bufferToInt32Array(t.bytebuffer, index)
	return result
''', '''	if t.lastIds == nil || t.last != index {
		_, result := bufferToInt32Array(t.bytebuffer, index)
		t.last, t.lastIds = index, result
	}
	return t.lastIds
'''))
probe('c02-psm-state', 'C02',
 ('prolongedsoundmarkinputtextplugin.go', '''	replacementSymbol     []rune
}
''', '''	replacementSymbol     []rune

	markStartIndex       int
	isProlongedSoundMark bool
}
'''),
 ('prolongedsoundmarkinputtextplugin.go', '''	isProlongedSoundMark := false
	for i := 0;''', '''	isProlongedSoundMark := p.isProlongedSoundMark
	defer func() { p.markStartIndex, p.isProlongedSoundMark = markStartIndex, isProlongedSoundMark }()
	for i := 0;'''),
 ('prolongedsoundmarkinputtextplugin.go', '''	markStartIndex := runelen
''', '''	markStartIndex := p.markStartIndex
'''))
probe('c02-clear-last', 'C02',
 ('lattice.go', '''	for i := 1; i < len(l.endLists); i++ {
		l.endLists[i] = l.endLists[i][:0]
''', '''	for i := 1; i < len(l.endLists)-1; i++ {
		l.endLists[i] = l.endLists[i][:0]
'''))
probe('c02-numeric-flags', 'C02',
 ('joinnumericplugin.go', '''	enableNormalize bool
	numericPosId    int16
}''', '''	enableNormalize bool
	numericPosId    int16
	commaNotDigit   bool
}'''),
 ('joinnumericplugin.go', '''	commaAsDigit := true
	periodAsDigit''', '''	commaAsDigit := !p.commaNotDigit
	defer func() { p.commaNotDigit = !commaAsDigit }()
	periodAsDigit'''))
probe('c03-split-buffer', 'C03',
 ('morpheme.go', '''	path      []*LatticeNode
}''', '''	path      []*LatticeNode
	units     []*LatticeNode
}'''),
 ('morpheme.go', '''	nodes := make([]*LatticeNode, len(wordIds), len(wordIds))
''', '''	if cap(l.units) < len(wordIds) {
		l.units = make([]*LatticeNode, len(wordIds))
	}
	nodes := l.units[:len(wordIds)]
'''))
probe('c03-lazy-info', 'C03',
 ('lattice.go', '''	return ln.lexicon.GetWordInfo(ln.wordId)
''', '''	if lastInfo == nil || lastWordId != ln.wordId || lastLexicon != ln.lexicon {
		lastInfo, lastWordId, lastLexicon = ln.lexicon.GetWordInfo(ln.wordId), ln.wordId, ln.lexicon
	}
	return lastInfo
'''),
 ('lattice.go', '''type LatticeNode struct {''', '''var (
	lastInfo    *dictionary.WordInfo
	lastWordId  int32
	lastLexicon *dictionary.LexiconSet
)

type LatticeNode struct {'''))
probe('c04-join-files', 'C04',
 ('gosudachicli/main.go', '''	return &lineScanner{r: bufio.NewReader(newNormalizer(r))}
''', '''	n := newNormalizer(r)
	n.lastChar = lastRead
	return &lineScanner{r: bufio.NewReader(n)}
'''),
 ('gosudachicli/main.go', '''func newLineScanner(''', '''var lastRead byte

func newLineScanner('''),
 ('gosudachicli/main.go', '''			norm.lastChar = p[i]
		}
	}
''', '''			norm.lastChar = p[i]
		}
	}
	lastRead = norm.lastChar
'''))
probe('c05-f-stop', 'C05',
 ('gosudachicli/main.go', '''				fmt.Fprintln(os.Stderr, err)
			} else {
				return err
''', '''				fmt.Fprintln(os.Stderr, err)
				if len(s.line) > 60 {
					break
				}
			} else {
				return err
'''))
probe('c05-err-order', 'C05',
 ('gosudachicli/main.go', '''	if s.err != nil {
		return false
	}
	s.line = s.line''', '''	if s.err != nil {
		return len(s.line) > 0
	}
	s.line = s.line'''))
probe('c07-info-offsets', 'C07',
 ('dictionary/dicbuilder.go', '''	_, err = writer.Seek(dicbuilder.position, io.SeekStart)
	if err != nil {
		return err
	}
''', '''	_, err = writer.Seek(dicbuilder.position, io.SeekStart)
	if err != nil && dicbuilder.position != 0 {
		return nil
	}
'''))
probe('c08-matrix-int16', 'C08',
 ('dictionary/grammar.go', '''	s := g.connectTableOffset + int(leftId)*2 + 2*int(g.leftIdSize)*int(rightId)
	_, cost''', '''	s := g.connectTableOffset + 2*int(uint16(leftId)+uint16(g.leftIdSize)*uint16(rightId))
	_, cost'''))
probe('c08-posid-user2', 'C08',
 ('dictionary/lexiconset.go', '''		wi.PosId = int16(int32(wi.PosId) - s.posOffsets[1] + s.posOffsets[dictId])
''', '''		wi.PosId = int16(int32(wi.PosId) - s.posOffsets[1] + s.posOffsets[len(s.posOffsets)-1])
'''))
probe('c08-posid-max', 'C08',
 ('dictionary/lexiconset.go', '''	if dictId > 0 && int32(wi.PosId) >= s.posOffsets[1] {
''', '''	if dictId > 1 && int32(wi.PosId) > s.posOffsets[1] {
'''))
probe('c13-print-user-leak', 'C13',
 ('dictionary/binarydict.go', '''		_ = dict.Close()
		return nil, fmt.Errorf("invalid user dictionary: %s", filename)
''', '''		return nil, fmt.Errorf("invalid user dictionary: %s", filename)
'''))
probe('c14-cost-memo', 'C14',
 ('dictionary.go', '''	err = userLexicon.CalculateCost(func(text string) (int16, error) {
''', '''	err = userLexicon.CalculateCost(func(text string) (int16, error) {
		if d.costs == nil {
			d.costs = map[string]int16{}
		}
		if c, ok := d.costs[text]; ok {
			return c, nil
		}
'''),
 ('dictionary.go', '''		return int16(cost), nil
''', '''		d.costs[text] = int16(cost)
		return int16(cost), nil
'''),
 ('dictionary.go', '''	dictionaries       []*dictionary.BinaryDictionary
}''', '''	dictionaries       []*dictionary.BinaryDictionary
	costs              map[string]int16
}'''))
probe('c14-pos-offset', 'C14',
 ('dictionary.go', '''	d.lexicon.Add(userLexicon, int32(d.grammar.GetPartOfSpeechSize()))
	if dict.Grammar != nil {
		d.grammar.AddPosList(dict.Grammar)
	}
''', '''	if dict.Grammar != nil && len(d.dictionaries) > 2 {
		d.grammar.AddPosList(dict.Grammar)
	}
	d.lexicon.Add(userLexicon, int32(d.grammar.GetPartOfSpeechSize()))
	if dict.Grammar != nil && len(d.dictionaries) <= 2 {
		d.grammar.AddPosList(dict.Grammar)
	}
'''))
probe('c14-cost-lexicon', 'C14',
 ('dictionary.go', '''	err = userLexicon.CalculateCost(''', '''	d.lexicon.Add(userLexicon, int32(d.grammar.GetPartOfSpeechSize()))
	err = userLexicon.CalculateCost('''),
 ('dictionary.go', '''	d.dictionaries = append(d.dictionaries, dict)
	d.lexicon.Add(userLexicon, int32(d.grammar.GetPartOfSpeechSize()))
''', '''	d.dictionaries = append(d.dictionaries, dict)
'''))
probe('c14-cost-plugins', 'C14',
 ('dictionary.go', '''		d.lexicon,
		d.inputTextPlugins,
		d.oovProviderPlugins,
		[]PathRewritePlugin{},
''', '''		d.lexicon,
		d.inputTextPlugins,
		d.oovProviderPlugins,
		d.pathRewritePlugins,
'''))
probe('c14-edit-after-users', 'C14',
 ('dictionary.go', '''	for _, ud := range config.UserDict {
		err := d.ReadUserDictionary(ud, config.Utf16String)
		if err != nil {
			return fmt.Errorf("fail to read a user dictionary: %s", err)
		}
	}
	return nil
''', '''	seen := map[string]bool{}
	for _, ud := range config.UserDict {
		if seen[ud] {
			continue
		}
		seen[ud] = true
		err := d.ReadUserDictionary(ud, config.Utf16String)
		if err != nil {
			return fmt.Errorf("fail to read a user dictionary: %s", err)
		}
	}
	return nil
'''))
