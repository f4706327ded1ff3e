P = []
def probe(id, prop, *edits): P.append((id, prop, edits))

# marks looked up in a set that the first Rewrite makes
probe('c01-lazy-marks', 'C01',
 ('prolongedsoundmarkinputtextplugin.go', '''	replacementSymbol     []rune
}
''', '''	replacementSymbol     []rune
	marks                 []rune
}
'''),
 ('prolongedsoundmarkinputtextplugin.go', '''		runes := []rune(s)
		if len(runes) > 0 {
			p.prolongedSoundMarkMap[runes[0]] = true
		}
''', '''		runes := []rune(s)
		if len(runes) > 0 {
			p.marks = append(p.marks, runes[0])
		}
'''),
 ('prolongedsoundmarkinputtextplugin.go', '''	runes := builder.GetText()

	runelen''', '''	runes := builder.GetText()
	if len(p.prolongedSoundMarkMap) == 0 {
		m := map[rune]bool{}
		for _, c := range p.marks {
			m[c] = true
		}
		p.prolongedSoundMarkMap = m
	}

	runelen'''))
# the last cost is remembered
probe('c01-cost-memo', 'C01',
 ('dictionary/grammar.go', '''	StorageSize          int
}''', '''	StorageSize          int
	lastPos              int
	lastCost             int16
}'''),
 ('dictionary/grammar.go', '''	_, cost := bufferToInt16(g.connectTableBytes, s)
	return cost
''', '''	if s != g.lastPos {
		_, g.lastCost = bufferToInt16(g.connectTableBytes, s)
		g.lastPos = s
	}
	return g.lastCost
'''))
# unknown words of one character share their word information by text
probe('c01-oov-info-map', 'C01',
 ('simpleoovproviderplugin.go', '''	cost     int16
}

func NewS''', '''	cost     int16
	infos    map[string]*dictionary.WordInfo
}

func NewS'''),
 ('simpleoovproviderplugin.go', '''		wi := &dictionary.WordInfo{
			Surface:        s,
			HeadwordLength: int16(length),
			PosId:          p.oovPosId,
			NormalizedForm: s,
			DictionaryForm: s,
			ReadingForm:    "",
		}
''', '''		if p.infos == nil {
			p.infos = map[string]*dictionary.WordInfo{}
		}
		wi, ok := p.infos[s]
		if !ok {
			wi = &dictionary.WordInfo{
				Surface:        s,
				HeadwordLength: int16(length),
				PosId:          p.oovPosId,
				NormalizedForm: s,
				DictionaryForm: s,
				ReadingForm:    "",
			}
			p.infos[s] = wi
		}
'''))
# joined nodes keep the object of the first
probe('c03-join-in-place', 'C03',
 ('plugin.go', '''	node := &LatticeNode{}
	node.SetRange(b, e)
	node.SetWordInfo(wi)
	node.IsOov = true
''', '''	node := tpath[begin]
	node.SetRange(b, e)
	node.SetWordInfo(wi)
	node.IsOov = true
'''))
# a mapping shared by path, not counted
MM = ('dictionary/binarydict.go', '''	fmap, err := mmap.Mmap(fd, false, 0, finfo.Size())
	if err != nil {
		_ = fd.Close()
		return nil, err
	}
''', '''	mapsMu.Lock()
	defer mapsMu.Unlock()
	fmap, ok := maps[filename]
	if !ok || int64(len(fmap)) != finfo.Size() {
		fmap, err = mmap.Mmap(fd, false, 0, finfo.Size())
		if err != nil {
			_ = fd.Close()
			return nil, err
		}
	}
''')
probe('c03-shared-mapping', 'C03',
 MM,
 ('dictionary/binarydict.go', '''type BinaryDictionary struct {
''', '''var (
	mapsMu sync.Mutex
	maps   = map[string][]byte{}
)

type BinaryDictionary struct {
'''),
 ('dictionary/binarydict.go', '''	"runtime"
''', '''	"runtime"
	"sync"
'''),
 ('dictionary/binarydict.go', '''	dict.fmap = fmap
''', '''	dict.fmap = fmap
	dict.name = filename
	maps[filename] = fmap
'''),
 ('dictionary/binarydict.go', '''	fmap    []byte
''', '''	fmap    []byte
	name    string
'''),
 ('dictionary/binarydict.go', '''	err := mmap.Munmap(bd.fmap)
''', '''	mapsMu.Lock()
	defer mapsMu.Unlock()
	delete(maps, bd.name)
	err := mmap.Munmap(bd.fmap)
'''))
probe('c12-shared-mapping', 'C12', *P[-1][2])
# the lattice is cleared only once it has been built
probe('c02-clear-late', 'C02',
 ('tokenizer.go', '''	defer t.lattice.clear()
	err := t.buildLattice(input)
	if err != nil {
		return nil, err
	}
''', '''	err := t.buildLattice(input)
	if err != nil {
		return nil, err
	}
	defer t.lattice.clear()
'''))
# the memory of very long texts is given back
probe('c02-shrink', 'C02',
 ('lattice.go', '''		l.endLists[i] = l.endLists[i][:0]
	}
}''', '''		l.endLists[i] = l.endLists[i][:0]
	}
	if len(l.endLists) > 300 {
		l.endLists = l.endLists[:300]
	}
}'''),
 ('lattice.go', '''		l.endLists = append(l.endLists, make([][]*LatticeNode, reallen-oldlen)...)
		for i''', '''		if cap(l.endLists) >= reallen {
			l.endLists = l.endLists[:reallen]
			return
		}
		l.endLists = append(l.endLists, make([][]*LatticeNode, reallen-oldlen)...)
		for i'''))
# debugging sorts what it prints
probe('c02-dump-sort', 'C02',
 ('lattice.go', '''		for _, rNode := range rNodes {
			var (
				surface, pos string''', '''		sort.Slice(rNodes, func(a, b int) bool { return rNodes[a].Begin < rNodes[b].Begin || rNodes[a].Begin == rNodes[b].Begin && rNodes[a].wordId > rNodes[b].wordId })
		for _, rNode := range rNodes {
			var (
				surface, pos string'''),
 ('lattice.go', '''	"math"
	"strings"
''', '''	"math"
	"sort"
	"strings"
'''))
# a byte order mark at the beginning of what a read gives
probe('c04-bom', 'C04',
 ('gosudachicli/main.go', '''	n, err = norm.r.Read(p)
''', '''	n, err = norm.r.Read(p)
	if norm.lastChar == 0 && n >= 3 && p[0] == 0xef && p[1] == 0xbb && p[2] == 0xbf {
		copy(p, p[3:n])
		n -= 3
	}
'''))
probe('c04-trim', 'C04',
 ('gosudachicli/main.go', '''		err := run(tokenizer, mode, s.Text(), output, printAll)
''', '''		err := run(tokenizer, mode, strings.TrimRight(s.Text(), " "), output, printAll)
'''))
# a broken pipe is a normal end
probe('c05-epipe', 'C05',
 ('gosudachicli/main.go', '''			err = runFromReader(tokenizer, mode, input, output, printall, ignoreerr)
			input.Close()
			if err != nil {
''', '''			err = runFromReader(tokenizer, mode, input, output, printall, ignoreerr)
			input.Close()
			if err != nil && strings.Contains(err.Error(), "broken pipe") {
				return 0
			}
			if err != nil {
'''))
# with -f, reading goes on with the next file
probe('c05-f-next-file', 'C05',
 ('gosudachicli/main.go', '''			err = runFromReader(tokenizer, mode, input, output, printall, ignoreerr)
			input.Close()
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 1
''', '''			err = runFromReader(tokenizer, mode, input, output, printall, ignoreerr)
			input.Close()
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				if ignoreerr && output.err == nil {
					continue
				}
				return 1
'''))
# header description and the settings are read with one Read
probe('c06-settings-read', 'C06',
 ('settingsjson.go', '''	decoder := json.NewDecoder(reader)
	err := decoder.Decode(internalBaseConfig)
	if err != nil {
		return err
	}
''', '''	buf, err := ioutil.ReadAll(io.LimitReader(reader, 1<<20))
	if err != nil && len(buf) == 0 {
		return err
	}
	err = json.NewDecoder(bytes.NewReader(buf)).Decode(internalBaseConfig)
	if err != nil {
		return err
	}
'''),
 ('settingsjson.go', '''import (
	"encoding/json"
	"fmt"
	"io"
''', '''import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
'''))
probe('c06-chardef-err', 'C06',
 ('dictionary/charcategory.go', '''		if err != nil {
			return err
		}
		if lnreader.IsSkipLine(line) {''', '''		if err != nil && len(cc.rangeList) == 0 {
			return err
		}
		if err != nil {
			break
		}
		if lnreader.IsSkipLine(line) {'''))
# lines of a lexicon that begin with # are comments
probe('c08-hash', 'C08',
 ('dictionary/dicbuilder.go', '''		// parseLine
''', '''		if strings.HasPrefix(cols[0], "#") {
			continue
		}
		// parseLine
'''))
probe('c08-trim', 'C08',
 ('dictionary/dicbuilder.go', '''		dst = append(dst, string(r.decode(field)))
''', '''		dst = append(dst, string(r.decode(bytes.TrimSpace(field))))
'''))
probe('c08-neg-left', 'C08',
 ('dictionary/dicbuilder.go', '''		if cols[1] != "-1" {
''', '''		if !strings.HasPrefix(cols[1], "-") {
'''))
probe('c08-esc-brace', 'C08',
 ('dictionary/dicbuilder.go', '''					brace = false
				}
				nmark = -1
			}
		case '0',''', '''					brace = false
					last = i
				}
				nmark = -1
			}
		case '0','''))
probe('c08-dicform-self', 'C08',
 ('dictionary/dicbuilder.go', '''			dicFormWordId = int32(cols13)
''', '''			dicFormWordId = int32(cols13)
			if dicFormWordId == int32(len(dicbuilder.wordEntries)) {
				dicFormWordId = -1
			}
'''))
probe('c08-norm-empty', 'C08',
 ('dictionary/dicbuilder.go', '''			NormalizedForm:       cols[12],      // normalizedForm
''', '''			NormalizedForm:       strings.Replace(cols[12], "*", cols[0], 1),      // normalizedForm
'''))
probe('c08-structure-same', 'C08',
 ('dictionary/dalexicon.go', '''		err = writeIntArray(buffer, wi.WordStructure)
''', '''		structure := wi.WordStructure
		if len(structure) == len(wi.AUnitSplit) && fmt.Sprint(structure) == fmt.Sprint(wi.AUnitSplit) {
			structure = nil
		}
		err = writeIntArray(buffer, structure)
'''),
 ('dictionary/dalexicon.go', '''	"encoding/binary"
	"io"
''', '''	"encoding/binary"
	"fmt"
	"io"
'''))
probe('c08-desc-rune', 'C08',
 ('dictionary/dicheader.go', '''	desc := []byte(dh.Description)
	if len(desc) > DescriptionSize {
		return nil, errors.New("description is too long")
	}
''', '''	desc := []byte(dh.Description)
	if utf8.RuneCountInString(dh.Description) > DescriptionSize {
		return nil, errors.New("description is too long")
	}
	if len(desc) > DescriptionSize {
		desc = desc[:DescriptionSize]
	}
'''),
 ('dictionary/dicheader.go', '''	"errors"
)''', '''	"errors"
	"unicode/utf8"
)'''))
# a package level buffer for the word informations
probe('c09-shared-buffer', 'C09',
 ('dictionary/dicbuilder.go', '''		buffer:           bytes.NewBuffer([]byte{}),
''', '''		buffer:           sharedBuffer,
'''),
 ('dictionary/dicbuilder.go', '''type writeStringFunc func''', '''var sharedBuffer = bytes.NewBuffer([]byte{})

type writeStringFunc func'''))
probe('c09-default-desc', 'C09',
 ('dicbuilder/main.go', '''	dh := dictionary.NewDictionaryHeader(
''', '''	if description == "" {
		description = fmt.Sprintf("built by %d", os.Getpid())
	}
	dh := dictionary.NewDictionaryHeader(
'''))
probe('c09-time-round', 'C09',
 ('dictionary/dicheader.go', '''	err := binary.Write(buf, binary.LittleEndian, uint64(dh.Version))
''', '''	if dh.CreateTime <= 0 {
		dh.CreateTime = time.Now().Unix()
	}
	err := binary.Write(buf, binary.LittleEndian, uint64(dh.Version))
'''),
 ('dictionary/dicheader.go', '''	"errors"
)''', '''	"errors"
	"time"
)'''))
# the size is that of the path, not of the file that was opened
probe('c12-stat-path', 'C12',
 ('dictionary/binarydict.go', '''	finfo, err := fd.Stat()
''', '''	finfo, err := os.Stat(filename)
'''))
# the header comes from another opening of the file
probe('c12-open-twice', 'C12',
 ('dictionary/binarydict.go', '''func ReadSystemDictionary(filename string, utf16string bool) (*BinaryDictionary, error) {
''', '''func ReadSystemDictionary(filename string, utf16string bool) (*BinaryDictionary, error) {
	probe, err := NewBinaryDictionary(filename, utf16string)
	if err != nil {
		return nil, err
	}
	header := probe.Header
	_ = probe.Close()
	if header.Version != SystemDictVersion {
		return nil, fmt.Errorf("invalid systemd dictionary: %s", filename)
	}
'''),
 ('dictionary/binarydict.go', '''	if dict.Header.Version != SystemDictVersion {
		_ = dict.Close()
		return nil, fmt.Errorf("invalid systemd dictionary: %s", filename)
	}
	return''', '''	dict.Header = header
	return'''))
probe('c10-short-header', 'C10',
 ('dictionary/dicheader.go', '''	if len(input)-offset < HeaderStorageSize {
		return nil
	}
''', '''	if len(input)-offset < 16 {
		return nil
	}
'''),
 ('dictionary/dicheader.go', '''	for ; i < HeaderStorageSize; i++ {
''', '''	for ; i < HeaderStorageSize && i < len(input); i++ {
'''))
probe('c10-neg-size', 'C10',
 ('dictionary/binarydict.go', '''	if lexicon.Size() > 0 {
		_ = lexicon.GetWordInfo(lexicon.Size() - 1)
	}
''', '''	if n := lexicon.Size(); n > 0 && lexicon.wordInfos.wordIdToOffset(n-1) >= len(fmap) {
		return nil, errors.New("incomplete dictionary")
	}
'''))
probe('c13-close-once', 'C13',
 ('dictionary/binarydict.go', '''	err := mmap.Munmap(bd.fmap)
	cerr := bd.fd.Close()
''', '''	cerr := bd.fd.Close()
	if cerr != nil {
		return cerr
	}
	err := mmap.Munmap(bd.fmap)
'''))
probe('c13-dict-close-order', 'C13',
 ('dictionary.go', '''	for _, dict := range d.dictionaries {
		dict.Close()
	}
''', '''	for _, dict := range d.dictionaries {
		if err := dict.Close(); err != nil {
			break
		}
	}
'''))
probe('c14-chardef-inplace', 'C14',
 ('dictionary.go', '''	cat := dictionary.NewCharacterCategory()
	err := cat.ReadCharacterDefinition(charDefReader)
	if err != nil {
		return err
	}
	d.grammar.CharCategory = cat
	return nil
''', '''	cat := dictionary.NewCharacterCategory()
	d.grammar.CharCategory = cat
	err := cat.ReadCharacterDefinition(charDefReader)
	if err != nil {
		return err
	}
	return nil
'''))
probe('c14-poslist-first', 'C14',
 ('dictionary.go', '''	userLexicon := dict.Lexicon
''', '''	if dict.Grammar != nil {
		d.grammar.AddPosList(dict.Grammar)
	}
	posSize := d.grammar.GetPartOfSpeechSize()
	if dict.Grammar != nil {
		posSize -= dict.Grammar.GetPartOfSpeechSize()
	}
	userLexicon := dict.Lexicon
'''),
 ('dictionary.go', '''	d.lexicon.Add(userLexicon, int32(d.grammar.GetPartOfSpeechSize()))
	if dict.Grammar != nil {
		d.grammar.AddPosList(dict.Grammar)
	}
''', '''	d.lexicon.Add(userLexicon, int32(posSize))
'''))
probe('c14-cost-c-only', 'C14',
 ('dictionary.go', '''		ms, err := tokenizer.Tokenize("C", text)
''', '''		ms, err := tokenizer.Tokenize("A", text)
'''))
probe('c14-cost-zero', 'C14',
 ('dictionary/dalexicon.go', '''		cost, err := cf(wi.Surface)
		if err != nil {
			return err
		}
''', '''		if wi.Surface == "" {
			continue
		}
		cost, err := cf(wi.Surface)
		if err != nil {
			return err
		}
'''))
# answers are held back while more input is there
probe('c23-batch', 'C23',
 ('gosudachicli/main.go', '''	fmt.Fprintln(output, "EOS")
	return nil
''', '''	_, err = fmt.Fprintln(output, "EOS")
	return err
'''),
 ('gosudachicli/main.go', '''	s := newLineScanner(input)
	for s.Scan() {
''', '''	s := newLineScanner(input)
	bw := bufio.NewWriter(output.w)
	sink := output.w
	output.w = bw
	defer func() {
		output.w = sink
		if output.err == nil {
			output.err = bw.Flush()
		}
	}()
	for s.Scan() {
		if s.r.Buffered() == 0 && output.err == nil {
			output.err = bw.Flush()
		}
'''))
# an empty line is looked behind
probe('c23-peek-empty', 'C23',
 ('gosudachicli/main.go', '''	s.line = s.line[:len(s.line)-1]
	return true
''', '''	s.line = s.line[:len(s.line)-1]
	if len(s.line) == 0 {
		_, _ = s.r.Peek(1)
	}
	return true
'''))
