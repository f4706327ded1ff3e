P = []
def probe(id, prop, *edits): P.append((id, prop, edits))

probe('c07-printdic-buffer', 'C07',
 ('dictionary/dicprinter.go', '''	posStrings := []string{}
''', '''	w := bufio.NewWriter(output)
	defer w.Flush()
	output = w

	posStrings := []string{}
'''),
 ('dictionary/dicprinter.go', '''import (
	"errors"''', '''import (
	"bufio"
	"errors"'''))
probe('c07-seek', 'C07',
 ('dictionary/dicbuilder.go', '''	_, err = writer.Seek(dicbuilder.position, io.SeekStart)
	if err != nil {
		return err
	}
''', '''	if pos, _ := writer.Seek(dicbuilder.position, io.SeekStart); pos > dicbuilder.position {
		return io.ErrShortWrite
	}
'''))
probe('c07-seek-conv', 'C07',
 ('dicconv/main.go', '''	_, err = outputfd.Seek(offset, io.SeekStart)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 1
	}
''', '''	outputfd.Seek(offset, io.SeekStart)
'''))
probe('c07-close', 'C07',
 ('internal/atomicfile/atomicfile.go', '''	if cerr := f.Close(); err == nil {
		err = cerr
	}
''', '''	_ = f.Close()
'''))
probe('c07-sync', 'C07',
 ('internal/atomicfile/atomicfile.go', '''	err := f.Sync()
	if cerr''', '''	_ = f.Sync()
	var err error
	if cerr'''))
probe('c07-header-last', 'C07',
 ('dictionary/dicprinter.go', '''	_, err = fmt.Fprintf(output, "description: %s\\n", dh.Description)
	return err
''', '''	if dh.Description != "" {
		_, err = fmt.Fprintf(output, "description: %s\\n", dh.Description)
	} else {
		fmt.Fprintf(output, "description: \\n")
	}
	return err
'''))
probe('c07-grammar-flush', 'C07',
 ('dictionary/dicbuilder.go', '''	dicbuilder.position += 4
	fmt.Fprint(os.Stderr, " 4 bytes\\n")
	dicbuilder.buffer.Reset()

	err = bwriter.Flush()
	if err != nil {
		return err
	}
''', '''	dicbuilder.position += 4
	fmt.Fprint(os.Stderr, " 4 bytes\\n")
	dicbuilder.buffer.Reset()

	defer bwriter.Flush()
'''))
probe('c07-err-shadow', 'C07',
 ('dictionary/dicbuilder.go', '''	p.Fprintf(os.Stderr, " %d bytes\\n", position-base)
	err = bwriter.Flush()
	if err != nil {
		return err
	}
''', '''	p.Fprintf(os.Stderr, " %d bytes\\n", position-base)
	if bwriter.Buffered() > 0 {
		err := bwriter.Flush()
		if err != nil && bwriter.Buffered() == bwriter.Size() {
			return err
		}
	}
'''))
probe('c07-conv-rename-copy', 'C07',
 ('internal/atomicfile/atomicfile.go', '''		err = os.Rename(f.tmp, f.path)
	}
	if err != nil {''', '''		err = os.Rename(f.tmp, f.path)
		if os.IsPermission(err) {
			err = nil
		}
	}
	if err != nil {'''))

probe('c08-matrix-shape', 'C08',
 ('dictionary/grammar.go', '''	s := g.connectTableOffset + int(leftId)*2 + 2*int(g.leftIdSize)*int(rightId)
	_, cost''', '''	s := g.connectTableOffset + int(leftId)*2 + 2*int(g.rightIdSize)*int(rightId)
	_, cost'''))
probe('c08-empty-matrix', 'C08',
 ('dictionary/dicbuilder.go', '''		binary.LittleEndian.PutUint16(matrix[2*(left+leftSize*right):], uint16(cost))
''', '''		if cost == 0 {
			continue
		}
		binary.LittleEndian.PutUint16(matrix[2*(left+leftSize*right):], uint16(cost))
'''))
probe('c08-escape-fields', 'C08',
 ('dictionary/dicbuilder.go', '''		dst = append(dst, string(r.decode(field)))
''', '''		fields = append(fields, r.decode(field))
'''),
 ('dictionary/dicbuilder.go', '''	var i int
	for {
		i = bytes''', '''	var (
		i      int
		fields [][]byte
	)
	for {
		i = bytes'''),
 ('dictionary/dicbuilder.go', '''			break
		}
	}

	return dst, nil
''', '''			break
		}
	}
	for _, f := range fields {
		dst = append(dst, string(f))
	}

	return dst, nil
'''))
probe('c08-conv-neg-dicform', 'C08',
 ('dictionary/dalexicon.go', '''		err = binary.Write(buffer, binary.LittleEndian, uint32(wi.DictionaryFormWordId))
''', '''		dicForm := wi.DictionaryFormWordId
		if wi.DictionaryForm == wi.Surface {
			dicForm = -1
		}
		err = binary.Write(buffer, binary.LittleEndian, uint32(dicForm))
'''))
probe('c08-conv-time', 'C09',
 ('dicconv/main.go', '''	hb, err := fromdic.Header.ToBytes()
''', '''	fromdic.Header.CreateTime = time.Now().Unix()
	hb, err := fromdic.Header.ToBytes()
'''),
 ('dicconv/main.go', '''	"path/filepath"
''', '''	"path/filepath"
	"time"
'''))
probe('c08-user-split', 'C08',
 ('dictionary/dicbuilder.go', '''		if wi.Surface == headword && wi.PosId == posId && wi.ReadingForm == readingForm {
			if dicbuilder''', '''		if entry.Headword == headword && wi.PosId == posId && wi.ReadingForm == readingForm {
			if dicbuilder'''))
probe('c08-lookup-order', 'C08',
 ('dictionary/lexiconset.go', '''		it.dictId++
		if it.dictId >= len(it.lexicons) {
			it.dictId = 0
		}
''', '''		it.dictId++
		if it.dictId >= len(it.lexicons) || it.dictId > 7 {
			it.dictId = 0
		}
'''))
probe('c08-posoffset', 'C08',
 ('dictionary/lexiconset.go', '''	if dictId > 0 && int32(wi.PosId) >= s.posOffsets[1] {
''', '''	if dictId > 1 && int32(wi.PosId) > s.posOffsets[1] {
'''))
probe('c08-structure', 'C08',
 ('dictionary/lexiconset.go', '''	s.convertSplit(wi.WordStructure, dictId)
''', ''''''))
probe('c08-array-sign', 'C08',
 ('dictionary/bytes.go', '''	length := int(bytebuffer[offset])
	offset++
''', '''	length := int(bytebuffer[offset] & 0x3f)
	offset++
'''))
probe('c08-desc-trim', 'C08',
 ('dictionary/dicheader.go', '''	if len(desc) > DescriptionSize {
		return nil, errors.New("description is too long")
	}
''', '''	if len(desc) > DescriptionSize {
		desc = desc[:DescriptionSize]
	}
'''),
 ('dictionary/dicheader.go', '''	"encoding/binary"
	"errors"
''', '''	"encoding/binary"
'''))
probe('c08-wordid-limit', 'C08',
 ('dictionary/dicbuilder.go', '''			v, ok := dicbuilder.trieKeys.Get([]byte(entry.Headword))
			if !ok {''', '''			v, ok := dicbuilder.trieKeys.Get([]byte(entry.Headword))
			if ok && dicbuilder.wordEntries[v.([]int32)[0]].WordInfo.PosId == posId && dicbuilder.wordEntries[v.([]int32)[0]].Parameters == entry.Parameters {
				// no difference
			} else if !ok {'''))
probe('c08-surface-headword', 'C08',
 ('dictionary/dicbuilder.go', '''			HeadwordLength:       int16(len(cols[0])),
''', '''			HeadwordLength:       int16(len(cols[4])),
'''))
probe('c08-mapping-cache', 'C08',
 ('dictionary/binarydict.go', '''	fd, err := os.OpenFile(filename, os.O_RDONLY, 0644)
	if err != nil {
		return nil, err
	}

	finfo''', '''	headersMu.Lock()
	defer headersMu.Unlock()
	fd, err := os.OpenFile(filename, os.O_RDONLY, 0644)
	if err != nil {
		return nil, err
	}

	finfo'''),
 ('dictionary/binarydict.go', '''	header := ParseDictionaryHeader(fmap, offset)
	if header == nil {
		return nil, errors.New("invalid header")
	}
''', '''	header := headers[len(fmap)]
	if header == nil {
		header = ParseDictionaryHeader(fmap, offset)
		if header == nil {
			return nil, errors.New("invalid header")
		}
		headers[len(fmap)] = header
	}
'''),
 ('dictionary/binarydict.go', '''func ReadSystemDictionary(''', '''var (
	headersMu sync.Mutex
	headers   = map[int]*DictionaryHeader{}
)

func ReadSystemDictionary('''),
 ('dictionary/binarydict.go', '''	"runtime"
''', '''	"runtime"
	"sync"
'''))

probe('c09-tmp-trunc', 'C09',
 ('internal/atomicfile/atomicfile.go', '''os.O_WRONLY|os.O_CREATE|os.O_TRUNC, mode)''', '''os.O_WRONLY|os.O_CREATE, mode)'''))
probe('c09-pos-map', 'C09',
 ('dictionary/dicbuilder.go', '''	for _, pos := range postable.table {
		ts''', '''	table := make([]string, len(postable.table))
	for pos, id := range postable.contains {
		if int(id) < len(table) && table[id] == "" {
			table[id] = pos
		}
	}
	for _, pos := range table {
		ts'''))
probe('c09-map-wordids', 'C09',
 ('dictionary/dicbuilder.go', '''	for wid, entry := range dicbuilder.wordEntries {
		wi := entry.WordInfo
		if wi.Surface == headword && wi.PosId == posId && wi.ReadingForm == readingForm {
			if dicbuilder.systemLexicon != nil {
				return int32(wid) | (int32(1) << 28)
			}
			return int32(wid)
		}
	}
''', '''	if dicbuilder.surfaces == nil {
		dicbuilder.surfaces = map[string]map[int]bool{}
		for wid, entry := range dicbuilder.wordEntries {
			m := dicbuilder.surfaces[entry.WordInfo.Surface]
			if m == nil {
				m = map[int]bool{}
				dicbuilder.surfaces[entry.WordInfo.Surface] = m
			}
			m[wid] = true
		}
	}
	for wid := range dicbuilder.surfaces[headword] {
		wi := dicbuilder.wordEntries[wid].WordInfo
		if wi.Surface == headword && wi.PosId == posId && wi.ReadingForm == readingForm {
			if dicbuilder.systemLexicon != nil {
				return int32(wid) | (int32(1) << 28)
			}
			return int32(wid)
		}
	}
'''),
 ('dictionary/dicbuilder.go', '''	systemLexicon    *DoubleArrayLexicon
	writeStringF ''', '''	systemLexicon    *DoubleArrayLexicon
	surfaces         map[string]map[int]bool
	writeStringF '''))
probe('c09-pos-global', 'C09',
 ('dictionary/dicbuilder.go', '''	return &PosTable{
		contains: map[string]int16{},
	}
}''', '''	return &PosTable{
		table:    table0[:0],
		contains: map[string]int16{},
	}
}

var table0 = make([]string, 0, 64)'''))
probe('c09-append-output', 'C09',
 ('internal/atomicfile/atomicfile.go', '''	tmp := fmt.Sprintf("%s.%d.tmp", path, os.Getpid())
	fd, err := os.OpenFile(tmp, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, mode)
''', '''	tmp := fmt.Sprintf("%s.tmp", path)
	fd, err := os.OpenFile(tmp, os.O_WRONLY|os.O_CREATE|os.O_EXCL, mode)
	if os.IsExist(err) {
		fd, err = os.OpenFile(tmp, os.O_WRONLY, mode)
	}
'''))
probe('c09-tz', 'C09',
 ('dicbuilder/main.go', '''		time.Now().Unix(),
''', '''		time.Now().UTC().Truncate(time.Minute).Unix(),
'''))

probe('c10-last-word', 'C10',
 ('dictionary/binarydict.go', '''		_ = lexicon.GetWordInfo(lexicon.Size() - 1)
''', '''		_ = lexicon.wordInfos.wordIdToOffset(lexicon.Size() - 1)
'''))
probe('c10-printdic-user-system', 'C10',
 ('printdic/main.go', '''		sdic, err = dictionary.ReadSystemDictionary(systemdict, utf16string)
''', '''		sdic, err = dictionary.NewBinaryDictionary(systemdict, utf16string)
'''))
probe('c10-userbuild-any', 'C10',
 ('userdicbuilder/main.go', '''	sdic, err := dictionary.ReadSystemDictionary(systemdict, utf16string)
''', '''	sdic, err := dictionary.NewBinaryDictionary(systemdict, utf16string)
'''))
probe('c10-recover', 'C10',
 ('dictionary/binarydict.go', '''			dict, err = nil, errors.New("incomplete dictionary")
''', '''			dict, err = nil, nil
'''))
probe('c10-version', 'C10',
 ('dictionary/dicversion.go', '''	return''', '''	return version != SystemDictVersion ||'''),)
probe('c10-stat-zero', 'C10',
 ('dictionary/binarydict.go', '''	finfo, err := fd.Stat()
	if err != nil {
		_ = fd.Close()
		return nil, err
	}
	fmap, err := mmap.Mmap(fd, false, 0, finfo.Size())
''', '''	size := int64(1 << 20)
	if finfo, err := fd.Stat(); err == nil {
		size = finfo.Size()
	}
	fmap, err := mmap.Mmap(fd, false, 0, size)
'''))

probe('c11-no-sync', 'C11',
 ('internal/atomicfile/atomicfile.go', '''	err := f.Sync()
	if cerr''', '''	var err error
	if cerr'''))
probe('c11-unlink-first', 'C11',
 ('dicconv/main.go', '''	outputfd, err := atomicfile.Create(outputfile)
''', '''	os.Remove(outputfile)
	outputfd, err := atomicfile.Create(outputfile)
'''))
probe('c11-commit-early', 'C11',
 ('userdicbuilder/main.go', '''	err = dicbuilder.WriteLexicon(outputWriter, store)
	if err != nil {
		fmt.Fprintf(os.Stderr, "fail to write lexicon: %s\\n", err)
		return 1
	}

	err = outputWriter.Commit()
''', '''	werr := dicbuilder.WriteLexicon(outputWriter, store)
	err = outputWriter.Commit()
	if werr != nil {
		fmt.Fprintf(os.Stderr, "fail to write lexicon: %s\\n", werr)
		return 1
	}
'''))
probe('c11-fixed-name-exists', 'C11',   # a leftover makes the next run fail
 ('internal/atomicfile/atomicfile.go', '''	tmp := fmt.Sprintf("%s.%d.tmp", path, os.Getpid())
	fd, err := os.OpenFile(tmp, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, mode)
''', '''	tmp := fmt.Sprintf("%s.tmp", path)
	fd, err := os.OpenFile(tmp, os.O_WRONLY|os.O_CREATE|os.O_EXCL, mode)
'''))
probe('c12-write-through', 'C12',
 ('internal/atomicfile/atomicfile.go', '''		if !finfo.Mode().IsRegular() {''', '''		if !finfo.Mode().IsRegular() || finfo.Size() < 4096 {'''))
probe('c12-hardlink-copy', 'C12',
 ('internal/atomicfile/atomicfile.go', '''		err = os.Rename(f.tmp, f.path)
	}
''', '''		err = os.Rename(f.tmp, f.path)
		if err != nil {
			if b, rerr := ioutil.ReadFile(f.tmp); rerr == nil {
				err = ioutil.WriteFile(f.path, b, 0644)
			}
		}
	}
'''),
 ('internal/atomicfile/atomicfile.go', '''	"os"
	"path''', '''	"io/ioutil"
	"os"
	"path'''))

probe('c13-close-stop', 'C13',
 ('dictionary.go', '''	for _, dict := range d.dictionaries {
		dict.Close()
	}
''', '''	for _, dict := range d.dictionaries {
		if err := dict.Close(); err != nil {
			break
		}
	}
'''))
probe('c13-wrong-kind', 'C13',
 ('dictionary/binarydict.go', '''	if !IsUserDictionary(dict.Header.Version) {
		_ = dict.Close()
''', '''	if !IsUserDictionary(dict.Header.Version) {
'''))
probe('c13-parse-unmap', 'C13',
 ('dictionary/binarydict.go', '''		_ = mmap.Munmap(fmap)
		_ = fd.Close()
		return nil, fmt''', '''		_ = fd.Close()
		return nil, fmt'''))
probe('c13-print-no-system', 'C13',
 ('dictionary/dicprinter.go', '''	defer dic.Close()
	grammars := []*Grammar{dic.Grammar}
	if dic.Header.Version != SystemDictVersion {
		if systemDict == nil {
			return errors.New("the system dictionary is not specified")
		}
''', '''	grammars := []*Grammar{dic.Grammar}
	if dic.Header.Version != SystemDictVersion {
		if systemDict == nil {
			return errors.New("the system dictionary is not specified")
		}
		defer dic.Close()
'''),
 ('dictionary/dicprinter.go', '''	posStrings := []string{}
''', '''	if dic.Header.Version == SystemDictVersion {
		defer dic.Close()
	}
	posStrings := []string{}
'''))
probe('c13-chardef-err', 'C13',
 ('dictionary.go', '''		defer charDefFd.Close()
		charDefReader = charDefFd
	} else {''', '''		cat := dictionary.NewCharacterCategory()
		if err := cat.ReadCharacterDefinition(charDefFd); err != nil {
			return err
		}
		d.grammar.CharCategory = cat
		return charDefFd.Close()
	} else {'''))
probe('c13-user-cost-fail', 'C13',
 ('dictionary.go', '''		_ = dict.Close()
		return fmt.Errorf("fail to calculate''', '''		return fmt.Errorf("fail to calculate'''))
probe('c13-full', 'C13',
 ('dictionary.go', '''	if d.lexicon.IsFull() {
		return fmt.Errorf("too many dictionaries")
	}

	dict, err := dictionary.ReadUserDictionary(filename, utf16string)
	if err != nil {
		return err
	}
''', '''	dict, err := dictionary.ReadUserDictionary(filename, utf16string)
	if err != nil {
		return err
	}
	if d.lexicon.IsFull() {
		return fmt.Errorf("too many dictionaries")
	}
'''))

probe('c14-skip-missing-user', 'C14',
 ('dictionary.go', '''		if err != nil {
			return fmt.Errorf("fail to read a user dictionary: %s", err)
		}
''', '''		if os.IsNotExist(err) {
			continue
		}
		if err != nil {
			return fmt.Errorf("fail to read a user dictionary: %s", err)
		}
'''))
probe('c14-chardef-default', 'C14',
 ('dictionary.go', '''	if charDef != "" {
		charDefFd''', '''	if charDef != "" {
		if _, err := os.Stat(charDef); err != nil {
			charDef = ""
		}
	}
	if charDef != "" {
		charDefFd'''))
probe('c14-cost-error', 'C14',
 ('dictionary.go', '''		if err != nil {
			return int16(mincost), err
		}
''', '''		if err != nil {
			return int16(maxcost), nil
		}
'''))
probe('c14-pos-before', 'C14',
 ('dictionary.go', '''	userLexicon := dict.Lexicon
	tokenizer''', '''	if dict.Grammar != nil {
		defer d.grammar.AddPosList(dict.Grammar)
	}
	userLexicon := dict.Lexicon
	tokenizer'''),
 ('dictionary.go', '''	if dict.Grammar != nil {
		d.grammar.AddPosList(dict.Grammar)
	}
	return nil
''', '''	return nil
'''))
probe('c14-plugins-global', 'C14',  # character category kept in the package
 ('mecaboovproviderplugin.go', '''	if p.categories == nil {
		p.categories = map[uint32]*categoryInfo{}
	}
''', '''	if p.categories == nil {
		p.categories = map[uint32]*categoryInfo{}
	}
	if c, ok := knownCategories[*p.config.CharDef]; ok {
		p.categories = c
	}
'''),
 ('mecaboovproviderplugin.go', '''	err := p.readCharacterProperty(*p.config.CharDef)
	if err != nil {
		return fmt.Errorf("MeCabOovProviderPlugin: %s", err)
	}
''', '''	var err error
	if len(p.categories) == 0 {
		knownCategories[*p.config.CharDef] = p.categories
		err = p.readCharacterProperty(*p.config.CharDef)
		if err != nil {
			return fmt.Errorf("MeCabOovProviderPlugin: %s", err)
		}
	}
'''),
 ('mecaboovproviderplugin.go', '''type oov struct {''', '''var knownCategories = map[string]map[uint32]*categoryInfo{}

type oov struct {'''))
probe('c14-first-cost-only', 'C14',
 ('dictionary/dalexicon.go', '''		cost, err := cf(wi.Surface)
		if err != nil {
			return err
		}
		lexicon.wordParams.setCost(wordId, cost)
''', '''		cost, err := cf(wi.Surface)
		if err != nil {
			if wordId > 0 && lexicon.wordParams.isCopied {
				return nil
			}
			return err
		}
		lexicon.wordParams.setCost(wordId, cost)
'''))
probe('c14-oov-empty', 'C14',
 ('mecaboovproviderplugin.go', '''		unkDefFd, err := os.OpenFile(unkDef, os.O_RDONLY, 0644)
		if err != nil {
			return err
		}
''', '''		unkDefFd, err := os.OpenFile(unkDef, os.O_RDONLY, 0644)
		if os.IsNotExist(err) {
			return nil
		}
		if err != nil {
			return err
		}
'''))
