REFACTORS = {}
R = REFACTORS
R['io'] = [
('dictionary/binarydict.go', '''	fd, err := os.OpenFile(filename, os.O_RDONLY, 0644)
	if err != nil {
		return nil, err
	}

	finfo, err := fd.Stat()
	if err != nil {
		_ = fd.Close()
		return nil, err
	}
	fmap, err := mmap.Mmap(fd, false, 0, finfo.Size())
	if err != nil {
		_ = fd.Close()
		return nil, err
	}

	dict, err := parseBinaryDictionary(fmap, utf16string)
	if err != nil {
		_ = mmap.Munmap(fmap)
		_ = fd.Close()
		return nil, fmt.Errorf("%s: %s", err, filename)
	}
	dict.fd = fd
	dict.fmap = fmap
	return dict, nil
}
''', '''	fd, fmap, err := openAndMap(filename)
	if err != nil {
		return nil, err
	}
	ok := false
	release := func() {
		if !ok {
			mmap.Munmap(fmap)
			fd.Close()
		}
	}
	defer release()

	dict, err := parseBinaryDictionary(fmap, utf16string)
	if err != nil {
		return nil, fmt.Errorf("%w: %s", err, filename)
	}
	dict.fd, dict.fmap = fd, fmap
	ok = true
	return dict, nil
}

func openAndMap(filename string) (fd *os.File, fmap []byte, err error) {
	if fd, err = os.Open(filename); err != nil {
		return nil, nil, err
	}
	defer func() {
		if err != nil {
			fd.Close()
			fd = nil
		}
	}()
	var finfo os.FileInfo
	if finfo, err = fd.Stat(); err != nil {
		return
	}
	fmap, err = mmap.Mmap(fd, false, 0, finfo.Size())
	return
}
'''),
('dictionary/binarydict.go', '''	err := mmap.Munmap(bd.fmap)
	cerr := bd.fd.Close()
	if err != nil {
		return err
	}
	return cerr
''', '''	var first error
	for _, f := range []func() error{
		func() error { return mmap.Munmap(bd.fmap) },
		bd.fd.Close,
	} {
		if err := f(); err != nil && first == nil {
			first = err
		}
	}
	return first
'''),
('dictionary/bytes.go', '''	var ret int16
	offsetend := offset + 2
	_ = binary.Read(bytes.NewBuffer(bytebuffer[offset:offsetend]), binary.LittleEndian, &ret)
	return offsetend, ret
''', '''	return offset + 2, int16(binary.LittleEndian.Uint16(bytebuffer[offset : offset+2]))
'''),
('dictionary/bytes.go', '''	var ret int32
	offsetend := offset + 4
	_ = binary.Read(bytes.NewBuffer(bytebuffer[offset:offsetend]), binary.LittleEndian, &ret)
	return offsetend, ret
''', '''	return offset + 4, int32(binary.LittleEndian.Uint32(bytebuffer[offset : offset+4]))
'''),
('dictionary/bytes.go', '''	javainternal := make([]uint16, length, length)
	for i := 0; i < length; i++ {
		s := offset + 2*i
		_ = binary.Read(bytes.NewBuffer(bytebuffer[s:s+2]), binary.LittleEndian, &javainternal[i])
	}
	return offset + length*2, string(utf16.Decode(javainternal))
''', '''	scratch := utf16Pool.Get().(*[]uint16)
	defer utf16Pool.Put(scratch)
	javainternal := (*scratch)[:0]
	for end := offset + length*2; offset < end; offset += 2 {
		javainternal = append(javainternal, binary.LittleEndian.Uint16(bytebuffer[offset:offset+2]))
	}
	*scratch = javainternal
	return offset, string(utf16.Decode(javainternal))
'''),
('dictionary/bytes.go', '''	"unicode/utf16"
)
''', '''	"sync"
	"unicode/utf16"
)

var utf16Pool = sync.Pool{New: func() interface{} { return new([]uint16) }}
'''),
('internal/lnreader/lnreader.go', '''	line, err := r.r.ReadSlice('\\n')
	if err == bufio.ErrBufferFull {
		r.rawBuffer = append(r.rawBuffer[:0], line...)
		for err == bufio.ErrBufferFull {
			line, err = r.r.ReadSlice('\\n')
			r.rawBuffer = append(r.rawBuffer, line...)
		}
		line = r.rawBuffer
	}
	if len(line) > 0 && err == io.EOF {
		err = nil
	} else if err == nil {
		n := len(line)
		if n >= 2 && line[n-2] == '\\r' && line[n-1] == '\\n' {
			line = line[:n-2]
		} else {
			line = line[:n-1]
		}
	}
	if err == nil {
		r.NumLine++
	}
	return line, err
''', '''	line, err := r.r.ReadBytes('\\n')
	switch {
	case err == nil:
		line = trimEOL(line)
	case errors.Is(err, io.EOF) && len(line) > 0:
	default:
		return line, err
	}
	r.NumLine++
	return line, nil
}

func trimEOL(line []byte) []byte {
	line = bytes.TrimSuffix(line, []byte{'\\n'})
	return bytes.TrimSuffix(line, []byte{'\\r'})
'''),
('internal/lnreader/lnreader.go', '''	"bufio"
''', '''	"bufio"
	"bytes"
	"errors"
'''),
('dictionary/dicprinter.go', '''	lexicon := dic.Lexicon
	for wordId''', '''	w := bufio.NewWriterSize(output, 256)
	lexicon := dic.Lexicon
	for wordId'''),
('dictionary/dicprinter.go', '''		_, err := fmt.Fprintf(output,
			"%s,%d''', '''		_, err := fmt.Fprintf(w,
			"%s,%d'''),
('dictionary/dicprinter.go', '''		if err != nil {
			return err
		}
	}
	return nil
}

func wordIdToString''', '''		if err != nil {
			return err
		}
	}
	return w.Flush()
}

func wordIdToString'''),
('dictionary/dicprinter.go', '''	"errors"
''', '''	"bufio"
	"errors"
'''),
('internal/atomicfile/atomicfile.go', '''	tmp := fmt.Sprintf("%s.%d.tmp", path, os.Getpid())
	fd, err := os.OpenFile(tmp, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, mode)
	if err != nil {
		return nil, err
	}
	f := &File{File: fd, path: path, tmp: tmp}
	if exists {
		err = fd.Chmod(mode)
		if err != nil {
			f.Abort()
			return nil, err
		}
	}
''', '''	_ = exists
	fd, err := ioutil.TempFile(filepath.Dir(path), "."+filepath.Base(path)+".")
	if err != nil {
		return nil, err
	}
	f := &File{File: fd, path: path, tmp: fd.Name()}
	err = fd.Chmod(mode)
	if err != nil {
		f.Abort()
		return nil, err
	}
'''),
('internal/atomicfile/atomicfile.go', '''	"fmt"
	"os"
''', '''	"io/ioutil"
	"os"
'''),
]
R['cli'] = [
('gosudachicli/main.go', '''	s.line, s.err = s.r.ReadSlice('\\n')
	if s.err == bufio.ErrBufferFull {
		s.rawBuffer = append(s.rawBuffer[:0], s.line...)
		for s.err == bufio.ErrBufferFull {
			s.line, s.err = s.r.ReadSlice('\\n')
			s.rawBuffer = append(s.rawBuffer, s.line...)
		}
		s.line = s.rawBuffer
	}
	if s.err == io.EOF {
		s.err = nil
		if len(s.line) > 0 {
			return true
		} else {
			return false
		}
	}
	if s.err != nil {
		return false
	}
	s.line = s.line[:len(s.line)-1]
	return true
''', '''	s.rawBuffer = s.rawBuffer[:0]
	for {
		b, err := s.r.ReadByte()
		if err == io.EOF {
			s.line, s.err = s.rawBuffer, nil
			return len(s.line) > 0
		}
		if err != nil {
			s.err = err
			return false
		}
		if b == '\\n' {
			s.line, s.err = s.rawBuffer, nil
			return true
		}
		s.rawBuffer = append(s.rawBuffer, b)
	}
'''),
('gosudachicli/main.go', '''	n, err = norm.r.Read(p)
	for i := 0; i < n; i++ {
		switch {
		case p[i] == '\\n' && norm.lastChar == '\\r':
			copy(p[i:], p[i+1:n])
			norm.lastChar = '\\n'
			n--
			i--
		case p[i] == '\\r':
			norm.lastChar = p[i]
			p[i] = '\\n'
		default:
			norm.lastChar = p[i]
		}
	}
	return
''', '''	got, err := norm.r.Read(p)
	for _, c := range p[:got] {
		prev := norm.lastChar
		norm.lastChar = c
		if c == '\\n' && prev == '\\r' {
			continue
		}
		if c == '\\r' {
			c = '\\n'
		}
		p[n] = c
		n++
	}
	return n, err
'''),
('gosudachicli/main.go', '''	for i := 0; i < ms.Length(); i++ {
		m := ms.Get(i)

		fmt.Fprintf(output, "%s\\t%s\\t%s",
			m.Surface(),
			strings.Join(m.PartOfSpeech(), ","),
			m.NormalizedForm())
		if printAll {
			fmt.Fprintf(output, "\\t%s\\t%s\\t%d",
				m.DictionaryForm(),
				m.ReadingForm(),
				m.GetDictionaryId())
			if m.IsOOV() {
				fmt.Fprintf(output, "\\t(OOV)")
			}
		}
		fmt.Fprintf(output, "\\n")
	}
	fmt.Fprintln(output, "EOS")
	return nil
}
''', '''	var sb strings.Builder
	for i, n := 0, ms.Length(); i < n; i++ {
		formatMorpheme(&sb, ms.Get(i), printAll)
	}
	sb.WriteString("EOS\\n")
	_, err = io.WriteString(output, sb.String())
	return err
}

func formatMorpheme(sb *strings.Builder, m *gosudachi.Morpheme, printAll bool) {
	cols := []string{m.Surface(), strings.Join(m.PartOfSpeech(), ","), m.NormalizedForm()}
	if printAll {
		cols = append(cols, m.DictionaryForm(), m.ReadingForm(), strconv.Itoa(m.GetDictionaryId()))
		if m.IsOOV() {
			cols = append(cols, "(OOV)")
		}
	}
	sb.WriteString(strings.Join(cols, "\\t"))
	sb.WriteByte('\\n')
}
'''),
('gosudachicli/main.go', '''	"reflect"
''', '''	"reflect"
	"strconv"
'''),
('gosudachicli/main.go', '''	if len(flag.Args()) > 0 {
		for _, arg := range flag.Args() {
			input, err := os.OpenFile(arg, os.O_RDONLY, 0644)
			if err != nil {
				fmt.Fprintf(os.Stderr, "%s: %s", arg, err)
				return 1
			}
			err = runFromReader(tokenizer, mode, input, output, printall, ignoreerr)
			input.Close()
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 1
			}
		}
	} else {
		err = runFromReader(tokenizer, mode, os.Stdin, output, printall, ignoreerr)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 1
		}
	}
	return 0
''', '''	analyse := func(r io.Reader) bool {
		if err := runFromReader(tokenizer, mode, r, output, printall, ignoreerr); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return false
		}
		return true
	}
	if flag.NArg() == 0 {
		if !analyse(os.Stdin) {
			return 1
		}
		return 0
	}
	for i := 0; i < flag.NArg(); i++ {
		ok := func(name string) bool {
			input, err := os.Open(name)
			if err != nil {
				fmt.Fprintf(os.Stderr, "%s: %s", name, err)
				return false
			}
			defer input.Close()
			return analyse(input)
		}(flag.Arg(i))
		if !ok {
			return 1
		}
	}
	return 0
'''),
('dicconv/main.go', '''	offsetlen := int64(4 * fromdic.Lexicon.Size())
	_, err = outputfd.Seek(offsetlen, io.SeekCurrent)
''', '''	offsetlen := int64(4 * fromdic.Lexicon.Size())
	_, err = outputfd.Seek(offset+offsetlen, io.SeekStart)
'''),
('printdic/main.go', '''	err = dictionary.PrintDictionary(flag.Args()[0], utf16string, sdic, os.Stdout)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
''', '''	out := bufio.NewWriter(os.Stdout)
	err = dictionary.PrintDictionary(flag.Args()[0], utf16string, sdic, out)
	if ferr := out.Flush(); err == nil {
		err = ferr
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
'''),
('printdic/main.go', '''	"flag"
''', '''	"bufio"
	"flag"
'''),
]
R['lib'] = [
('dictionary.go', '''	err := d.ReadSystemDictionary(config.SystemDict, config.Utf16String)
	if err != nil {
		return fmt.Errorf("fail to read a system dictionary: %s", err)
	}

	for _, plugin := range editConnectionCostPlugins {
		err := plugin.SetUp(d.grammar)
		if err != nil {
			return err
		}
		err = plugin.Edit(d.grammar)
		if err != nil {
			return err
		}
	}

	err = d.ReadCharacterDefinition(config.CharacterDefinitionFile)
	if err != nil {
		return fmt.Errorf("fail to read a character defition file: %s", err)
	}

	for _, plugin := range d.inputTextPlugins {
		err := plugin.SetUp()
		if err != nil {
			return err
		}
	}
	for _, plugin := range d.oovProviderPlugins {
		err := plugin.SetUp(d.grammar)
		if err != nil {
			return err
		}
	}
	for _, plugin := range d.pathRewritePlugins {
		err := plugin.SetUp(d.grammar)
		if err != nil {
			return err
		}
	}

	for _, ud := range config.UserDict {
		err := d.ReadUserDictionary(ud, config.Utf16String)
		if err != nil {
			return fmt.Errorf("fail to read a user dictionary: %s", err)
		}
	}
	return nil
}
''', '''	steps := []func() error{
		func() error {
			if err := d.ReadSystemDictionary(config.SystemDict, config.Utf16String); err != nil {
				return fmt.Errorf("fail to read a system dictionary: %w", err)
			}
			return nil
		},
		func() error { return d.editCosts(editConnectionCostPlugins) },
		func() error {
			if err := d.ReadCharacterDefinition(config.CharacterDefinitionFile); err != nil {
				return fmt.Errorf("fail to read a character defition file: %w", err)
			}
			return nil
		},
		d.setUpPlugins,
	}
	for i := range config.UserDict {
		ud := config.UserDict[i]
		steps = append(steps, func() error {
			if err := d.ReadUserDictionary(ud, config.Utf16String); err != nil {
				return fmt.Errorf("fail to read a user dictionary: %w", err)
			}
			return nil
		})
	}
	for _, step := range steps {
		if err := step(); err != nil {
			return err
		}
	}
	return nil
}

func (d *JapaneseDictionary) editCosts(plugins []EditConnectionCostPlugin) error {
	for _, plugin := range plugins {
		if err := plugin.SetUp(d.grammar); err != nil {
			return err
		}
		if err := plugin.Edit(d.grammar); err != nil {
			return err
		}
	}
	return nil
}

func (d *JapaneseDictionary) setUpPlugins() error {
	for i := 0; i < len(d.inputTextPlugins); i++ {
		if err := d.inputTextPlugins[i].SetUp(); err != nil {
			return err
		}
	}
	type setUpper interface {
		SetUp(grammar *dictionary.Grammar) error
	}
	var list []setUpper
	for _, p := range d.oovProviderPlugins {
		list = append(list, p)
	}
	for _, p := range d.pathRewritePlugins {
		list = append(list, p)
	}
	for _, p := range list {
		if err := p.SetUp(d.grammar); err != nil {
			return err
		}
	}
	return nil
}
'''),
('dictionary.go', '''	d.grammar = nil
	d.lexicon = nil
	for _, dict := range d.dictionaries {
		dict.Close()
	}
	d.dictionaries = d.dictionaries[:0]
''', '''	d.grammar, d.lexicon = nil, nil
	for n := len(d.dictionaries); n > 0; n = len(d.dictionaries) {
		dict := d.dictionaries[n-1]
		d.dictionaries[n-1] = nil
		d.dictionaries = d.dictionaries[:n-1]
		_ = dict.Close()
	}
'''),
('lattice.go', '''	for i := 1; i < len(l.endLists); i++ {
		l.endLists[i] = l.endLists[i][:0]
	}
''', '''	for i := len(l.endLists) - 1; i > 0; i-- {
		list := l.endLists[i]
		for j := range list {
			list[j] = nil
		}
		l.endLists[i] = list[:0]
	}
'''),
('lattice.go', '''	if len(ret) > 1 {
		// reverse
		for i := len(ret)/2 - 1; i >= 0; i-- {
			opp := len(ret) - 1 - i
			ret[i], ret[opp] = ret[opp], ret[i]
		}
	}
	return ret, nil
''', '''	for i, j := 0, len(ret)-1; i < j; i, j = i+1, j-1 {
		ret[i], ret[j] = ret[j], ret[i]
	}
	return ret, nil
'''),
('dictionary/lexiconset.go', '''	dictId := int(uint32(wordId) >> 28)
	wordId = int32(uint32(wordId) & 0xfffffff)
	wi := s.lexicons[dictId].GetWordInfo(wordId)
''', '''	key := wordId
	if wi := s.infos.get(key); wi != nil {
		return wi
	}
	wi := s.readWordInfo(wordId)
	s.infos.put(key, wi)
	return wi
}

type infoCache struct {
	mu    sync.RWMutex
	infos map[int32]WordInfo
}

func (c *infoCache) get(id int32) *WordInfo {
	c.mu.RLock()
	defer c.mu.RUnlock()
	wi, ok := c.infos[id]
	if !ok {
		return nil
	}
	return cloneInfo(wi)
}

func (c *infoCache) put(id int32, wi *WordInfo) {
	cp := cloneInfo(*wi)
	c.mu.Lock()
	if c.infos == nil || len(c.infos) > 100 {
		c.infos = make(map[int32]WordInfo)
	}
	c.infos[id] = *cp
	c.mu.Unlock()
}

func cloneInfo(wi WordInfo) *WordInfo {
	wi.AUnitSplit = append([]int32{}, wi.AUnitSplit...)
	wi.BUnitSplit = append([]int32{}, wi.BUnitSplit...)
	wi.WordStructure = append([]int32{}, wi.WordStructure...)
	return &wi
}

func (s *LexiconSet) readWordInfo(wordId int32) *WordInfo {
	dictId := int(uint32(wordId) >> 28)
	wordId = int32(uint32(wordId) & 0xfffffff)
	wi := s.lexicons[dictId].GetWordInfo(wordId)
'''),
('dictionary/lexiconset.go', '''	posOffsets []int32
}
''', '''	posOffsets []int32
	infos      infoCache
}
'''),
('dictionary/lexiconset.go', '''	s.lexicons = append(s.lexicons, lexicon)
	s.posOffsets = append(s.posOffsets, posOffset)
''', '''	s.lexicons = append(s.lexicons, lexicon)
	s.posOffsets = append(s.posOffsets, posOffset)
	s.infos.mu.Lock()
	s.infos.infos = nil
	s.infos.mu.Unlock()
'''),
('dictionary/lexiconset.go', '''const (
	LexiconSet''', '''import "sync"

const (
	LexiconSet'''),
('morpheme.go', '''func (l *MorphemeList) GetSurface(index int) string {
	begin := l.GetBegin(index)
	end := l.GetEnd(index)
	return string([]rune(l.inputText.OriginalText)[begin:end])
}
''', '''func (l *MorphemeList) GetSurface(index int) string {
	l.once.Do(func() { l.runes = []rune(l.inputText.OriginalText) })
	return string(l.runes[l.GetBegin(index):l.GetEnd(index)])
}
'''),
('morpheme.go', '''	path      []*LatticeNode
}
''', '''	path      []*LatticeNode
	once      sync.Once
	runes     []rune
}
'''),
('morpheme.go', '''import (
''', '''import (
	"sync"

'''),
('dictionary/charcategory.go', '''	var categories uint32
	for _, cr := range cc.rangeList {
		if cr.contains(codePoint) {
			categories |= cr.categories
		}
	}

	if categories == 0 {
		categories = DEFAULT
	}
	return categories
''', '''	if v, ok := cc.cache.Load(codePoint); ok {
		return v.(uint32)
	}
	var categories uint32
	for i := range cc.rangeList {
		if cr := cc.rangeList[i]; cr.contains(codePoint) {
			categories |= cr.categories
		}
	}
	if categories == 0 {
		categories = DEFAULT
	}
	cc.cache.Store(codePoint, categories)
	return categories
'''),
('dictionary/charcategory.go', '''	rangeList []*categoryRange
}
''', '''	rangeList []*categoryRange
	cache     sync.Map
}
'''),
('dictionary/charcategory.go', '''	r := lnreader.NewLineNumberReader(charDefReader)
''', '''	cc.cache.Range(func(k, _ interface{}) bool { cc.cache.Delete(k); return true })
	r := lnreader.NewLineNumberReader(charDefReader)
'''),
('dictionary/charcategory.go', '''	"strings"
''', '''	"strings"
	"sync"
'''),
('inputtext.go', '''	ret := make([]rune, len(builder.modifiedRunes))
	copy(ret, builder.modifiedRunes)
	return ret
''', '''	return append(make([]rune, 0, len(builder.modifiedRunes)), builder.modifiedRunes...)
'''),
]
R['build'] = [
('dictionary/dicbuilder.go', '''	var recordBuf []string
	r := newLexiconReader(input)
	for {
		cols, err := r.readRecord(recordBuf)
		if err == io.EOF {
			break
		}
		if err != nil {
			return err
		}
		// parseLine
''', '''	type record struct {
		cols []string
		line int
		err  error
	}
	records := make(chan record, 4)
	quit := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		defer close(records)
		r := newLexiconReader(input)
		for {
			cols, err := r.readRecord(nil)
			if err == io.EOF {
				return
			}
			select {
			case records <- record{cols, r.numLine, err}:
			case <-quit:
				return
			}
			if err != nil {
				return
			}
		}
	}()
	defer wg.Wait()
	defer close(quit)
	r := &struct{ numLine int }{}
	for rec := range records {
		cols, err := rec.cols, rec.err
		r.numLine = rec.line
		if err != nil {
			return err
		}
		// parseLine
'''),
('dictionary/dicbuilder.go', '''	"strings"
	"unicode/utf16"
''', '''	"strings"
	"sync"
	"unicode/utf16"
'''),
('dictionary/dicbuilder.go', '''	for _, entry := range dicbuilder.wordEntries {
		err = binary.Write(dicbuilder.buffer, binary.LittleEndian, uint16(entry.Parameters[0]))
		if err != nil {
			return err
		}
		err = binary.Write(dicbuilder.buffer, binary.LittleEndian, uint16(entry.Parameters[1]))
		if err != nil {
			return err
		}
		err = binary.Write(dicbuilder.buffer, binary.LittleEndian, uint16(entry.Parameters[2]))
		if err != nil {
			return err
		}
		n, err = dicbuilder.buffer.WriteTo(bwriter)
''', '''	for _, entry := range dicbuilder.wordEntries {
		err = binary.Write(dicbuilder.buffer, binary.LittleEndian, entry.Parameters[:])
		if err != nil {
			return err
		}
		n, err = dicbuilder.buffer.WriteTo(bwriter)
'''),
('dictionary/dicbuilder.go', '''	_, err := writer.Seek(offsetslen, io.SeekCurrent)
	if err != nil {
		return err
	}
	bwriter := bufio.NewWriter(writer)
''', '''	_, err := writer.Write(make([]byte, offsetslen))
	if err != nil {
		return err
	}
	bwriter := bufio.NewWriterSize(writer, BufferSize)
'''),
('dictionary/dicbuilder.go', '''	bwriter = bufio.NewWriter(writer)
	n, err := offsets.WriteTo(bwriter)
	if err != nil {
		return err
	}
	p.Fprintf(os.Stderr, " %d bytes\\n", n)
	err = bwriter.Flush()
	if err != nil {
		return err
	}
''', '''	n, err := offsets.WriteTo(writer)
	if err != nil {
		return err
	}
	p.Fprintf(os.Stderr, " %d bytes\\n", n)
'''),
('dictionary/dicbuilder.go', '''	for wid, entry := range dicbuilder.wordEntries {
		wi := entry.WordInfo
		if wi.Surface''', '''	for wid := 0; wid < len(dicbuilder.wordEntries); wid++ {
		wi := dicbuilder.wordEntries[wid].WordInfo
		if wi.Surface'''),
('dictionary/dicbuilder.go', '''			l, _ := a.([]byte)
			r, _ := b.([]byte)
			min := len(l)
			if min > len(r) {
				min = len(r)
			}
			for i := 0; i < min; i++ {
				if l[i] != r[i] {
					return (int(l[i]) & 0xff) - (int(r[i]) & 0xff)
				}
			}
			return len(l) - len(r)
''', '''			return bytes.Compare(a.([]byte), b.([]byte))
'''),
('userdicbuilder/main.go', '''	err = dicbuilder.BuildLexicon(store, lexiconReader)
	if err != nil {
		return err
	}
	return nil
''', '''	return dicbuilder.BuildLexicon(store, bufio.NewReaderSize(lexiconReader, 100))
'''),
('userdicbuilder/main.go', '''	err = outputWriter.Commit()
	if err != nil {
		fmt.Fprintf(os.Stderr, "%s: %s\\n", outputpath, err)
		return 1
	}
	return 0
''', '''	if err := outputWriter.Commit(); err != nil {
		fmt.Fprintln(os.Stderr, outputpath+":", err)
		return 1
	}
	return 0
'''),
('dictionary/dalexicon.go', '''		err := binary.Write(offsets, binary.LittleEndian, uint32(position))
''', '''		var pos [4]byte
		binary.LittleEndian.PutUint32(pos[:], uint32(position))
		_, err := offsets.Write(pos[:])
'''),
('mecaboovproviderplugin.go', '''		l, ok := p.oovList[catType]
		if !ok {
			ll := []*oov{}
			l = &ll
			p.oovList[catType] = l
		}
		*l = append(*l, poov)
''', '''		if l := p.oovList[catType]; l != nil {
			*l = append(*l, poov)
		} else {
			p.oovList[catType] = &[]*oov{poov}
		}
'''),
('definputtextplugin.go', '''		_, ok := p.ignoreNormalizeMap[lower]
		if ok {
''', '''		if p.ignoreNormalizeMap[lower] {
'''),
]
