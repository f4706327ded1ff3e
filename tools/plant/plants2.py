PLANTS = []
def plant(**kw): PLANTS.append(kw)

plant(id='c06-cut-line', prop='C06',
 needs='a read error in the middle of a line, after which the reader reports the end or more data',
 breaks='a line cut off by a read error is taken for a complete last line; the error is forgotten unless the next read fails again',
 edits=[('internal/lnreader/lnreader.go', '''	if len(line) > 0 && err == io.EOF {
''', '''	if len(line) > 0 && err != nil {
''')],
 main='''
package main

import (
	"errors"
	"io"
	"strings"

	"github.com/msnoigrs/gosudachi/dictionary"
)

// once fails one read, after n bytes, and then goes on to the end.
type once struct {
	r    io.Reader
	n    int
	done bool
}

func (o *once) Read(p []byte) (int, error) {
	if o.n == 0 {
		if !o.done {
			o.done = true
			return 0, errors.New("read failed")
		}
		return 0, io.EOF
	}
	if len(p) > o.n {
		p = p[:o.n]
	}
	n, err := o.r.Read(p)
	o.n -= n
	return n, err
}

func main() {
	def := "0x0041..0x005A ALPHA\\n0x3041..0x309F HIRAGANA\\n0x30A1..0x30FF KATAKANA\\n"
	for n := 0; n < len(def); n++ {
		cat := dictionary.NewCharacterCategory()
		if err := cat.ReadCharacterDefinition(&once{r: strings.NewReader(def), n: n}); err == nil {
			bad("success although reading failed after %d bytes", n)
		}
	}
}
''')

plant(id='c06-long-line-error', prop='C06',
 needs='a read error while a lexicon line longer than the read buffer (4096 bytes) is collected',
 breaks='the loop collecting a long line takes any error for its end, so that a long line cut off by a read error is accepted and the error lost',
 edits=[('dictionary/dicbuilder.go', '''		for err == bufio.ErrBufferFull {
			line, err = r.r.ReadSlice('\\n')
			r.rawBuffer = append(r.rawBuffer, line...)
		}
		line = r.rawBuffer
	}
''', '''		for err == bufio.ErrBufferFull {
			line, err = r.r.ReadSlice('\\n')
			r.rawBuffer = append(r.rawBuffer, line...)
		}
		line = r.rawBuffer
		if err != nil {
			err = io.EOF // the last line need not be ended
		}
	}
''')],
 main='''
package main

import (
	"errors"
	"io"
	"strings"

	"github.com/msnoigrs/gosudachi/dictionary"
)

type onceThenEOF struct {
	r    io.Reader
	told bool
}

func (f *onceThenEOF) Read(p []byte) (int, error) {
	n, err := f.r.Read(p)
	if err == io.EOF && !f.told {
		f.told = true
		return n, errors.New("read failed")
	}
	return n, err
}

func main() {
	long := strings.Repeat("ヨ", 3000)
	line := wordFull("東京", 0, 0, 10, noun, long, "東京", "*", "A", "*", "*", "*")
	cut := line[:len(line)-1] // all columns are there, but more may follow
	build := func(r io.Reader) error {
		b := dictionary.NewDictionaryBuilder(272, nil, false)
		return b.BuildLexicon(dictionary.NewPosTable(), r)
	}
	check(build(strings.NewReader(line)))
	if build(&onceThenEOF{r: strings.NewReader(cut)}) == nil {
		bad("success although reading failed")
	}
}
''')

plant(id='c06-oov-read-error', prop='C06',
 needs='a read error in the unknown-word definition',
 breaks='any error reading the unknown-word definition is taken for its end',
 edits=[('mecaboovproviderplugin.go', '''		line, err := r.ReadLine()
		if err == io.EOF {
			break
		}
		if err != nil {
			return err
		}
		cols := strings.Split(string(line), ",")
''', '''		line, err := r.ReadLine()
		if err != nil {
			break
		}
		cols := strings.Split(string(line), ",")
''')],
 main='''
package main

import (
	"os"

	"github.com/msnoigrs/gosudachi"
)

func main() {
	buildSystem("s.dic", flatMatrix, false, word("東京", 0, 0, 10, noun))
	writeFile("char.def", "DEFAULT 0 1 0\\n0x0041..0x005A ALPHA\\n")
	check(os.Mkdir("unk.def", 0755)) // opens, but cannot be read
	char, unk := "char.def", "unk.def"
	_, err := setup{sys: "s.dic", chars: "char.def", oov: []gosudachi.OovProviderPlugin{gosudachi.NewMeCabOovProviderPlugin(&gosudachi.MeCabOovProviderPluginConfig{CharDef: &char, UnkDef: &unk})}}.load()
	if err == nil {
		bad("loaded although the unknown-word definition could not be read")
	}
}
''')

plant(id='c07-flush-wordinfo', prop='C07',
 needs='a write error on the very last write of a build, or on the flush behind the word informations',
 breaks='the error of the last flush is dropped when less than a buffer is left',
 edits=[('dictionary/dicbuilder.go', '''	p.Fprintf(os.Stderr, " %d bytes\\n", n)
	err = bwriter.Flush()
	if err != nil {
		return err
	}

	return nil
}

func (dicbuilder *DictionaryBuilder) parseSplitInfo''', '''	p.Fprintf(os.Stderr, " %d bytes\\n", n)
	defer bwriter.Flush()

	return nil
}

func (dicbuilder *DictionaryBuilder) parseSplitInfo''')],
 main='''
package main

import (
	"errors"
	"io"
	"strings"

	"github.com/msnoigrs/gosudachi/dictionary"
)

type sink struct{ left int }

func (s *sink) Write(p []byte) (int, error) {
	s.left--
	if s.left == 0 {
		return 0, errors.New("write failed")
	}
	return len(p), nil
}
func (s *sink) Seek(int64, int) (int64, error) { return 0, nil }

func main() {
	build := func(left int) (int, error) {
		w := &sink{left}
		store := dictionary.NewPosTable()
		b := dictionary.NewDictionaryBuilder(0, nil, false)
		check(b.BuildLexicon(store, strings.NewReader(word("東京", 0, 0, 10, noun))))
		check(b.WriteGrammar(store, strings.NewReader(flatMatrix), &sink{}))
		err := b.WriteLexicon(w, store)
		return -w.left, err
	}
	n, err := build(0)
	check(err)
	for i := 1; i <= n; i++ {
		if _, err := build(i); err == nil {
			bad("success although write %d of %d failed", i, n)
		}
	}
	_ = io.EOF
}
''')

plant(id='c07-trie-short-write', prop='C07',
 needs='a writer that takes a part of the trie and then fails',
 breaks='an error is dropped if a part was written: the call reports success for half a trie',
 edits=[('dictionary/dalexicon.go', '''	n, err := writer.Write(lexicon.trie.ByteArray())
	if err != nil {
''', '''	n, err := writer.Write(lexicon.trie.ByteArray())
	if n == 0 && err != nil {
''')],
 main='''
package main

import (
	"errors"

	"github.com/msnoigrs/gosudachi/dictionary"
)

type half struct{ left int }

func (h *half) Write(p []byte) (int, error) {
	if len(p) > h.left {
		n := h.left
		h.left = 0
		return n, errors.New("no space left on device")
	}
	h.left -= len(p)
	return len(p), nil
}

func main() {
	buildSystem("s.dic", flatMatrix, false, word("東京", 0, 0, 10, noun))
	d, err := dictionary.ReadSystemDictionary("s.dic", false)
	check(err)
	w := &half{1 << 20}
	n, err := d.Lexicon.WriteTrieTo(w)
	check(err)
	for i := 0; i < n; i++ {
		if _, err := d.Lexicon.WriteTrieTo(&half{i}); err == nil {
			bad("success although only %d of %d bytes were written", i, n)
		}
	}
}
''')

plant(id='c08-length-128', prop='C08',
 needs='a string of exactly 128 bytes',
 breaks='the length 128 is written in one byte, which readers take for the first of two',
 edits=[('dictionary/dicbuilder.go', '''	if length <= 127 {
''', '''	if length <= 1<<7 {
''')],
 main='''
package main

import (
	"strings"

	"github.com/msnoigrs/gosudachi/dictionary"
)

func main() {
	for n := 1; n < 300; n++ {
		reading := strings.Repeat("r", n)
		buildSystem("s.dic", flatMatrix, false, wordFull("東京", 0, 0, 10, noun, reading, "東京", "*", "A", "*", "*", "*"), word("行く", 0, 0, 10, verb))
		d, err := dictionary.ReadSystemDictionary("s.dic", false)
		check(err)
		if wi := d.Lexicon.GetWordInfo(0); wi.ReadingForm != reading {
			bad("reading of %d bytes: %q", n, wi.ReadingForm)
		}
		d.Close()
	}
}
''')

plant(id='c08-surrogates', prop='C08',
 needs='a string with a character outside of the Basic Multilingual Plane in a UTF-16 dictionary',
 breaks='the length of a UTF-16 string counts characters instead of code units, so that what follows is read from the wrong place',
 edits=[('dictionary/dicbuilder.go', '''	err := writeStringLength(buffer, int16(len(javainternal)))
''', '''	err := writeStringLength(buffer, int16(utf8.RuneCountInString(s)))
''')],
 main='''
package main

import "github.com/msnoigrs/gosudachi/dictionary"

func main() {
	buildSystem("s.dic", flatMatrix, true, word("𠮟る", 0, 0, 10, verb), word("行く", 0, 0, 10, verb))
	d, err := dictionary.ReadSystemDictionary("s.dic", true)
	check(err)
	if wi := d.Lexicon.GetWordInfo(0); wi.Surface != "𠮟る" || wi.ReadingForm != "ヨミ𠮟る" {
		bad("%+v", wi)
	}
}
''')

plant(id='c08-user-pos', prop='C08',
 needs='two user dictionaries with parts of speech of their own, words of the second using its first ones',
 breaks='parts of speech of a later user dictionary are recognised by the wrong limit and read as those of an earlier one',
 edits=[('dictionary/lexiconset.go', '''	if dictId > 0 && int32(wi.PosId) >= s.posOffsets[1] {
''', '''	if dictId > 0 && int32(wi.PosId) >= s.posOffsets[dictId] {
''')],
 main='''
package main

import "strings"

func main() {
	buildSystem("s.dic", flatMatrix, false, word("東京", 0, 0, 10, noun), word("行く", 0, 0, 10, verb))
	buildUser("u1.dic", "s.dic", false, word("甲乙", 0, 0, 10, "名詞,甲,*,*,*,*"))
	buildUser("u2.dic", "s.dic", false, word("渋谷", 0, 0, 10, "名詞,丙,*,*,*,*"))
	d := setup{sys: "s.dic", users: []string{"u1.dic", "u2.dic"}}.mustLoad()
	if got := tok(d.Create(), "C", "渋谷"); !strings.Contains(got, "名詞,丙,*") {
		bad("%s", got)
	}
}
''')

plant(id='c08-many-homographs', prop='C08',
 needs='more than 127 words with the same headword',
 breaks='the number of words of a headword is read as a signed byte, so that many homographs are none',
 edits=[('dictionary/bytes.go', '''	length := int(bytebuffer[offset])
	offset++
	array := ''', '''	length := int(int8(bytebuffer[offset]))
	if length < 0 {
		length = 0
	}
	offset++
	array := ''')],
 main='''
package main

import "github.com/msnoigrs/gosudachi/dictionary"

func main() {
	lines := []string{}
	for i := 0; i < 200; i++ {
		lines = append(lines, word("東京", 0, 0, i, noun))
	}
	buildSystem("s.dic", flatMatrix, false, lines...)
	d, err := dictionary.ReadSystemDictionary("s.dic", false)
	check(err)
	n := 0
	for it := d.Lexicon.Lookup([]byte("東京"), 0); it.Next(); n++ {
		it.Get()
	}
	if n != 200 {
		bad("%d words found", n)
	}
}
''')

plant(id='c09-matrix-reuse', prop='C09',
 needs='a second build in the same process whose matrix source leaves out cells that an earlier one set',
 breaks='the matrix buffer is kept between builds without clearing it: cells the source does not mention keep the costs of an earlier dictionary',
 edits=[('dictionary/dicbuilder.go', '''	matrix := make([]byte, buflen, buflen)

''', '''	if int64(cap(matrixBuffer)) < buflen {
		matrixBuffer = make([]byte, buflen)
	}
	matrix := matrixBuffer[:buflen]

'''), ('dictionary/dicbuilder.go', '''type writeStringFunc func''', '''// matrixBuffer holds the matrix being built; matrices are large.
var matrixBuffer []byte

type writeStringFunc func''')],
 main='''
package main

func main() {
	build := func(matrix string) string {
		buildSystem("s.dic", matrix, false, word("東京", 0, 0, 10, noun))
		return readFile("s.dic")
	}
	first := build("2 2\\n0 0 5\\n")
	build("2 2\\n0 0 5\\n0 1 6\\n1 1 7\\n")
	if build("2 2\\n0 0 5\\n") != first {
		bad("the same source gives another dictionary after another build")
	}
}
''')

plant(id='c09-word-cache', prop='C09',
 needs='a second build in the same process that refers to a word by its text which an earlier build placed elsewhere',
 breaks='word references once resolved are remembered for the whole process, also for dictionaries where the word has another id',
 edits=[('dictionary/dicbuilder.go', '''		wid, err := dicbuilder.wordToId(word, store)
		if err != nil {
			return []int32{}, err
		}
''', '''		wid, ok := resolvedWords[word]
		if !ok {
			wid, err = dicbuilder.wordToId(word, store)
			if err != nil {
				return []int32{}, err
			}
			if wid >= 0 {
				resolvedWords[word] = wid
			}
		}
'''), ('dictionary/dicbuilder.go', '''type writeStringFunc func''', '''// resolvedWords saves searching all entries for each use of a word.
var resolvedWords = map[string]int32{}

type writeStringFunc func''')],
 main='''
package main

func main() {
	a, b := word("東京", 0, 0, 10, noun), word("都", 0, 0, 10, noun)
	ref2 := func(h string) string {
		// commas within a column are written as escapes
		s := h + "," + noun + ",ヨミ" + h
		out := ""
		for _, c := range s {
			if c == ',' {
				out += "\\\\u002c"
			} else {
				out += string(c)
			}
		}
		return out
	}
	c := wordFull("東京都", 0, 0, 10, noun, "ヨミ", "東京都", "*", "B", ref2("東京")+"/"+ref2("都"), "*", "*")
	buildSystem("s.dic", flatMatrix, false, a, b, c)
	first := readFile("s.dic")
	buildSystem("t.dic", flatMatrix, false, c, b, a)
	buildSystem("s.dic", flatMatrix, false, a, b, c)
	other := readFile("t.dic")
	if readFile("s.dic") != first {
		bad("the same source gives another dictionary after another build")
	}
	// t.dic must hold its own ids
	buildSystem("u.dic", flatMatrix, false, c, b, a)
	if readFile("u.dic") != other {
		bad("the same source gives another dictionary")
	}
	d := setup{sys: "t.dic"}.mustLoad()
	got := tok(d.Create(), "A", "東京都")
	want := tok(setup{sys: "s.dic"}.mustLoad().Create(), "A", "東京都")
	if len(got) == 0 || got[:14] != want[:14] {
		bad("%s instead of %s", got, want)
	}
}
''')

plant(id='c10-user-as-system', prop='C10',
 needs='a user dictionary of the newer format given as the system dictionary',
 breaks='only user dictionaries of the old format are refused as system dictionaries',
 edits=[('dictionary/binarydict.go', '''	if dict.Header.Version != SystemDictVersion {
		_ = dict.Close()
''', '''	if dict.Header.Version == UserDictVersion {
		_ = dict.Close()
''')],
 main='''
package main

import "github.com/msnoigrs/gosudachi/dictionary"

func main() {
	buildSystem("s.dic", flatMatrix, false, word("東京", 0, 0, 10, noun))
	buildUser("u.dic", "s.dic", false, word("甲乙", 0, 0, 10, "名詞,甲,*,*,*,*"))
	if _, err := dictionary.ReadSystemDictionary("u.dic", false); err == nil {
		bad("a user dictionary was accepted as a system dictionary")
	}
}
''')

plant(id='c10-page-rounding', prop='C10',
 needs='a dictionary file cut off by less than the rest of its last page',
 breaks='the file is mapped in whole pages, so that what is cut off reads as zeros and the file is accepted',
 edits=[('dictionary/binarydict.go', '''	fmap, err := mmap.Mmap(fd, false, 0, finfo.Size())
''', '''	page := int64(os.Getpagesize())
	fmap, err := mmap.Mmap(fd, false, 0, (finfo.Size()+page-1)/page*page)
''')],
 main='''
package main

import (
	"fmt"

	"github.com/msnoigrs/gosudachi/dictionary"
)

func main() {
	buildSystem("s.dic", flatMatrix, false, word("東京", 0, 0, 10, noun), word("行く", 0, 0, 10, verb))
	s := readFile("s.dic")
	for n := 0; n < len(s); n++ {
		name := fmt.Sprintf("cut%d.dic", n)
		writeFile(name, s[:n])
		if _, err := dictionary.ReadSystemDictionary(name, false); err == nil {
			bad("accepted with %d of %d bytes", n, len(s))
		}
	}
}
''')

plant(id='c11-remove-old', prop='C11',
 needs='dicconv being killed, or failing, after it has begun to write the word informations',
 breaks='an old output file is removed to make room before the new one is complete',
 edits=[('dicconv/main.go', '''	fmt.Fprint(os.Stderr, "writting the wordInfos...")
	offsetlen :=''', '''	if finfo, err := os.Lstat(outputfile); err == nil && finfo.Mode().IsRegular() {
		_ = os.Remove(outputfile) // make room
	}
	fmt.Fprintf(os.Stderr, "writting the wordInfos...")
	offsetlen :=''')],
 files={'commands': './dicconv\n'},
 main='''
package main

import (
	"fmt"
	"os"
	"os/exec"
)

func main() {
	lines := []string{}
	for i := 0; i < 300; i++ {
		lines = append(lines, word(fmt.Sprintf("語%d", i), 0, 0, 10, noun))
	}
	buildSystem("s.dic", flatMatrix, false, lines...)
	writeFile("out.dic", "the old dictionary")
	// a limit on the file size ends the conversion part of the way
	for kb := 1; kb < 40; kb++ {
		c := exec.Command("bash", "-c", fmt.Sprintf("ulimit -f %d; exec \\"$BIN/dicconv\\" -j -o out.dic s.dic", kb))
		c.Env = os.Environ()
		if c.Run() == nil {
			break
		}
		if b, err := os.ReadFile("out.dic"); err != nil || string(b) != "the old dictionary" {
			bad("a failed conversion (%d KB) left %d bytes, %v", kb, len(b), err)
		}
	}
}
''')

plant(id='c12-truncate-early', prop='C12',
 needs='userdicbuilder replacing a user dictionary that another process uses',
 breaks='the old file is emptied before the new one is written: processes that have it mapped lose their dictionary',
 edits=[('userdicbuilder/main.go', '''	store := dictionary.NewPosTableUser(''', '''	if finfo, err := os.Stat(outputpath); err == nil && finfo.Mode().IsRegular() {
		_ = os.Truncate(outputpath, 0) // its space is needed for the new one
	}
	var store = dictionary.NewPosTableUser(''')],
 files={'commands': './userdicbuilder\n'},
 main='''
package main

import (
	"os"
	"os/exec"
	"strings"
)

func main() {
	buildSystem("s.dic", flatMatrix, false, word("東京", 0, 0, 10, noun))
	buildUser("u.dic", "s.dic", false, word("甲乙", 0, 0, 10, "名詞,甲,*,*,*,*"))
	d := setup{sys: "s.dic", users: []string{"u.dic"}}.mustLoad()
	want := tok(d.Create(), "C", "甲乙")
	writeFile("u.csv", word("丙丁", 0, 0, 10, "名詞,乙,*,*,*,*"))
	c := exec.Command(os.Getenv("BIN")+"/userdicbuilder", "-o", "u.dic", "-s", "s.dic", "u.csv")
	out, err := c.CombinedOutput()
	if err != nil {
		bad("%s %s", err, out)
	}
	if got := tok(d.Create(), "C", "甲乙"); got != want || !strings.Contains(got, "甲") {
		bad("%s instead of %s", got, want)
	}
}
''')

plant(id='c13-print-header', prop='C13',
 needs='printing the header of a file that is not a dictionary, or to an output that fails',
 breaks='the mapping is released only when the header has been printed',
 edits=[('dictionary/dicprinter.go', '''	defer mmap.Munmap(bytebuffer)

''', ''''''), ('dictionary/dicprinter.go', '''	zone, _ := ctime.Zone()
''', '''	defer mmap.Munmap(bytebuffer)
	zone, _ := ctime.Zone()
''')],
 main='''
package main

import (
	"io/ioutil"
	"strings"

	"github.com/msnoigrs/gosudachi/dictionary"
)

func main() {
	writeFile("foreign", strings.Repeat("no dictionary ", 1000))
	if dictionary.PrintHeader("foreign", ioutil.Discard) == nil {
		bad("a foreign file has a header")
	}
	if strings.Contains(readFile("/proc/self/maps"), "/foreign") {
		bad("the file is still mapped")
	}
}
''')

plant(id='c13-unk-def', prop='C13',
 needs='an unknown-word definition with an error in it',
 breaks='the definition file is closed only if it was read to its end',
 edits=[('mecaboovproviderplugin.go', '''		defer unkDefFd.Close()
		unkDefReader = unkDefFd
''', '''		unkDefReader = unkDefFd
'''), ('mecaboovproviderplugin.go', '''		*l = append(*l, poov)
	}
	return nil
''', '''		*l = append(*l, poov)
	}
	if c, ok := unkDefReader.(io.Closer); ok {
		return c.Close()
	}
	return nil
''')],
 main='''
package main

import (
	"os"
	"strings"

	"github.com/msnoigrs/gosudachi"
)

func main() {
	buildSystem("s.dic", flatMatrix, false, word("東京", 0, 0, 10, noun))
	writeFile("char.def", "DEFAULT 0 1 0\\n0x0041..0x005A ALPHA\\n")
	writeFile("unk.def", "DEFAULT,0,0,many,名詞,普通名詞,一般,*,*,*\\n")
	char, unk := "char.def", "unk.def"
	_, err := setup{sys: "s.dic", chars: "char.def", oov: []gosudachi.OovProviderPlugin{gosudachi.NewMeCabOovProviderPlugin(&gosudachi.MeCabOovProviderPluginConfig{CharDef: &char, UnkDef: &unk})}}.load()
	if err == nil {
		bad("loaded")
	}
	dir, err := os.Open("/proc/self/fd")
	check(err)
	names, err := dir.Readdirnames(-1)
	check(err)
	for _, n := range names {
		if l, _ := os.Readlink("/proc/self/fd/" + n); strings.HasSuffix(l, "/unk.def") {
			bad("the definition is still open")
		}
	}
}
''')

plant(id='c14-add-before-costs', prop='C14',
 needs='a user dictionary with several words whose cost is to be computed, one a part of another',
 breaks='the user dictionary is added before its costs are computed, so that they are computed with its own words of no cost yet',
 edits=[('dictionary.go', '''	d.lexicon.Add(userLexicon, int32(d.grammar.GetPartOfSpeechSize()))
''', ''''''), ('dictionary.go', '''	userLexicon := dict.Lexicon
''', '''	userLexicon := dict.Lexicon
	d.lexicon.Add(userLexicon, int32(d.grammar.GetPartOfSpeechSize()))
''')],
 main='''
package main

import (
	"bytes"
	"strings"
)

func main() {
	buildSystem("s.dic", flatMatrix, false, word("東", 0, 0, 100, noun), word("京", 0, 0, 500, noun))
	buildUser("u.dic", "s.dic", false, word("京", 0, 0, -32768, noun), word("東京", 0, 0, -32768, noun))
	t := setup{sys: "s.dic", users: []string{"u.dic"}}.mustLoad().Create()
	var dump bytes.Buffer
	t.DumpOutput = &dump
	tok(t, "C", "東京")
	// 京: 0 - 20; 東京: 500-100 - 40
	if !strings.Contains(dump.String(), " 0 0 -20:") || !strings.Contains(dump.String(), " 0 0 360:") {
		bad("%s", dump.String())
	}
}
''')

plant(id='c14-rewrite-fallback', prop='C14',
 needs='a rewrite definition that is configured but cannot be opened',
 breaks='if the configured rewrite definition cannot be opened the built-in one is used and loading succeeds',
 edits=[('definputtextplugin.go', '''	if rewriteDef != "" {
		rewriteDefFd, err := os.OpenFile(rewriteDef, os.O_RDONLY, 0644)
		if err != nil {
			return fmt.Errorf("DefaultInputTextPlugin: %s: %s", err, rewriteDef)
		}
		defer''', '''	rewriteDefFd, err := os.OpenFile(rewriteDef, os.O_RDONLY, 0644)
	if err == nil {
		defer''')],
 main='''
package main

import "github.com/msnoigrs/gosudachi"

func main() {
	buildSystem("s.dic", flatMatrix, false, word("東京", 0, 0, 10, noun))
	_, err := setup{sys: "s.dic", input: []gosudachi.InputTextPlugin{gosudachi.NewDefaultInputTextPlugin(&gosudachi.DefaultInputTextPluginConfig{RewriteDef: "missing.def"})}}.load()
	if err == nil {
		bad("loaded although the rewrite definition is missing")
	}
}
''')

plant(id='c14-too-many', prop='C14',
 needs='sixteen user dictionaries',
 breaks='one user dictionary too many is accepted, whose number does not fit into word ids: its words are taken for the system dictionary\'s',
 edits=[('dictionary/lexiconset.go', '''	return len(s.lexicons) >= LexiconSetMaxDictionaries
''', '''	return len(s.lexicons) > LexiconSetMaxDictionaries
''')],
 main='''
package main

import "fmt"

func main() {
	buildSystem("s.dic", flatMatrix, false, word("東京", 0, 0, 10, noun), word("行く", 0, 0, 10, verb))
	s := setup{sys: "s.dic"}
	for i := 0; i < 16; i++ {
		name := fmt.Sprintf("u%d.dic", i)
		buildUser(name, "s.dic", false, word(fmt.Sprintf("語%c", 'a'+i), 0, 0, 10, noun))
		s.users = append(s.users, name)
	}
	d, err := s.load()
	if err == nil {
		bad("loaded: %s", tok(d.Create(), "C", "語p"))
	}
}
''')
