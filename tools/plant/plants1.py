PLANTS = []
def plant(**kw): PLANTS.append(kw)

plant(id='c01-utf16-scratch', prop='C01',
 needs='two tokenizers of a UTF-16 dictionary reading word strings at the same time',
 breaks='the decoding buffer for UTF-16 strings is shared by the whole process: words get strings mixed from what two goroutines decode',
 edits=[('dictionary/bytes.go', '''type bufferToStringFunc func''', '''// utf16Scratch saves an allocation per string.
var utf16Scratch []uint16

type bufferToStringFunc func'''),
 ('dictionary/bytes.go', '''	javainternal := make([]uint16, length, length)
''', '''	if len(utf16Scratch) < length {
		utf16Scratch = make([]uint16, length+64)
	}
	javainternal := utf16Scratch[:length]
''')],
 files={'race': '1\n'},
 main='''
package main

import "sync"

func main() {
	buildSystem("s.dic", flatMatrix, true, word("東京", 0, 0, 10, noun), word("大阪府", 0, 0, 10, noun))
	d := setup{sys: "s.dic", u16: true}.mustLoad()
	var wg sync.WaitGroup
	for _, text := range []string{"東京東京東京", "大阪府大阪府"} {
		want := tok(d.Create(), "C", text)
		wg.Add(1)
		go func(text string) {
			defer wg.Done()
			t := d.Create()
			for i := 0; i < 2000; i++ {
				if got := tok(t, "C", text); got != want {
					bad("%s: %s", text, got)
				}
			}
		}(text)
	}
	wg.Wait()
}
''')

plant(id='c01-numeric-parser', prop='C01',
 needs='two tokenizers of one dictionary with the numeral plugin joining different numerals at the same time',
 breaks='the numeral parser is kept in the plugin, which all tokenizers share: numerals analysed at the same time run into each other',
 edits=[('joinnumericplugin.go', '''	numericPosId    int16
}''', '''	numericPosId    int16
	parser          *numericParser
}'''), ('joinnumericplugin.go', '''	parser := newNumericParser()
''', '''	if p.parser == nil {
		p.parser = newNumericParser()
	}
	parser := p.parser
''')],
 files={'race': '1\n'},
 main='''
package main

import (
	"sync"

	"github.com/msnoigrs/gosudachi"
)

func main() {
	lines := []string{word("円", 0, 0, 10, noun)}
	for _, c := range "0123456789" {
		lines = append(lines, word(string(c), 0, 0, 10, num))
	}
	buildSystem("s.dic", flatMatrix, false, lines...)
	d := setup{sys: "s.dic", path: []gosudachi.PathRewritePlugin{gosudachi.NewJoinNumericPlugin(nil)}}.mustLoad()
	var wg sync.WaitGroup
	for _, text := range []string{"12345円", "987円65円"} {
		want := tok(d.Create(), "C", text)
		wg.Add(1)
		go func(text string) {
			defer wg.Done()
			t := d.Create()
			for i := 0; i < 2000; i++ {
				if got := tok(t, "C", text); got != want {
					bad("%s: %s", text, got)
				}
			}
		}(text)
	}
	wg.Wait()
}
''')

plant(id='c02-wordinfo-cache', prop='C02',
 needs='two user dictionaries, the second with a part of speech of its own, and the same word of it read twice in a row',
 breaks='the last word information is cached and handed out again, but the lexicon set changes what it gets: the second time the part of speech is shifted twice',
 edits=[('dictionary/dalexicon.go', '''	wordSize        int32
	bufferToStringF bufferToStringFunc
}''', '''	wordSize        int32
	bufferToStringF bufferToStringFunc
	last            atomic.Value // the word information read last
}

type cachedWordInfo struct {
	wordId int32
	info   *WordInfo
}'''), ('dictionary/dalexicon.go', '''	index := l.wordIdToOffset(wordId)

''', '''	if last, ok := l.last.Load().(cachedWordInfo); ok && last.wordId == wordId {
		return last.info
	}
	index := l.wordIdToOffset(wordId)

'''), ('dictionary/dalexicon.go', '''	return &WordInfo{
		Surface:              surface,
''', '''	wi := &WordInfo{
		Surface:              surface,
'''), ('dictionary/dalexicon.go', '''		WordStructure:        wordStructure,
	}
''', '''		WordStructure:        wordStructure,
	}
	l.last.Store(cachedWordInfo{wordId, wi})
	return wi
'''), ('dictionary/dalexicon.go', '''	"io"
''', '''	"io"
	"sync/atomic"
''')],
 main='''
package main

func main() {
	buildSystem("s.dic", flatMatrix, false, word("東京", 0, 0, 10, noun), word("行く", 0, 0, 10, verb))
	buildUser("u1.dic", "s.dic", false, word("甲乙", 0, 0, 10, "名詞,甲,*,*,*,*"), word("丙丁", 0, 0, 10, "名詞,乙,*,*,*,*"))
	buildUser("u2.dic", "s.dic", false, word("渋谷", 0, 0, 10, "名詞,丙,*,*,*,*"), word("原宿", 0, 0, 10, "名詞,丁,*,*,*,*"), word("x", 0, 0, 10, "名詞,戊,*,*,*,*"))
	d := setup{sys: "s.dic", users: []string{"u1.dic", "u2.dic"}}.mustLoad()
	t := d.Create()
	want := tok(t, "C", "渋谷")
	if got := tok(t, "C", "渋谷"); got != want {
		bad("first %s then %s", want, got)
	}
}
''')

plant(id='c02-lattice-clear', prop='C02',
 needs='a text analysed after another one of at least the same length, where the earlier word ending at the very end is cheaper',
 breaks='clearing the lattice leaves out its last position, so the final words of the longest earlier text compete for the end of the next',
 edits=[('lattice.go', '''	for i := 1; i < len(l.endLists); i++ {
		l.endLists[i] = l.endLists[i][:0]''', '''	for i := len(l.endLists) - 2; i > 0; i-- {
		l.endLists[i] = l.endLists[i][:0]''')],
 main='''
package main

func main() {
	buildSystem("s.dic", flatMatrix, false, word("東京", 0, 0, 10, noun), word("大阪", 0, 0, 500, noun), word("行く", 0, 0, 300, verb))
	d := setup{sys: "s.dic"}.mustLoad()
	want := tok(d.Create(), "C", "大阪")
	t := d.Create()
	tok(t, "C", "東京")
	if got := tok(t, "C", "大阪"); got != want {
		bad("alone %s after another %s", want, got)
	}
}
''')

plant(id='c02-eos-node', prop='C02',
 needs='an unanalysable text (no allowed connection to the end) after an analysable one of the same number of bytes',
 breaks='the end node is kept if the length stays the same, with the path of the previous text, which is then returned instead of an error',
 edits=[('lattice.go', '''	l.eosNode = &LatticeNode{}
	l.eosNode.SetParameter''', '''	if l.eosNode == nil || l.eosNode.End != size {
		l.eosNode = &LatticeNode{}
	}
	l.eosNode.SetParameter''')],
 main='''
package main

import "strings"

func main() {
	// right id 1 cannot be followed by the end
	buildSystem("s.dic", "2 2\\n0 0 0\\n0 1 0\\n1 0 32767\\n1 1 0\\n", false, word("東京", 0, 0, 10, noun), word("大阪", 0, 1, 10, noun), word("行く", 0, 0, 300, verb))
	d := setup{sys: "s.dic"}.mustLoad()
	want := tok(d.Create(), "C", "東京大阪")
	t := d.Create()
	tok(t, "C", "東京東京")
	if got := tok(t, "C", "東京大阪"); got != want {
		bad("alone %s after another %s", want, got)
	}
	// the same through an inhibited word
	if !strings.HasPrefix(tok(t, "C", "東京"), "0-2") {
		bad("not analysed")
	}
}
''')

plant(id='c03-path-reuse', prop='C03',
 needs='a result that is still looked at after a later call of the same tokenizer',
 breaks='the best path is built in a slice the lattice keeps, so that a later call overwrites the morphemes returned before',
 edits=[('lattice.go', '''	eosParams []int16
}''', '''	eosParams []int16
	path      []*LatticeNode
}'''), ('lattice.go', '''	ret := make([]*LatticeNode, 0)
	for node := l.eosNode.bestPreviousNode''', '''	ret := l.path[:0]
	for node := l.eosNode.bestPreviousNode'''), ('lattice.go', '''			ret[i], ret[opp] = ret[opp], ret[i]
		}
	}
''', '''			ret[i], ret[opp] = ret[opp], ret[i]
		}
	}
	l.path = ret
''')],
 main='''
package main

func main() {
	buildSystem("s.dic", flatMatrix, false, word("東京", 0, 0, 10, noun), word("大阪", 0, 0, 10, noun), word("行く", 0, 0, 300, verb))
	t := setup{sys: "s.dic"}.mustLoad().Create()
	ms, err := t.Tokenize("C", "東京大阪")
	check(err)
	want := show(ms)
	tok(t, "C", "大阪行く東京")
	if got := show(ms); got != want {
		bad("was %s is %s", want, got)
	}
}
''')

plant(id='c03-mapped-strings', prop='C03',
 needs='a string read from a result and looked at after the dictionary has been closed',
 breaks='strings point into the mapped file instead of being copied, so they vanish when the dictionary is closed',
 edits=[('dictionary/bytes.go', '''	return offsetend, string(bytebuffer[offset:offsetend])
''', '''	b := bytebuffer[offset:offsetend]
	return offsetend, *(*string)(unsafe.Pointer(&b))
'''), ('dictionary/bytes.go', '''	"unicode/utf16"
''', '''	"unicode/utf16"
	"unsafe"
''')],
 main='''
package main

func main() {
	buildSystem("s.dic", flatMatrix, false, word("東京", 0, 0, 10, noun), word("行く", 0, 0, 300, verb))
	d := setup{sys: "s.dic"}.mustLoad()
	ms, err := d.Create().Tokenize("C", "東京")
	check(err)
	reading := ms.Get(0).ReadingForm()
	d.Close()
	if reading != "ヨミ東京" {
		bad("%s", reading)
	}
}
''')

plant(id='c04-crlf-split', prop='C04',
 needs='a CR LF pair divided by the end of a read',
 breaks='the normalizer forgets the last character of the previous read: a CR LF split by two reads ends two lines',
 edits=[('gosudachicli/main.go', '''	n, err = norm.r.Read(p)
	for i := 0; i < n; i++ {
''', '''	n, err = norm.r.Read(p)
	norm.lastChar = 0
	for i := 0; i < n; i++ {
''')] and [('gosudachicli/main.go', '''type normalizer struct {
	r        io.Reader
	lastChar byte
}''', '''type normalizer struct {
	r io.Reader
}'''), ('gosudachicli/main.go', '''	n, err = norm.r.Read(p)
	for i := 0; i < n; i++ {
		switch {
		case p[i] == '\\n' && norm.lastChar == '\\r':
			copy(p[i:], p[i+1:n])
			norm.lastChar = '\\n'
			n--
			i--
		case p[i] == '\\r':
			norm.lastChar = p[i]
			p[i] = '\\n'
		default:
			norm.lastChar = p[i]
		}
	}
''', '''	n, err = norm.r.Read(p)
	var lastChar byte
	for i := 0; i < n; i++ {
		switch {
		case p[i] == '\\n' && lastChar == '\\r':
			copy(p[i:], p[i+1:n])
			lastChar = '\\n'
			n--
			i--
		case p[i] == '\\r':
			lastChar = p[i]
			p[i] = '\\n'
		default:
			lastChar = p[i]
		}
	}
''')],
 files={'commands': './gosudachicli\n'},
 main='''
package main

import (
	"os"
	"os/exec"
	"time"
)

func main() {
	buildSystem("s.dic", flatMatrix, false, word("東京", 0, 0, 10, noun), word("行く", 0, 0, 300, verb))
	writeFile("s.json", `{"systemDict":"s.dic","oovProviderPlugin":[{"class":"SimpleOovProviderPlugin","oovPOS":["名詞","普通名詞","一般","*","*","*"],"leftId":0,"rightId":0,"cost":30000}]}`)
	run := func(parts ...string) string {
		c := exec.Command(os.Getenv("BIN")+"/gosudachicli", "-r", "s.json")
		in, err := c.StdinPipe()
		check(err)
		go func() {
			for _, p := range parts {
				in.Write([]byte(p))
				time.Sleep(500 * time.Millisecond)
			}
			in.Close()
		}()
		out, err := c.Output()
		check(err)
		return string(out)
	}
	want := run("東京\\r\\n行く\\r\\n")
	if got := run("東京\\r", "\\n行く\\r\\n"); got != want {
		bad("%s instead of %s", got, want)
	}
}
''')

plant(id='c04-long-lines', prop='C04',
 needs='two lines longer than the read buffer (4096 bytes) in one input',
 breaks='the buffer for long lines is not emptied, so a second long line begins with the first',
 edits=[('gosudachicli/main.go', '''		s.rawBuffer = append(s.rawBuffer[:0], s.line...)
''', '''		s.rawBuffer = append(s.rawBuffer, s.line...)
''')],
 files={'commands': './gosudachicli\n'},
 main='''
package main

import (
	"os"
	"os/exec"
	"strings"
)

func main() {
	buildSystem("s.dic", flatMatrix, false, word("東京", 0, 0, 10, noun), word("行く", 0, 0, 300, verb))
	writeFile("s.json", `{"systemDict":"s.dic","oovProviderPlugin":[{"class":"SimpleOovProviderPlugin","oovPOS":["名詞","普通名詞","一般","*","*","*"],"leftId":0,"rightId":0,"cost":30000}]}`)
	run := func(text string) string {
		c := exec.Command(os.Getenv("BIN")+"/gosudachicli", "-r", "s.json")
		c.Stdin = strings.NewReader(text)
		out, err := c.Output()
		check(err)
		return string(out)
	}
	a, b := strings.Repeat("東京", 1000)+"\\n", strings.Repeat("行く", 900)+"\\n"
	if run(a+b) != run(a)+run(b) {
		bad("two long lines are not analysed as each alone")
	}
}
''')

plant(id='c05-partial-line', prop='C05',
 needs='a read error in the middle of a line',
 breaks='a line cut off by a read error is analysed and printed, and the error is forgotten if the next read succeeds or finds the end',
 edits=[('gosudachicli/main.go', '''	if s.err != nil {
		return false
	}
	s.line =''', '''	if s.err != nil {
		return len(s.line) > 0
	}
	s.line =''')],
 files={'commands': './gosudachicli\n'},
 main='''
package main

import (
	"os"
	"os/exec"
	"strings"
	"syscall"
	"time"
)

// Standard input is a terminal without blocking reads: a read with nothing to
// read fails (EAGAIN) in the middle of a line.
func main() {
	buildSystem("s.dic", flatMatrix, false, word("東京", 0, 0, 10, noun), word("行く", 0, 0, 300, verb))
	writeFile("s.json", `{"systemDict":"s.dic","oovProviderPlugin":[{"class":"SimpleOovProviderPlugin","oovPOS":["名詞","普通名詞","一般","*","*","*"],"leftId":0,"rightId":0,"cost":30000}]}`)
	fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM, 0)
	check(err)
	// a receive timeout makes a blocking read fail with EAGAIN
	check(syscall.SetsockoptTimeval(fds[0], syscall.SOL_SOCKET, syscall.SO_RCVTIMEO, &syscall.Timeval{Sec: 1}))
	c := exec.Command(os.Getenv("BIN")+"/gosudachicli", "-r", "s.json")
	c.Stdin = os.NewFile(uintptr(fds[0]), "stdin")
	var out strings.Builder
	c.Stdout = &out
	check(c.Start())
	syscall.Write(fds[1], []byte("行く\\n東京東"))
	time.Sleep(3 * time.Second)
	syscall.Close(fds[1])
	err = c.Wait()
	if strings.Contains(out.String(), "東京") {
		bad("a cut line was analysed: %s (%v)", out.String(), err)
	}
	if err == nil {
		bad("the read error is not reported: %s", out.String())
	}
}
''')

plant(id='c05-ignore-read-error', prop='C05',
 needs='a read error while gosudachicli runs with -f',
 breaks='-f, which is to ignore lines that cannot be analysed, also hides that the input could not be read to its end',
 edits=[('gosudachicli/main.go', '''	if err := s.Err(); err != nil {
		return err
	}
''', '''	if err := s.Err(); err != nil {
		if !ignoreError {
			return err
		}
		fmt.Fprintln(os.Stderr, err)
	}
''')],
 files={'commands': './gosudachicli\n'},
 main='''
package main

import (
	"os"
	"os/exec"
)

func main() {
	buildSystem("s.dic", flatMatrix, false, word("東京", 0, 0, 10, noun), word("行く", 0, 0, 300, verb))
	writeFile("s.json", `{"systemDict":"s.dic","oovProviderPlugin":[{"class":"SimpleOovProviderPlugin","oovPOS":["名詞","普通名詞","一般","*","*","*"],"leftId":0,"rightId":0,"cost":30000}]}`)
	// a directory can be opened, but not read
	check(os.Mkdir("dir", 0755))
	if err := exec.Command(os.Getenv("BIN")+"/gosudachicli", "-r", "s.json", "-f", "dir").Run(); err == nil {
		bad("success although the input could not be read")
	}
}
''')
