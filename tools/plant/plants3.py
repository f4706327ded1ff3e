import runpy, os
PLANTS = []
def plant(**kw): PLANTS.append(kw)
_pr = {}
for f in ('probes1.py', 'probes2.py', 'probes3.py'):
    for id, prop, edits in runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), f))['P']:
        _pr[id] = list(edits)

TALK = '''
package main

import (
	"bytes"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

type log struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *log) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}

// until waits for s to be said n times.
func (l *log) until(s string, n int) bool {
	for i := 0; i < 2000; i++ {
		l.mu.Lock()
		k := strings.Count(l.b.String(), s)
		l.mu.Unlock()
		if k >= n {
			return true
		}
		time.Sleep(10 * time.Millisecond)
	}
	return false
}

var in io.WriteCloser
var out, msg log

func start(args ...string) {
	// nothing connects to an unknown word
	buildSystem("s.dic", "2 2\\n0 0 0\\n0 1 32767\\n1 0 32767\\n1 1 32767\\n", false, word("東京", 0, 0, 10, noun), word("行く", 0, 0, 300, verb))
	writeFile("s.json", `{"systemDict":"s.dic","oovProviderPlugin":[{"class":"SimpleOovProviderPlugin","oovPOS":["名詞","普通名詞","一般","*","*","*"],"leftId":1,"rightId":1,"cost":30000}]}`)
	c := exec.Command(os.Getenv("BIN")+"/gosudachicli", append([]string{"-r", "s.json"}, args...)...)
	var err error
	in, err = c.StdinPipe()
	check(err)
	c.Stdout, c.Stderr = &out, &msg
	check(c.Start())
}

func say(s string) {
	_, err := io.WriteString(in, s)
	check(err)
}
'''

plant(id='c23-flush-idle', prop='C23',
 needs='input that arrives with the beginning of the next line in the same read as the end of a line, after which the other side waits for the answer',
 breaks='answers are buffered and written out when the line reader has no input left; the start of an unfinished line counts as input left, so that the answers stay in the buffer',
 edits=[('gosudachicli/main.go', '''	s := newLineScanner(input)
	for s.Scan() {
		err := run(tokenizer, mode, s.Text(), output, printAll)
		if output.err != nil {
''', '''	s := newLineScanner(input)
	buf := bufio.NewWriter(output)
	defer buf.Flush()
	for s.Scan() {
		err := run(tokenizer, mode, s.Text(), buf, printAll)
		if s.r.Buffered() == 0 {
			buf.Flush()
		}
		if output.err != nil {
'''), ('gosudachicli/main.go', '''	if err := s.Err(); err != nil {
		return err
	}
	return nil
''', '''	if err := buf.Flush(); err != nil {
		return err
	}
	return s.Err()
''')],
 files={'commands': './gosudachicli\n'},
 main=TALK+'''
func main() {
	start()
	say("東京\\n")
	if !out.until("EOS\\n", 1) {
		bad("no answer to a line")
	}
	say("行く\\n東")
	if !out.until("EOS\\n", 2) {
		bad("no answer to a line behind which the next one has begun")
	}
	say("京\\n")
	if !out.until("EOS\\n", 3) {
		bad("no answer to the last line")
	}
	in.Close()
}
''')

plant(id='c23-whole-chars', prop='C23',
 needs='a read that holds complete lines and ends within a character, after which the other side waits for the answer',
 breaks='the normalizing reader does not hand on a partial character but reads on, so that the complete lines before it are not answered until more input comes',
 edits=[('gosudachicli/main.go', '''	n, err = norm.r.Read(p)
	for i := 0;''', '''	n, err = norm.r.Read(p)
	for err == nil && n < len(p) {
		i := n
		for i > 0 && n-i < utf8.UTFMax && !utf8.RuneStart(p[i-1]) {
			i--
		}
		if i == 0 || p[i-1] < utf8.RuneSelf || utf8.FullRune(p[i-1:n]) {
			break
		}
		// the rest of the character
		var m int
		m, err = norm.r.Read(p[n:])
		n += m
	}
	for i := 0;'''), ('gosudachicli/main.go', '''	"strings"

''', '''	"strings"
	"unicode/utf8"

''')],
 files={'commands': './gosudachicli\n'},
 main=TALK+'''
func main() {
	start()
	say("東京\\n")
	if !out.until("EOS\\n", 1) {
		bad("no answer to a line")
	}
	say("行く\\n\\xe6\\x9d")
	if !out.until("EOS\\n", 2) {
		bad("no answer to a line behind which a character has begun")
	}
	say("\\xb1京\\n")
	if !out.until("EOS\\n", 3) {
		bad("no answer to the last line")
	}
	in.Close()
}
''')

plant(id='c23-late-messages', prop='C23',
 needs='-f, and a line that cannot be analysed while the other side waits for word about it',
 breaks='messages about lines that cannot be analysed are collected and only given after the end of the input',
 edits=[('gosudachicli/main.go', '''			if ignoreError {
				fmt.Fprintln(os.Stderr, err)
''', '''			if ignoreError {
				messages = append(messages, err.Error())
'''), ('gosudachicli/main.go', '''	s := newLineScanner(input)
	for s.Scan() {
''', '''	s := newLineScanner(input)
	var messages []string
	defer func() {
		for _, m := range messages {
			fmt.Fprintln(os.Stderr, m)
		}
	}()
	for s.Scan() {
''')],
 files={'commands': './gosudachicli\n'},
 main=TALK+'''
func main() {
	start("-f")
	say("東京\\n")
	if !out.until("EOS\\n", 1) {
		bad("no answer to a line")
	}
	say("東京に\\n")
	if !msg.until("\\n", 1) {
		bad("no message about a line that cannot be analysed")
	}
	say("行く\\n")
	if !out.until("EOS\\n", 2) {
		bad("no answer to the last line")
	}
	in.Close()
}
''')

plant(id='c01-iter-reuse', prop='C01',
 needs='two tokenizers over one dictionary looking words up at the same time',
 breaks='the trie keeps its iterator and hands the same one to every lookup',
 edits=_pr['c01-iter-reuse'],
 files={'race': '1\n'},
 main='''
package main

import (
	"strings"
	"sync"
)

func main() {
	buildSystem("s.dic", flatMatrix, false, word("東", 0, 0, 400, noun), word("東京", 0, 0, 10, noun), word("京都", 0, 0, 20, noun), word("行く", 0, 0, 300, verb))
	d := setup{sys: "s.dic"}.mustLoad()
	defer d.Close()
	text := strings.Repeat("東京都行く京都", 30)
	want := tok(d.Create(), "C", text)
	var wg sync.WaitGroup
	got := make([]string, 4)
	for i := range got {
		i := i
		t := d.Create()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 50; k++ {
				if got[i] = tok(t, "C", text); got[i] != want {
					return
				}
			}
		}()
	}
	wg.Wait()
	for i := range got {
		if got[i] != want {
			bad("a tokenizer answers differently when another runs")
		}
	}
}
''')

plant(id='c02-psm-state', prop='C02',
 needs='a text that ends in a prolonged sound mark, and another one after it',
 breaks='the prolonged sound mark plugin keeps where it stands between texts, so that a run of marks at the end of one text goes on in the next',
 edits=_pr['c02-psm-state'],
 main='''
package main

import "github.com/msnoigrs/gosudachi"

func main() {
	buildSystem("s.dic", flatMatrix, false, word("あ", 0, 0, 10, noun), word("あー", 0, 0, 20, noun), word("東京", 0, 0, 30, noun), word("ー", 0, 0, 40, noun))
	marks := []string{"ー", "〜"}
	symbol := "ー"
	load := func() *gosudachi.JapaneseDictionary {
		return setup{sys: "s.dic", input: []gosudachi.InputTextPlugin{gosudachi.NewProlongedSoundMarkInputTextPlugin(&gosudachi.ProlongedSoundMarkInputTextPluginConfig{ProlongedSoundMarks: &marks, ReplacementSymbol: &symbol})}}.mustLoad()
	}
	texts := []string{"東京あ〜", "東京あー", "あ", "東京", "ー東京", "あーーー", "ー〜東京", "東京"}
	d := load()
	defer d.Close()
	t := d.Create()
	for _, x := range texts {
		f := load()
		want := tok(f.Create(), "C", x)
		f.Close()
		if got := tok(t, "C", x); got != want {
			bad("%s after other texts gives\\n%salone\\n%s", x, got, want)
		}
	}
}
''')

plant(id='c03-split-buffer', prop='C03',
 needs='two splits of morphemes of one list, the first result looked at after the second',
 breaks='the nodes of a split are kept in a buffer of the list they came from, which the next split overwrites',
 edits=_pr['c03-split-buffer'],
 main='''
package main

func main() {
	buildSystem("s.dic", flatMatrix, false,
		word("東", 0, 0, 4000, noun), word("京", 0, 0, 4000, noun), word("大", 0, 0, 4000, noun), word("阪", 0, 0, 4000, noun),
		wordFull("東京", 0, 0, 10, noun, "トウキョウ", "東京", "*", "C", "0/1", "0/1", "*"),
		wordFull("大阪", 0, 0, 10, noun, "オオサカ", "大阪", "*", "C", "2/3", "2/3", "*"))
	d := setup{sys: "s.dic"}.mustLoad()
	defer d.Close()
	ms, err := d.Create().Tokenize("C", "東京大阪")
	check(err)
	if ms.Length() != 2 {
		bad("not two morphemes:\\n%s", show(ms))
	}
	a := ms.Get(0).Split("A")
	before := show(a)
	b := ms.Get(1).Split("A")
	if b.Length() != 2 || show(a) != before {
		bad("a split changed from\\n%sto\\n%s", before, show(a))
	}
}
''')

plant(id='c04-join-files', prop='C04',
 needs='two input files, the first ending in CR and the second beginning with LF',
 breaks='the newline reader of a file starts with the last byte of the file before, so that an LF at its start is dropped as the second half of a CR LF',
 edits=_pr['c04-join-files'],
 files={'commands': './gosudachicli\n'},
 main='''
package main

import (
	"os"
	"os/exec"
	"strings"
)

func main() {
	buildSystem("s.dic", flatMatrix, false, word("東京", 0, 0, 10, noun), word("行く", 0, 0, 300, verb))
	writeFile("s.json", `{"systemDict":"s.dic","oovProviderPlugin":[{"class":"SimpleOovProviderPlugin","oovPOS":["名詞","普通名詞","一般","*","*","*"],"leftId":0,"rightId":0,"cost":30000}]}`)
	writeFile("a", "東京\\r")
	writeFile("b", "\\n行く\\n")
	run := func(names ...string) string {
		out, err := exec.Command(os.Getenv("BIN")+"/gosudachicli", append([]string{"-r", "s.json"}, names...)...).Output()
		check(err)
		return string(out)
	}
	if got := strings.Count(run("a", "b"), "EOS\\n"); got != 3 || run("a", "b") != run("a")+run("b") {
		bad("%d lines instead of 3", got)
	}
}
''')

plant(id='c08-matrix-int16', prop='C08',
 needs='a connection matrix of more than 65536 cells',
 breaks='the position in the connection matrix is computed with 16 bits, so that the costs in a large matrix are read from the wrong place',
 edits=_pr['c08-matrix-int16'],
 main='''
package main

import (
	"fmt"
	"strings"

	"github.com/msnoigrs/gosudachi/dictionary"
)

func main() {
	var b strings.Builder
	const n = 300
	fmt.Fprintf(&b, "%d %d\\n", n, n)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			fmt.Fprintf(&b, "%d %d %d\\n", i, j, (i*7+j*13)%20000)
		}
	}
	buildSystem("s.dic", b.String(), false, word("東京", 0, 0, 10, noun))
	d, err := dictionary.ReadSystemDictionary("s.dic", false)
	check(err)
	defer d.Close()
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if c := int(d.Grammar.GetConnectCost(int16(i), int16(j))); c != (i*7+j*13)%20000 {
				bad("cost of %d %d is %d", i, j, c)
			}
		}
	}
}
''')

plant(id='c14-cost-memo', prop='C14',
 needs='two user dictionaries with computed costs (-32768) where a word of the second is also in the first, with other parameters',
 breaks='computed costs are remembered by surface for the whole dictionary, so that the second user dictionary gets a cost computed when the first was not yet there',
 edits=_pr['c14-cost-memo'],
 main='''
package main

func main() {
	buildSystem("s.dic", flatMatrix, false, word("東", 0, 0, 4000, noun), word("京", 0, 0, 4000, noun))
	buildUser("u1.dic", "s.dic", false, word("東京", 0, 0, -32768, noun))
	buildUser("u2.dic", "s.dic", false, word("東", 0, 0, 100, noun), word("京", 0, 0, -5000, noun))
	buildUser("u3.dic", "s.dic", false, word("東京", 0, 0, -32768, verb))
	analyse := func(users ...string) int {
		d := setup{sys: "s.dic", users: users}.mustLoad()
		defer d.Close()
		ms, err := d.Create().Tokenize("C", "東京")
		check(err)
		return ms.Length()
	}
	// the words of u2 make 東+京 cheaper than u1's 東京, and the computed
	// cost of u3's 東京 is lower still
	for _, users := range [][]string{{"u1.dic"}, {"u2.dic", "u3.dic"}, {"u1.dic", "u3.dic"}, {"u1.dic", "u2.dic", "u3.dic"}} {
		if n := analyse(users...); n != 1 {
			bad("%v: %d morphemes, so that the word of the last dictionary is not cheaper than what was there before it", users, n)
		}
	}
}
''')
