package main

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"os"
	"strings"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dictionary"
)

const (
	noun = "名詞,普通名詞,一般,*,*,*"
	num  = "名詞,数詞,*,*,*,*"
	verb = "動詞,一般,*,*,*,*"
)

// word is one lexicon line: headword (also surface and forms), ids, cost.
func word(head string, left, right, cost int, pos string) string {
	return wordFull(head, left, right, cost, pos, "ヨミ"+head, head, "*", "A", "*", "*", "*")
}

func wordFull(head string, left, right, cost int, pos, reading, norm, dic, mode, a, b, ws string) string {
	return fmt.Sprintf("%s,%d,%d,%d,%s,%s,%s,%s,%s,%s,%s,%s,%s\n", head, left, right, cost, head, pos, reading, norm, dic, mode, a, b, ws)
}

const flatMatrix = "2 2\n0 0 0\n0 1 0\n1 0 0\n1 1 0\n"

func check(err error) {
	if err != nil {
		fmt.Println("unexpected error:", err)
		os.Exit(1)
	}
}

func bad(format string, args ...interface{}) {
	fmt.Printf("WRONG: "+format+"\n", args...)
	os.Exit(1)
}

// buildSystem writes a system dictionary with the library.
func buildSystem(path, matrix string, u16 bool, lines ...string) {
	check(tryBuildSystem(path, matrix, u16, lines...))
}

func tryBuildSystem(path, matrix string, u16 bool, lines ...string) error {
	fd, err := os.Create(path)
	check(err)
	defer fd.Close()
	hb, err := dictionary.NewDictionaryHeader(dictionary.SystemDictVersion, 1234567890, "demo").ToBytes()
	check(err)
	_, err = fd.Write(hb)
	check(err)
	store := dictionary.NewPosTable()
	b := dictionary.NewDictionaryBuilder(int64(len(hb)), nil, u16)
	if err := b.BuildLexicon(store, strings.NewReader(strings.Join(lines, ""))); err != nil {
		return err
	}
	if err := b.WriteGrammar(store, strings.NewReader(matrix), fd); err != nil {
		return err
	}
	return b.WriteLexicon(fd, store)
}

// buildUser writes a user dictionary for the system dictionary at sys.
func buildUser(path, sys string, u16 bool, lines ...string) {
	sdic, err := dictionary.ReadSystemDictionary(sys, u16)
	check(err)
	defer sdic.Close()
	fd, err := os.Create(path)
	check(err)
	defer fd.Close()
	hb, err := dictionary.NewDictionaryHeader(dictionary.UserDictVersion2, 1234567890, "demo user").ToBytes()
	check(err)
	_, err = fd.Write(hb)
	check(err)
	store := dictionary.NewPosTableUser(sdic.Grammar)
	b := dictionary.NewDictionaryBuilder(int64(len(hb)), sdic.Lexicon, u16)
	check(b.BuildLexicon(store, strings.NewReader(strings.Join(lines, ""))))
	check(b.WriteGrammarUser(&store.PosTable, fd))
	check(b.WriteLexicon(fd, store))
}

// setup is what a dictionary is loaded from.
type setup struct {
	sys   string
	users []string
	u16   bool
	input []gosudachi.InputTextPlugin
	oov   []gosudachi.OovProviderPlugin
	path  []gosudachi.PathRewritePlugin
	edit  []gosudachi.EditConnectionCostPlugin
	chars string
}

func (s setup) load() (*gosudachi.JapaneseDictionary, error) {
	if s.oov == nil {
		pos := strings.Split(noun, ",")
		var id, cost int16 = 0, 30000
		s.oov = []gosudachi.OovProviderPlugin{gosudachi.NewSimpleOovProviderPlugin(&gosudachi.SimpleOovProviderPluginConfig{OovPos: &pos, LeftId: &id, RightId: &id, Cost: &cost})}
	}
	return gosudachi.NewJapaneseDictionary(&gosudachi.BaseConfig{SystemDict: s.sys, UserDict: s.users, Utf16String: s.u16, CharacterDefinitionFile: s.chars}, s.input, s.oov, s.path, s.edit)
}

func (s setup) mustLoad() *gosudachi.JapaneseDictionary {
	d, err := s.load()
	check(err)
	return d
}

// show is everything a morpheme list says.
func show(ms *gosudachi.MorphemeList) string {
	var buf bytes.Buffer
	for i := 0; i < ms.Length(); i++ {
		m := ms.Get(i)
		fmt.Fprintf(&buf, "%d-%d %q %s %s %s %s %v %d %d\n", m.Begin(), m.End(), m.Surface(), strings.Join(m.PartOfSpeech(), ","),
			m.NormalizedForm(), m.DictionaryForm(), m.ReadingForm(), m.IsOOV(), m.GetWordId(), m.GetDictionaryId())
	}
	return buf.String()
}

func tok(t *gosudachi.JapaneseTokenizer, mode, text string) string {
	ms, err := t.Tokenize(mode, text)
	if err != nil {
		return "error: " + err.Error()
	}
	return show(ms)
}

func readFile(name string) string {
	b, err := ioutil.ReadFile(name)
	check(err)
	return string(b)
}

func writeFile(name, s string) {
	check(ioutil.WriteFile(name, []byte(s), 0644))
}
