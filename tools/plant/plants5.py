PLANTS = []
def plant(**kw): PLANTS.append(kw)

plant(id='c01-finalizer', prop='C01',
 needs='a tokenizer whose dictionary object is no longer referenced, a garbage collection, then a call (and a connection or word that is looked up)',
 breaks='files are closed by a finalizer although tokenizers still read from their mappings, so a collection started by anything in the process makes other tokenizers crash',
 edits=[('dictionary.go', '''	"io"
	"os"
''', '''	"io"
	"os"
	"runtime"
'''), ('dictionary.go', '''	d.dictionaries = append(d.dictionaries, dict)
	d.grammar = dict.Grammar
''', '''	d.keep(dict)
	d.grammar = dict.Grammar
'''), ('dictionary.go', '''	d.dictionaries = append(d.dictionaries, dict)
	d.lexicon.Add(''', '''	d.keep(dict)
	d.lexicon.Add('''), ('dictionary.go', '''func (d *JapaneseDictionary) ReadUserDictionary(''', '''// keep notes a dictionary to be closed with d, or when it has become garbage.
func (d *JapaneseDictionary) keep(dict *dictionary.BinaryDictionary) {
	runtime.SetFinalizer(dict, func(bd *dictionary.BinaryDictionary) { _ = bd.Close() })
	d.dictionaries = append(d.dictionaries, dict)
}

func (d *JapaneseDictionary) ReadUserDictionary(''')],
 main='''
package main

import (
	"runtime"
	"runtime/debug"
	"time"
)

func main() {
	debug.SetPanicOnFault(true)
	buildSystem("s.dic", flatMatrix, false, word("東京", 0, 0, 10, noun), word("行く", 0, 0, 300, verb))
	t := setup{sys: "s.dic"}.mustLoad().Create()
	want := tok(t, "C", "東京行く")
	for i := 0; i < 10; i++ {
		runtime.GC()
		time.Sleep(20 * time.Millisecond)
	}
	defer func() {
		if e := recover(); e != nil {
			bad("the tokenizer panics after a garbage collection: %v", e)
		}
	}()
	if got := tok(t, "C", "東京行く"); got != want {
		bad("after a garbage collection %s instead of %s", got, want)
	}
}
''')
