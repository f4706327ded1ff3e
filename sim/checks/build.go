package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"vsim/vos"
	"vsim/world"

	"github.com/msnoigrs/gosudachi/dictionary"
)

// memFile is a seekable file in memory for the library's writers. It can fail
// at one of its operations.
type memFile struct {
	b      []byte
	pos    int64
	ops    int
	failAt int  // 1-based operation that fails; 0: none
	part   int  // bytes accepted by a failing write
	once   bool // later operations succeed again
	failed bool
	log    []string
}

func (f *memFile) trip(kind string) bool {
	f.ops++
	f.log = append(f.log, kind)
	if f.failAt > 0 && (f.ops == f.failAt || (!f.once && f.ops > f.failAt)) {
		f.failed = true
		return true
	}
	return false
}

func (f *memFile) Write(p []byte) (int, error) {
	n := len(p)
	var err error
	if f.trip("write") {
		n, err = min(n, max(0, f.part)), errInjected
	}
	end := f.pos + int64(n)
	if int64(len(f.b)) < end {
		f.b = append(f.b, make([]byte, end-int64(len(f.b)))...)
	}
	copy(f.b[f.pos:], p[:n])
	f.pos = end
	return n, err
}

func (f *memFile) Seek(off int64, whence int) (int64, error) {
	if f.trip("seek") {
		return f.pos, errInjected
	}
	switch whence {
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off += int64(len(f.b))
	}
	if off < 0 {
		return f.pos, errors.New("negative position")
	}
	f.pos = off
	return off, nil
}

// libBuild builds a dictionary of a world with the library: the system
// dictionary (which 0) or a user dictionary, whose system dictionary is under
// the directory pre.
func libBuild(w *world.World, which int, u16 bool, pre string) ([]byte, error) {
	return libBuildOn(w, which, u16, pre, nil)
}

// libBuildOn does so with an open system dictionary, if there is one.
func libBuildOn(w *world.World, which int, u16 bool, pre string, sd *dictionary.BinaryDictionary) ([]byte, error) {
	if which > len(w.Users) {
		which = 0
	}
	out := &memFile{}
	ver := uint64(dictionary.SystemDictVersion)
	desc := w.Sys.Desc
	if which > 0 {
		ver = dictionary.UserDictVersion2
		desc = w.Users[which-1].Desc
	}
	hb, err := dictionary.NewDictionaryHeader(ver, 1234567, desc).ToBytes()
	if err != nil {
		return nil, err
	}
	if _, err := out.Write(hb); err != nil {
		return nil, err
	}
	if which == 0 {
		b := dictionary.NewDictionaryBuilder(int64(len(hb)), nil, u16)
		store := dictionary.NewPosTable()
		if err := b.BuildLexicon(store, bytes.NewReader(w.Files["/w/lex.csv"])); err != nil {
			return nil, err
		}
		if err := b.WriteGrammar(store, bytes.NewReader(w.Files["/w/matrix.def"]), out); err != nil {
			return nil, err
		}
		if err := b.WriteLexicon(out, store); err != nil {
			return nil, err
		}
		return out.b, nil
	}
	if sd == nil {
		if sd, err = dictionary.ReadSystemDictionary(pre+"/w/system.dic", u16); err != nil {
			return nil, err
		}
		defer sd.Close()
	}
	b := dictionary.NewDictionaryBuilder(int64(len(hb)), sd.Lexicon, u16)
	store := dictionary.NewPosTableUser(sd.Grammar)
	if err := b.BuildLexicon(store, bytes.NewReader(w.Files[fmt.Sprintf("/w/user%d.csv", which)])); err != nil {
		return nil, err
	}
	if err := b.WriteGrammarUser(&store.PosTable, out); err != nil {
		return nil, err
	}
	if err := b.WriteLexicon(out, store); err != nil {
		return nil, err
	}
	return out.b, nil
}

// libConvert converts a dictionary to the other encoding with the library, as
// dicconv does.
func libConvert(file string, u16 bool) ([]byte, error) {
	d, err := dictionary.NewBinaryDictionary(file, u16)
	if err != nil {
		return nil, err
	}
	defer d.Close()
	return libConvertOpen(d, u16)
}

func libConvertOpen(d *dictionary.BinaryDictionary, u16 bool) ([]byte, error) {
	var out bytes.Buffer
	hb, err := d.Header.ToBytes()
	if err != nil {
		return nil, err
	}
	out.Write(hb)
	off := int64(out.Len())
	if d.Grammar != nil {
		if err := d.Grammar.WritePOSTableTo(&out, !u16); err != nil {
			return nil, err
		}
		if _, err := d.Grammar.WriteConnMatrixTo(&out); err != nil {
			return nil, err
		}
	}
	if _, err := d.Lexicon.WriteTrieTo(&out); err != nil {
		return nil, err
	}
	if _, err := d.Lexicon.WriteWordIdTableTo(&out); err != nil {
		return nil, err
	}
	if _, err := d.Lexicon.WriteWordParamsTo(&out); err != nil {
		return nil, err
	}
	off = int64(out.Len())
	l := int64(4 * d.Lexicon.Size())
	var infos bytes.Buffer
	_, offs, err := d.Lexicon.WriteWordInfos(&infos, off, l, !u16)
	if err != nil {
		return nil, err
	}
	out.Write(offs.Bytes())
	out.Write(infos.Bytes())
	return out.Bytes(), nil
}

var _ = vos.Epoch
