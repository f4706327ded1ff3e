REFACTORS = {}
R = REFACTORS
R['mem'] = [
('dictionary/binarydict.go', '''	finfo, err := fd.Stat()
	if err != nil {
		_ = fd.Close()
		return nil, err
	}
	fmap, err := mmap.Mmap(fd, false, 0, finfo.Size())
	if err != nil {
		_ = fd.Close()
		return nil, err
	}

	dict, err := parseBinaryDictionary(fmap, utf16string)
	if err != nil {
		_ = mmap.Munmap(fmap)
		_ = fd.Close()
''', '''	fmap, err := ioutil.ReadAll(fd)
	if err != nil {
		_ = fd.Close()
		return nil, err
	}
	fmap = fmap[:len(fmap):len(fmap)]

	dict, err := parseBinaryDictionary(fmap, utf16string)
	if err != nil {
		_ = fd.Close()
'''),
('dictionary/binarydict.go', '''	err := mmap.Munmap(bd.fmap)
	cerr := bd.fd.Close()
	if err != nil {
		return err
	}
	return cerr
''', '''	return bd.fd.Close()
'''),
('dictionary/binarydict.go', '''	"os"
	"runtime"

	"github.com/msnoigrs/gosudachi/internal/mmap"
''', '''	"io/ioutil"
	"os"
	"runtime"
'''),
('dictionary/dicprinter.go', '''	finfo, err := dictfd.Stat()
	if err != nil {
		return err
	}

	bytebuffer, err := mmap.Mmap(dictfd, false, 0, finfo.Size())
	if err != nil {
		return err
	}
	defer mmap.Munmap(bytebuffer)

	dh''', '''	bytebuffer := make([]byte, HeaderStorageSize)
	_, err = io.ReadFull(dictfd, bytebuffer)
	if err != nil {
		return err
	}

	dh'''),
('dictionary/dicprinter.go', '''	"time"

	"github.com/msnoigrs/gosudachi/internal/mmap"
''', '''	"time"
'''),
('settingsjson.go', '''	decoder := json.NewDecoder(reader)
''', '''	content, err := ioutil.ReadAll(reader)
	if err != nil {
		return err
	}
	decoder := json.NewDecoder(bytes.NewReader(content))
'''),
('settingsjson.go', '''	err := decoder.Decode(internalBaseConfig)
''', '''	err = decoder.Decode(internalBaseConfig)
'''),
('settingsjson.go', '''	"io"
''', '''	"bytes"
	"io"
	"io/ioutil"
'''),
('dictionary/dicbuilder.go', '''	var recordBuf []string
	r := newLexiconReader(input)
	for {
		cols, err := r.readRecord(recordBuf)
		if err == io.EOF {
			break
		}
		if err != nil {
			return err
		}
		// parseLine
''', '''	content := new(bytes.Buffer)
	if _, err := io.Copy(content, input); err != nil {
		return err
	}
	recordBuf := make([]string, 0, NumberOfColumns)
	r := newLexiconReader(content)
	for {
		cols, err := r.readRecord(recordBuf)
		if err == io.EOF {
			break
		}
		if err != nil {
			return err
		}
		// parseLine
'''),
('dicconv/main.go', '''	outputfd, err := atomicfile.Create(outputfile)
	if err != nil {
		fmt.Fprintf(os.Stderr, "%s: %s\\n", outputfile, err)
		return 1
	}
	defer outputfd.Abort()
	bufiooutput := bufio.NewWriter(outputfd)

	args := flag.Args()
	fromdic, err := dictionary.NewBinaryDictionary(args[0], !utf16string)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 1
	}
	defer fromdic.Close()
''', '''	fromdic, err := dictionary.NewBinaryDictionary(flag.Arg(0), !utf16string)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 1
	}
	defer fromdic.Close()

	outputfd, err := atomicfile.Create(outputfile)
	if err != nil {
		fmt.Fprintf(os.Stderr, "%s: %s\\n", outputfile, err)
		return 1
	}
	defer outputfd.Abort()
	bufiooutput := bufio.NewWriterSize(outputfd, 50)
'''),
('definputtextplugin.go', '''	r := lnreader.NewLineNumberReader(rewriteDefReader)
''', '''	content, err := ioutil.ReadAll(rewriteDefReader)
	if err != nil {
		return fmt.Errorf("DefaultInputTextPlugin: %s", err)
	}
	r := lnreader.NewLineNumberReader(strings.NewReader(string(content)))
'''),
('definputtextplugin.go', '''	"io"
''', '''	"io"
	"io/ioutil"
'''),
('internal/lnreader/lnreader.go', '''		r: bufio.NewReader(r),
''', '''		r: bufio.NewReaderSize(r, 16),
'''),
('internal/atomicfile/atomicfile.go', '''	err := f.Sync()
	if cerr := f.Close(); err == nil {
		err = cerr
	}
	if err == nil {
		err = os.Rename(f.tmp, f.path)
	}
	if err != nil {
		_ = os.Remove(f.tmp)
	}
	return err
''', '''	for _, step := range []func() error{
		f.Sync,
		f.Close,
		func() error { return os.Rename(f.tmp, f.path) },
		func() error { return syncDir(filepath.Dir(f.path)) },
	} {
		if err := step(); err != nil {
			f.Close()
			_ = os.Remove(f.tmp)
			return err
		}
	}
	return nil
'''),
('internal/atomicfile/atomicfile.go', '''// Abort drops''', '''func syncDir(name string) error {
	d, err := os.Open(name)
	if err != nil {
		return nil
	}
	defer d.Close()
	_ = d.Sync()
	return nil
}

// Abort drops'''),
]
