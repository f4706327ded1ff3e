From eac9380484b832123d075125a5341f3d49dd85ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:06 +0000
Subject: [PATCH 01/31] fix: clear the lattice after a failed Tokenize too

Nodes left behind by a failed call took part in the next one.
---
 tokenizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tokenizer.go b/tokenizer.go
index 0d194a5..616ad94 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -54,6 +54,7 @@ func (t *JapaneseTokenizer) Tokenize(mode string, text string) (*MorphemeList, e
 		fmt.Fprintln(t.DumpOutput, input.GetText())
 	}
 
+	defer t.lattice.clear()
 	err := t.buildLattice(input)
 	if err != nil {
 		return nil, err
@@ -80,7 +81,6 @@ func (t *JapaneseTokenizer) Tokenize(mode string, text string) (*MorphemeList, e
 			return nil, err
 		}
 	}
-	t.lattice.clear()
 
 	if mode != "C" {
 		path = t.splitPath(path, mode)
-- 
2.43.0


From 29ee8987771201a54a5fffe3c5b21653e0d218e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:19 +0000
Subject: [PATCH 02/31] fix: look up system parts of speech column by column
 when building a user dictionary

PosTableUser handed the joined columns to Grammar.GetPosId, which compares
column by column, so a part of speech of the system dictionary was never
found: it was stored again in the user dictionary, and inline references to
words of the system dictionary were refused.
---
 dictionary/dicbuilder.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index f92ceb9..0e9f46c 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -77,18 +77,14 @@ type PosTableUser struct {
 	baseStore PosIdStore
 }
 
-func (pt *PosTableUser) getId(s string) int16 {
-	posId := pt.baseStore.GetPosId(s)
+func (pt *PosTableUser) GetPosId(posstrings ...string) int16 {
+	posId := pt.baseStore.GetPosId(posstrings...)
 	if posId < 0 {
-		posId = pt.PosTable.getId(s) + int16(pt.baseStore.GetPartOfSpeechSize())
+		posId = pt.PosTable.GetPosId(posstrings...) + int16(pt.baseStore.GetPartOfSpeechSize())
 	}
 	return posId
 }
 
-func (pt *PosTableUser) GetPosId(posstrings ...string) int16 {
-	return pt.getId(strings.Join(posstrings, ","))
-}
-
 func NewPosTableUser(base PosIdStore) *PosTableUser {
 	return &PosTableUser{
 		PosTable: PosTable{
-- 
2.43.0


From e8b93116574f1d7ca4b633d4c0f68985d65bd57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:34 +0000
Subject: [PATCH 03/31] fix: do not look past the bytes read when removing the
 LF of a CR LF pair

When the LF was the last byte of a read, the normalizer copied the byte behind
the data it had just read over it and took that for the last character. A stale
CR there made it drop the LF of a following empty line.
---
 gosudachicli/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gosudachicli/main.go b/gosudachicli/main.go
index 9476437..c7a17ce 100644
--- a/gosudachicli/main.go
+++ b/gosudachicli/main.go
@@ -160,8 +160,8 @@ func (norm *normalizer) Read(p []byte) (n int, err error) {
 	for i := 0; i < n; i++ {
 		switch {
 		case p[i] == '\n' && norm.lastChar == '\r':
-			copy(p[i:n], p[i+1:])
-			norm.lastChar = p[i]
+			copy(p[i:], p[i+1:n])
+			norm.lastChar = '\n'
 			n--
 			i--
 		case p[i] == '\r':
-- 
2.43.0


From b86da3ea45ed3ba90414f510170e997d5a236932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:03 +0000
Subject: [PATCH 04/31] fix: gosudachicli reports output failures and keeps the
 output before a failure

Errors of writing, flushing and closing the output were ignored, and os.Exit
skipped flushing the output file when a line or an input failed.
---
 gosudachicli/main.go | 67 +++++++++++++++++++++++++++++++-------------
 1 file changed, 48 insertions(+), 19 deletions(-)

diff --git a/gosudachicli/main.go b/gosudachicli/main.go
index c7a17ce..f2a0e86 100644
--- a/gosudachicli/main.go
+++ b/gosudachicli/main.go
@@ -225,10 +225,28 @@ func (s *lineScanner) Text() string {
 	return string(s.line)
 }
 
-func runFromReader(tokenizer *gosudachi.JapaneseTokenizer, mode string, input io.Reader, output io.Writer, printAll bool, ignoreError bool) error {
+// outputWriter remembers the first error, so that nothing is written behind a
+// gap and the error is not lost.
+type outputWriter struct {
+	w   io.Writer
+	err error
+}
+
+func (o *outputWriter) Write(p []byte) (n int, err error) {
+	if o.err != nil {
+		return 0, o.err
+	}
+	n, o.err = o.w.Write(p)
+	return n, o.err
+}
+
+func runFromReader(tokenizer *gosudachi.JapaneseTokenizer, mode string, input io.Reader, output *outputWriter, printAll bool, ignoreError bool) error {
 	s := newLineScanner(input)
 	for s.Scan() {
 		err := run(tokenizer, mode, s.Text(), output, printAll)
+		if output.err != nil {
+			return output.err
+		}
 		if err != nil {
 			if ignoreError {
 				fmt.Fprintln(os.Stderr, err)
@@ -271,6 +289,10 @@ func run(tokenizer *gosudachi.JapaneseTokenizer, mode string, text string, outpu
 }
 
 func main() {
+	os.Exit(realMain())
+}
+
+func realMain() (status int) {
 	flag.Usage = func() {
 		fmt.Fprintf(os.Stderr, `Usage of %s:
 	%s [-r file|-s jsonstring] [-m A|B|C] [-o file] [-p dir] [-j] [file ...]
@@ -307,38 +329,44 @@ Options:
 		ex, err := os.Executable()
 		if err != nil {
 			fmt.Fprintln(os.Stderr, err)
-			os.Exit(1)
+			return 1
 		}
 		resourcesdir = filepath.Dir(ex)
 	}
 
-	var output io.Writer
+	output := &outputWriter{w: os.Stdout}
 	if outputfile != "" {
 		if !filepath.IsAbs(outputfile) {
 			var err error
 			outputfile, err = filepath.Abs(outputfile)
 			if err != nil {
 				fmt.Fprintln(os.Stderr, err)
-				os.Exit(1)
+				return 1
 			}
 		}
 		outputfd, err := os.OpenFile(outputfile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
 		if err != nil {
 			fmt.Fprintf(os.Stderr, "%s: %s\n", outputfile, err)
-			os.Exit(1)
+			return 1
 		}
-		defer outputfd.Close()
 		bufiooutput := bufio.NewWriter(outputfd)
-		defer bufiooutput.Flush()
-		output = bufiooutput
-	} else {
-		output = os.Stdout
+		defer func() {
+			err := bufiooutput.Flush()
+			if cerr := outputfd.Close(); err == nil {
+				err = cerr
+			}
+			if err != nil {
+				fmt.Fprintf(os.Stderr, "%s: %s\n", outputfile, err)
+				status = 1
+			}
+		}()
+		output.w = bufiooutput
 	}
 
 	settings, pluginmaker, err := parseSettings(resourcesdir, settingfile, mergesettings)
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "fail to parse settings: %s\n", err)
-		os.Exit(1)
+		return 1
 	}
 
 	if utf16string {
@@ -348,22 +376,22 @@ Options:
 	inputTextPlugins, err := pluginmaker.GetInputTextPluginArray(makeInputTextPlugin)
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "fail to cleate any InputTextPlugin: %s\n", err)
-		os.Exit(1)
+		return 1
 	}
 	oovProviderPlugins, err := pluginmaker.GetOovProviderPluginArray(makeOovProviderPlugin)
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "fail to cleate any OovProviderPlugin: %s\n", err)
-		os.Exit(1)
+		return 1
 	}
 	pathRewritePlugins, err := pluginmaker.GetPathRewritePluginArray(makePathRewritePlugin)
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "fail to cleate any PathRewritePlugin: %s\n", err)
-		os.Exit(1)
+		return 1
 	}
 	editConnectionCostPlugins, err := pluginmaker.GetEditConnectionCostPluginArray(makeEditConnectionCostPlugin)
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "fail to cleate any ConnectionCostPlugin: %s\n", err)
-		os.Exit(1)
+		return 1
 	}
 
 	dict, err := gosudachi.NewJapaneseDictionary(
@@ -375,7 +403,7 @@ Options:
 	)
 	if err != nil {
 		fmt.Fprintln(os.Stderr, err)
-		os.Exit(1)
+		return 1
 	}
 	defer dict.Close()
 
@@ -389,22 +417,23 @@ Options:
 			input, err := os.OpenFile(arg, os.O_RDONLY, 0644)
 			if err != nil {
 				fmt.Fprintf(os.Stderr, "%s: %s", arg, err)
-				os.Exit(1)
+				return 1
 			}
 			err = runFromReader(tokenizer, mode, input, output, printall, ignoreerr)
 			input.Close()
 			if err != nil {
 				fmt.Fprintln(os.Stderr, err)
-				os.Exit(1)
+				return 1
 			}
 		}
 	} else {
 		err = runFromReader(tokenizer, mode, os.Stdin, output, printall, ignoreerr)
 		if err != nil {
 			fmt.Fprintln(os.Stderr, err)
-			os.Exit(1)
+			return 1
 		}
 	}
+	return 0
 }
 
 func parseSettings(basePath string, settingfile string, mergeString string) (gosudachi.Settings, gosudachi.PluginMaker, error) {
-- 
2.43.0


From 7a51f1e38f1a832a4e8b8fd8c0352f90d98d022d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:03 +0000
Subject: [PATCH 05/31] fix: report a failure to read the first line of the
 connection matrix

---
 dictionary/dicbuilder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index 0e9f46c..88fc9a7 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -494,6 +494,9 @@ func (dicbuilder *DictionaryBuilder) WriteGrammar(postable *PosTable, input io.R
 	if err == io.EOF {
 		return fmt.Errorf("invalid format at line %d", r.NumLine)
 	}
+	if err != nil {
+		return err
+	}
 
 	fmt.Fprint(os.Stderr, "writing the connection matrix...")
 
-- 
2.43.0


From 550d7be6b5a7e65cacacb1f97948bd4012e5a037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:03 +0000
Subject: [PATCH 06/31] fix: WriteWordInfos reports a failed write

---
 dictionary/dalexicon.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary/dalexicon.go b/dictionary/dalexicon.go
index 88bb645..6f7f187 100644
--- a/dictionary/dalexicon.go
+++ b/dictionary/dalexicon.go
@@ -352,6 +352,9 @@ func (lexicon *DoubleArrayLexicon) WriteWordInfos(writer io.Writer, offset int64
 			return 0, offsets, err
 		}
 		n, err := buffer.WriteTo(writer)
+		if err != nil {
+			return 0, offsets, err
+		}
 		buffer.Reset()
 		position += n
 	}
-- 
2.43.0


From 16c9df86778e31affac44cb227ed8de8c6a3dacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:03 +0000
Subject: [PATCH 07/31] fix: PrintDictionary reports a failed write

---
 dictionary/dicprinter.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dictionary/dicprinter.go b/dictionary/dicprinter.go
index 5714e62..d7b070f 100644
--- a/dictionary/dicprinter.go
+++ b/dictionary/dicprinter.go
@@ -46,7 +46,7 @@ func PrintDictionary(filename string, utf16string bool, systemDict *BinaryDictio
 
 		unitType := getUnitType(wi)
 
-		fmt.Fprintf(output,
+		_, err := fmt.Fprintf(output,
 			"%s,%d,%d,%d,%s,%s,%s,%s,%s,%s,%s,%s,%s\n",
 			wi.Surface,
 			leftId,
@@ -62,6 +62,9 @@ func PrintDictionary(filename string, utf16string bool, systemDict *BinaryDictio
 			splitToString(wi.BUnitSplit),
 			splitToString(wi.WordStructure),
 		)
+		if err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 1e616efed1ad8f89b5060cf2c368dd39af02b0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:03 +0000
Subject: [PATCH 08/31] fix: dicconv stops if it cannot open its input

---
 dicconv/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dicconv/main.go b/dicconv/main.go
index 638a81b..3ed2d09 100644
--- a/dicconv/main.go
+++ b/dicconv/main.go
@@ -65,6 +65,7 @@ Options:
 	fromdic, err := dictionary.NewBinaryDictionary(args[0], !utf16string)
 	if err != nil {
 		fmt.Fprintln(os.Stderr, err)
+		os.Exit(1)
 	}
 	defer fromdic.Close()
 
-- 
2.43.0


From 4d159fed96e0bdcac4f6a30b173cf87b9f92edfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:38 +0000
Subject: [PATCH 09/31] fix: PrintHeader returns an error for short, foreign or
 unwritable files instead of panicking, exiting or succeeding

---
 dictionary/dicheader.go  |  4 ++++
 dictionary/dicprinter.go | 27 +++++++++++++++++++--------
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/dictionary/dicheader.go b/dictionary/dicheader.go
index cb6e4f6..3f82391 100644
--- a/dictionary/dicheader.go
+++ b/dictionary/dicheader.go
@@ -25,7 +25,11 @@ func NewDictionaryHeader(version uint64, createTime int64, description string) *
 	}
 }
 
+// ParseDictionaryHeader returns nil if input is too short to hold a header.
 func ParseDictionaryHeader(input []byte, offset int) *DictionaryHeader {
+	if len(input)-offset < HeaderStorageSize {
+		return nil
+	}
 	offset, version := bufferToUint64(input, offset)
 	offset, createTime := bufferToInt64(input, offset)
 
diff --git a/dictionary/dicprinter.go b/dictionary/dicprinter.go
index d7b070f..169e21e 100644
--- a/dictionary/dicprinter.go
+++ b/dictionary/dicprinter.go
@@ -115,23 +115,34 @@ func PrintHeader(dictfile string, output io.Writer) error {
 	defer mmap.Munmap(bytebuffer)
 
 	dh := ParseDictionaryHeader(bytebuffer, 0)
+	if dh == nil {
+		return fmt.Errorf("invalid header: %s", dictfile)
+	}
 
-	fmt.Fprintf(output, "filename: %s\n", dictfile)
+	_, err = fmt.Fprintf(output, "filename: %s\n", dictfile)
+	if err != nil {
+		return err
+	}
 
 	switch dh.Version {
 	case SystemDictVersion:
-		fmt.Fprintln(output, "type: system dictionary")
+		_, err = fmt.Fprintln(output, "type: system dictionary")
 	case UserDictVersion, UserDictVersion2:
-		fmt.Fprintln(output, "type: user dictionary")
+		_, err = fmt.Fprintln(output, "type: user dictionary")
 	default:
 		fmt.Fprintln(output, "invalid file")
-		os.Exit(1)
+		return fmt.Errorf("invalid file: %s", dictfile)
+	}
+	if err != nil {
+		return err
 	}
 
 	ctime := time.Unix(dh.CreateTime, 0)
 	zone, _ := ctime.Zone()
-	fmt.Fprintf(output, "createTime: %s[%s]\n", ctime.Format(time.RFC3339), zone)
-	fmt.Fprintf(output, "description: %s\n", dh.Description)
-
-	return nil
+	_, err = fmt.Fprintf(output, "createTime: %s[%s]\n", ctime.Format(time.RFC3339), zone)
+	if err != nil {
+		return err
+	}
+	_, err = fmt.Fprintf(output, "description: %s\n", dh.Description)
+	return err
 }
-- 
2.43.0


From 66fcd3896abaa79d29c8fbe3bb7f7861222f809a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:39 +0000
Subject: [PATCH 10/31] fix: dictionary tools replace their output only once it
 is complete, and report a failure to close it

---
 dicbuilder/main.go                | 34 +++++++----
 dicconv/main.go                   | 54 +++++++++++-------
 internal/atomicfile/atomicfile.go | 93 +++++++++++++++++++++++++++++++
 userdicbuilder/main.go            | 34 +++++++----
 4 files changed, 172 insertions(+), 43 deletions(-)
 create mode 100644 internal/atomicfile/atomicfile.go

diff --git a/dicbuilder/main.go b/dicbuilder/main.go
index 566b3bb..782dde8 100644
--- a/dicbuilder/main.go
+++ b/dicbuilder/main.go
@@ -8,11 +8,16 @@ import (
 	"time"
 
 	"github.com/msnoigrs/gosudachi/dictionary"
+	"github.com/msnoigrs/gosudachi/internal/atomicfile"
 	"golang.org/x/text/language"
 	"golang.org/x/text/message"
 )
 
 func main() {
+	os.Exit(run())
+}
+
+func run() int {
 	flag.Usage = func() {
 		fmt.Fprintf(os.Stderr, `Usage of %s:
 	%s -o file -m file [-d description] [-j] file1 [file2 ...]
@@ -37,7 +42,7 @@ Options:
 
 	if outputpath == "" || matrixpath == "" || len(flag.Args()) == 0 {
 		flag.Usage()
-		os.Exit(1)
+		return 1
 	}
 
 	dh := dictionary.NewDictionaryHeader(
@@ -49,32 +54,32 @@ Options:
 	hb, err := dh.ToBytes()
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "%s\n", err)
-		os.Exit(1)
+		return 1
 	}
 
-	outputWriter, err := os.OpenFile(outputpath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
+	outputWriter, err := atomicfile.Create(outputpath)
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "%s: %s\n", outputpath, err)
-		os.Exit(1)
+		return 1
 	}
-	defer outputWriter.Close()
+	defer outputWriter.Abort()
 
 	bufout := bufio.NewWriter(outputWriter)
 	n, err := bufout.Write(hb)
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "fail to write header: %s\n", err)
-		os.Exit(1)
+		return 1
 	}
 	err = bufout.Flush()
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "fail to write header: %s\n", err)
-		os.Exit(1)
+		return 1
 	}
 
 	matrixReader, err := os.OpenFile(matrixpath, os.O_RDONLY, 0644)
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "%s: %s\n", matrixpath, err)
-		os.Exit(1)
+		return 1
 	}
 	defer matrixReader.Close()
 
@@ -86,7 +91,7 @@ Options:
 		err := build(dicbuilder, store, lexiconpath)
 		if err != nil {
 			fmt.Fprintf(os.Stderr, "%s: %s\n", lexiconpath, err)
-			os.Exit(1)
+			return 1
 		}
 	}
 	p := message.NewPrinter(language.English)
@@ -95,14 +100,21 @@ Options:
 	err = dicbuilder.WriteGrammar(store, matrixReader, outputWriter)
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "fail to write grammar: %s\n", err)
-		os.Exit(1)
+		return 1
 	}
 
 	err = dicbuilder.WriteLexicon(outputWriter, store)
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "fail to write lexicon: %s\n", err)
-		os.Exit(1)
+		return 1
+	}
+
+	err = outputWriter.Commit()
+	if err != nil {
+		fmt.Fprintf(os.Stderr, "%s: %s\n", outputpath, err)
+		return 1
 	}
+	return 0
 }
 
 func build(dicbuilder *dictionary.DictionaryBuilder, store dictionary.PosIdStore, lexiconpath string) error {
diff --git a/dicconv/main.go b/dicconv/main.go
index 3ed2d09..2646d92 100644
--- a/dicconv/main.go
+++ b/dicconv/main.go
@@ -10,11 +10,16 @@ import (
 	"path/filepath"
 
 	"github.com/msnoigrs/gosudachi/dictionary"
+	"github.com/msnoigrs/gosudachi/internal/atomicfile"
 	"golang.org/x/text/language"
 	"golang.org/x/text/message"
 )
 
 func main() {
+	os.Exit(run())
+}
+
+func run() int {
 	flag.Usage = func() {
 		fmt.Fprintf(os.Stderr, `Usage of %s:
 	%s [-o file] [-j] file
@@ -35,7 +40,7 @@ Options:
 
 	if len(flag.Args()) == 0 {
 		flag.Usage()
-		os.Exit(1)
+		return 1
 	}
 
 	if outputfile == "" {
@@ -50,36 +55,36 @@ Options:
 		outputfile, err = filepath.Abs(outputfile)
 		if err != nil {
 			fmt.Fprintln(os.Stderr, err)
-			os.Exit(1)
+			return 1
 		}
 	}
-	outputfd, err := os.OpenFile(outputfile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
+	outputfd, err := atomicfile.Create(outputfile)
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "%s: %s\n", outputfile, err)
-		os.Exit(1)
+		return 1
 	}
-	defer outputfd.Close()
+	defer outputfd.Abort()
 	bufiooutput := bufio.NewWriter(outputfd)
 
 	args := flag.Args()
 	fromdic, err := dictionary.NewBinaryDictionary(args[0], !utf16string)
 	if err != nil {
 		fmt.Fprintln(os.Stderr, err)
-		os.Exit(1)
+		return 1
 	}
 	defer fromdic.Close()
 
 	hb, err := fromdic.Header.ToBytes()
 	if err != nil {
 		fmt.Fprintln(os.Stderr, err)
-		os.Exit(1)
+		return 1
 	}
 
 	var offset int64
 	n, err := bufiooutput.Write(hb)
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "fail to write header: %s\n", err)
-		os.Exit(1)
+		return 1
 	}
 	offset = int64(n)
 
@@ -91,12 +96,12 @@ Options:
 		err = fromdic.Grammar.WritePOSTableTo(buffer, utf16string)
 		if err != nil {
 			fmt.Fprintln(os.Stderr, err)
-			os.Exit(1)
+			return 1
 		}
 		n64, err = buffer.WriteTo(bufiooutput)
 		if err != nil {
 			fmt.Fprintln(os.Stderr, err)
-			os.Exit(1)
+			return 1
 		}
 		p.Fprintf(os.Stderr, " %d bytes\n", n64)
 		buffer.Reset()
@@ -106,7 +111,7 @@ Options:
 		n, err = fromdic.Grammar.WriteConnMatrixTo(bufiooutput)
 		if err != nil {
 			fmt.Fprintln(os.Stderr, err)
-			os.Exit(1)
+			return 1
 		}
 		p.Fprintf(os.Stderr, " %d bytes\n", n)
 		offset += int64(n)
@@ -116,7 +121,7 @@ Options:
 	n, err = fromdic.Lexicon.WriteTrieTo(bufiooutput)
 	if err != nil {
 		fmt.Fprintln(os.Stderr, err)
-		os.Exit(1)
+		return 1
 	}
 	p.Fprintf(os.Stderr, " %d bytes\n", n)
 	offset += int64(n)
@@ -125,7 +130,7 @@ Options:
 	n, err = fromdic.Lexicon.WriteWordIdTableTo(bufiooutput)
 	if err != nil {
 		fmt.Fprintln(os.Stderr, err)
-		os.Exit(1)
+		return 1
 	}
 	p.Fprintf(os.Stderr, " %d bytes\n", n)
 	offset += int64(n)
@@ -134,7 +139,7 @@ Options:
 	n, err = fromdic.Lexicon.WriteWordParamsTo(bufiooutput)
 	if err != nil {
 		fmt.Fprintln(os.Stderr, err)
-		os.Exit(1)
+		return 1
 	}
 	p.Fprintf(os.Stderr, " %d bytes\n", n)
 	offset += int64(n)
@@ -142,7 +147,7 @@ Options:
 	err = bufiooutput.Flush()
 	if err != nil {
 		fmt.Fprintln(os.Stderr, err)
-		os.Exit(1)
+		return 1
 	}
 
 	fmt.Fprint(os.Stderr, "writting the wordInfos...")
@@ -150,41 +155,48 @@ Options:
 	_, err = outputfd.Seek(offsetlen, io.SeekCurrent)
 	if err != nil {
 		fmt.Fprintln(os.Stderr, err)
-		os.Exit(1)
+		return 1
 	}
 	bufiooutput = bufio.NewWriter(outputfd)
 
 	n, offsets, err := fromdic.Lexicon.WriteWordInfos(bufiooutput, offset, offsetlen, utf16string)
 	if err != nil {
 		fmt.Fprintln(os.Stderr, err)
-		os.Exit(1)
+		return 1
 	}
 	p.Fprintf(os.Stderr, " %d bytes\n", n)
 
 	err = bufiooutput.Flush()
 	if err != nil {
 		fmt.Fprintln(os.Stderr, err)
-		os.Exit(1)
+		return 1
 	}
 
 	fmt.Fprint(os.Stderr, "writting wordInfo offsets...")
 	_, err = outputfd.Seek(offset, io.SeekStart)
 	if err != nil {
 		fmt.Fprintln(os.Stderr, err)
-		os.Exit(1)
+		return 1
 	}
 	bufiooutput = bufio.NewWriter(outputfd)
 
 	n64, err = offsets.WriteTo(bufiooutput)
 	if err != nil {
 		fmt.Fprintln(os.Stderr, err)
-		os.Exit(1)
+		return 1
 	}
 	p.Fprintf(os.Stderr, " %d bytes\n", n64)
 
 	err = bufiooutput.Flush()
 	if err != nil {
 		fmt.Fprintln(os.Stderr, err)
-		os.Exit(1)
+		return 1
+	}
+
+	err = outputfd.Commit()
+	if err != nil {
+		fmt.Fprintf(os.Stderr, "%s: %s\n", outputfile, err)
+		return 1
 	}
+	return 0
 }
diff --git a/internal/atomicfile/atomicfile.go b/internal/atomicfile/atomicfile.go
new file mode 100644
index 0000000..e3ec29c
--- /dev/null
+++ b/internal/atomicfile/atomicfile.go
@@ -0,0 +1,93 @@
+// Package atomicfile writes files that take their name only once they are
+// complete. Until then, and if writing fails or the process dies, whatever had
+// the name before stays as it is.
+package atomicfile
+
+import (
+	"fmt"
+	"os"
+	"path/filepath"
+)
+
+// File is a file being written. Commit makes it take its name.
+type File struct {
+	*os.File
+	path   string
+	tmp    string // "" if path is written directly
+	closed bool
+}
+
+// Create starts writing the file name. Devices and the like are opened
+// directly.
+func Create(name string) (*File, error) {
+	path := name
+	if real, err := filepath.EvalSymlinks(name); err == nil {
+		path = real
+	}
+	mode := os.FileMode(0644)
+	finfo, err := os.Stat(path)
+	exists := err == nil
+	if exists {
+		// do not replace a file that may not be written
+		fd, err := os.OpenFile(path, os.O_WRONLY, 0)
+		if err != nil {
+			return nil, err
+		}
+		if !finfo.Mode().IsRegular() {
+			return &File{File: fd, path: path}, nil
+		}
+		err = fd.Close()
+		if err != nil {
+			return nil, err
+		}
+		mode = finfo.Mode().Perm()
+	}
+	tmp := fmt.Sprintf("%s.%d.tmp", path, os.Getpid())
+	fd, err := os.OpenFile(tmp, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, mode)
+	if err != nil {
+		return nil, err
+	}
+	f := &File{File: fd, path: path, tmp: tmp}
+	if exists {
+		err = fd.Chmod(mode)
+		if err != nil {
+			f.Abort()
+			return nil, err
+		}
+	}
+	return f, nil
+}
+
+// Commit makes the file durable and gives it its name.
+func (f *File) Commit() error {
+	if f.closed {
+		return os.ErrClosed
+	}
+	f.closed = true
+	if f.tmp == "" {
+		return f.Close()
+	}
+	err := f.Sync()
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Rename(f.tmp, f.path)
+	}
+	if err != nil {
+		_ = os.Remove(f.tmp)
+	}
+	return err
+}
+
+// Abort drops the file unless it has been committed.
+func (f *File) Abort() {
+	if f.closed {
+		return
+	}
+	f.closed = true
+	_ = f.Close()
+	if f.tmp != "" {
+		_ = os.Remove(f.tmp)
+	}
+}
diff --git a/userdicbuilder/main.go b/userdicbuilder/main.go
index e46656c..1412f67 100644
--- a/userdicbuilder/main.go
+++ b/userdicbuilder/main.go
@@ -8,11 +8,16 @@ import (
 	"time"
 
 	"github.com/msnoigrs/gosudachi/dictionary"
+	"github.com/msnoigrs/gosudachi/internal/atomicfile"
 	"golang.org/x/text/language"
 	"golang.org/x/text/message"
 )
 
 func main() {
+	os.Exit(run())
+}
+
+func run() int {
 	flag.Usage = func() {
 		fmt.Fprintf(os.Stderr, `Usage of %s:
 	%s -o file -s file [-d description] [-j] file1 [file2 ...]
@@ -37,7 +42,7 @@ Options:
 
 	if outputpath == "" || systemdict == "" || len(flag.Args()) == 0 {
 		flag.Usage()
-		os.Exit(1)
+		return 1
 	}
 
 	dh := dictionary.NewDictionaryHeader(
@@ -49,33 +54,33 @@ Options:
 	hb, err := dh.ToBytes()
 	if err != nil {
 		fmt.Fprintln(os.Stderr, err)
-		os.Exit(1)
+		return 1
 	}
 
 	sdic, err := dictionary.ReadSystemDictionary(systemdict, utf16string)
 	if err != nil {
 		fmt.Fprintln(os.Stderr, err)
-		os.Exit(1)
+		return 1
 	}
 	defer sdic.Close()
 
-	outputWriter, err := os.OpenFile(outputpath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
+	outputWriter, err := atomicfile.Create(outputpath)
 	if err != nil {
 		fmt.Fprintln(os.Stderr, err)
-		os.Exit(1)
+		return 1
 	}
-	defer outputWriter.Close()
+	defer outputWriter.Abort()
 
 	bufout := bufio.NewWriter(outputWriter)
 	n, err := bufout.Write(hb)
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "fail to write header: %s\n", err)
-		os.Exit(1)
+		return 1
 	}
 	err = bufout.Flush()
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "fail to write header: %s\n", err)
-		os.Exit(1)
+		return 1
 	}
 
 	dicbuilder := dictionary.NewDictionaryBuilder(int64(n), sdic.Lexicon, utf16string)
@@ -86,7 +91,7 @@ Options:
 		err := build(dicbuilder, store, lexiconpath)
 		if err != nil {
 			fmt.Fprintf(os.Stderr, "%s: %s", err, lexiconpath)
-			os.Exit(1)
+			return 1
 		}
 	}
 	p := message.NewPrinter(language.English)
@@ -95,14 +100,21 @@ Options:
 	err = dicbuilder.WriteGrammarUser(&store.PosTable, outputWriter)
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "fail to write grammar: %s\n", err)
-		os.Exit(1)
+		return 1
 	}
 
 	err = dicbuilder.WriteLexicon(outputWriter, store)
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "fail to write lexicon: %s\n", err)
-		os.Exit(1)
+		return 1
+	}
+
+	err = outputWriter.Commit()
+	if err != nil {
+		fmt.Fprintf(os.Stderr, "%s: %s\n", outputpath, err)
+		return 1
 	}
+	return 0
 }
 
 func build(dicbuilder *dictionary.DictionaryBuilder, store dictionary.PosIdStore, lexiconpath string) error {
-- 
2.43.0


From 50a9690c5d2132ac3e7c8899c3fbffc884eba49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:22 +0000
Subject: [PATCH 11/31] fix: printdic shows parts of speech and units, and does
 not change the system dictionary's table

---
 dictionary/dicprinter.go | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/dictionary/dicprinter.go b/dictionary/dicprinter.go
index 169e21e..5158318 100644
--- a/dictionary/dicprinter.go
+++ b/dictionary/dicprinter.go
@@ -13,28 +13,27 @@ import (
 )
 
 func PrintDictionary(filename string, utf16string bool, systemDict *BinaryDictionary, output io.Writer) error {
-	var grammar *Grammar
-
 	dic, err := NewBinaryDictionary(filename, utf16string)
 	if err != nil {
 		return err
 	}
 	defer dic.Close()
-	if dic.Header.Version == SystemDictVersion {
-		grammar = dic.Grammar
-	} else if systemDict == nil {
-		return errors.New("the system dictionary is not specified")
-	} else {
-		grammar = systemDict.Grammar
+	grammars := []*Grammar{dic.Grammar}
+	if dic.Header.Version != SystemDictVersion {
+		if systemDict == nil {
+			return errors.New("the system dictionary is not specified")
+		}
+		grammars = []*Grammar{systemDict.Grammar}
 		if dic.Header.Version == UserDictVersion2 {
-			grammar.AddPosList(dic.Grammar)
+			grammars = append(grammars, dic.Grammar)
 		}
 	}
 
-	possize := grammar.GetPartOfSpeechSize()
-	posStrings := make([]string, possize, possize)
-	for pid := 0; pid < possize; pid++ {
-		posStrings = append(posStrings, strings.Join(grammar.GetPartOfSpeechString(int16(pid)), ","))
+	posStrings := []string{}
+	for _, grammar := range grammars {
+		for pid := 0; pid < grammar.GetPartOfSpeechSize(); pid++ {
+			posStrings = append(posStrings, strings.Join(grammar.GetPartOfSpeechString(int16(pid)), ","))
+		}
 	}
 
 	lexicon := dic.Lexicon
@@ -89,7 +88,7 @@ func splitToString(split []int32) string {
 	if len(split) == 0 {
 		return "*"
 	}
-	splitstrs := make([]string, len(split), len(split))
+	splitstrs := make([]string, 0, len(split))
 	for _, i := range split {
 		splitstrs = append(splitstrs, strconv.Itoa(int(i)))
 	}
-- 
2.43.0


From 2fcb36bbb67717e7efb8c2eed6f01339b2f553ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:22 +0000
Subject: [PATCH 12/31] fix: do not recurse without end over words that are
 each other's dictionary form

---
 dictionary/dalexicon.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dictionary/dalexicon.go b/dictionary/dalexicon.go
index 6f7f187..e1bca1d 100644
--- a/dictionary/dalexicon.go
+++ b/dictionary/dalexicon.go
@@ -129,8 +129,8 @@ func (l *wordInfoList) getWordInfo(wordId int32) *WordInfo {
 
 	dictionaryForm := surface
 	if dictionaryFormWordId >= 0 && dictionaryFormWordId != wordId {
-		wi := l.getWordInfo(dictionaryFormWordId)
-		dictionaryForm = wi.Surface
+		// only its surface: dictionary forms may refer to each other
+		_, dictionaryForm = l.bufferToStringF(l.bytebuffer, l.wordIdToOffset(dictionaryFormWordId))
 	}
 
 	return &WordInfo{
-- 
2.43.0


From 8b95f55a977382fa9ca6f16c0fc42c38f85d1488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:22 +0000
Subject: [PATCH 13/31] fix: refuse dictionary form word IDs that do not exist

---
 dictionary/dicbuilder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index 88fc9a7..afa05d3 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -783,6 +783,9 @@ func (dicbuilder *DictionaryBuilder) writeWordInfo(writer io.WriteSeeker, store
 	position := base
 	for _, we := range dicbuilder.wordEntries {
 		wi := we.WordInfo
+		if int64(wi.DictionaryFormWordId) >= int64(len(dicbuilder.wordEntries)) {
+			return fmt.Errorf("invalid dictionary form word ID: %d", wi.DictionaryFormWordId)
+		}
 		err = binary.Write(offsets, binary.LittleEndian, uint32(position))
 		if err != nil {
 			return err
-- 
2.43.0


From 4bd8fc60ced02190da7d7d9c0d80d9db0fdd9d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:22 +0000
Subject: [PATCH 14/31] fix: refuse more words of one headword than the word-ID
 table can hold

---
 dictionary/dicbuilder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index afa05d3..07991b4 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -7,6 +7,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"strconv"
 	"strings"
@@ -659,6 +660,9 @@ func (dicbuilder *DictionaryBuilder) WriteLexicon(writer io.WriteSeeker, store P
 		v := it.Value()
 		bkey, _ := k.([]byte)
 		wordIds, _ := v.([]int32)
+		if len(wordIds) > math.MaxUint8 {
+			return fmt.Errorf("too many words with the same headword: %s", bkey)
+		}
 		keys[i] = bkey
 		values[i] = position
 		err := wordIdTable.WriteByte(byte(len(wordIds)))
-- 
2.43.0


From 32fc2b9e6a0b4c3c6ce90fe3d7913551931f16c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:22 +0000
Subject: [PATCH 15/31] fix: refuse strings and headwords too long for the
 dictionary format

---
 dictionary/dicbuilder.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index 07991b4..ad8945a 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -307,7 +307,7 @@ func (dicbuilder *DictionaryBuilder) BuildLexicon(store PosIdStore, input io.Rea
 			return fmt.Errorf("invalid format at line: columns length must be %d: at line %d", NumberOfColumns, r.numLine)
 		}
 
-		if dicbuilder.stringLen(cols[0]) {
+		if dicbuilder.stringLen(cols[0]) || len(cols[0]) > math.MaxInt16 {
 			return fmt.Errorf("string is too long: column 0 at line %d", r.numLine)
 		}
 		if dicbuilder.stringLen(cols[4]) {
@@ -421,6 +421,9 @@ func writeStringLength(buffer *bytes.Buffer, length int16) error {
 }
 
 func writeString(buffer *bytes.Buffer, s string) error {
+	if utf8CountInString(s) {
+		return errors.New("string is too long")
+	}
 	err := writeStringLength(buffer, int16(len(s)))
 	if err != nil {
 		return err
@@ -433,6 +436,9 @@ func writeString(buffer *bytes.Buffer, s string) error {
 }
 
 func writeStringUtf16(buffer *bytes.Buffer, s string) error {
+	if utf16CountInString(s) {
+		return errors.New("string is too long")
+	}
 	// java compatible
 	javainternal := utf16.Encode([]rune(s))
 
-- 
2.43.0


From 2eb2d2f831b45c9c814be6b995ecedb11f3bc5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:22 +0000
Subject: [PATCH 16/31] fix: refuse more parts of speech than can be numbered

---
 dictionary/dicbuilder.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index ad8945a..638ea52 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -53,6 +53,9 @@ func (pt *PosTable) getId(s string) int16 {
 	if ok {
 		return id
 	}
+	if len(pt.table) > math.MaxInt16 {
+		return -1
+	}
 	id = int16(len(pt.table))
 	pt.contains[s] = id
 	pt.table = append(pt.table, s)
@@ -81,7 +84,11 @@ type PosTableUser struct {
 func (pt *PosTableUser) GetPosId(posstrings ...string) int16 {
 	posId := pt.baseStore.GetPosId(posstrings...)
 	if posId < 0 {
-		posId = pt.PosTable.GetPosId(posstrings...) + int16(pt.baseStore.GetPartOfSpeechSize())
+		id := int(pt.PosTable.GetPosId(posstrings...))
+		if id < 0 || id+pt.baseStore.GetPartOfSpeechSize() > math.MaxInt16 {
+			return -1
+		}
+		posId = int16(id + pt.baseStore.GetPartOfSpeechSize())
 	}
 	return posId
 }
@@ -346,6 +353,9 @@ func (dicbuilder *DictionaryBuilder) BuildLexicon(store PosIdStore, input io.Rea
 
 		// part of speech
 		posId := store.GetPosId(cols[5], cols[6], cols[7], cols[8], cols[9], cols[10])
+		if posId < 0 {
+			return fmt.Errorf("too many parts of speech at line %d", r.numLine)
+		}
 
 		if strings.Count(cols[15], "/")+1 > ArrayMaxLength {
 			return fmt.Errorf("too many units: columns 15 at line %d", r.numLine)
-- 
2.43.0


From f754798d03833c829fb623084700fc1e89915655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:22 +0000
Subject: [PATCH 17/31] fix: refuse parts of speech with a comma, which
 corrupted the table

---
 dictionary/dicbuilder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index 638ea52..21e3937 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -352,6 +352,11 @@ func (dicbuilder *DictionaryBuilder) BuildLexicon(store PosIdStore, input io.Rea
 		entry.Parameters[2] = int16(cols3)
 
 		// part of speech
+		for _, pos := range cols[5:11] {
+			if strings.Contains(pos, ",") {
+				return fmt.Errorf("invalid part of speech: %s at line %d", pos, r.numLine)
+			}
+		}
 		posId := store.GetPosId(cols[5], cols[6], cols[7], cols[8], cols[9], cols[10])
 		if posId < 0 {
 			return fmt.Errorf("too many parts of speech at line %d", r.numLine)
-- 
2.43.0


From 789b5a8d4368d4e946752ac4c08323db257bc79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:22 +0000
Subject: [PATCH 18/31] fix: refuse connections outside of the matrix instead
 of storing them elsewhere

---
 dictionary/dicbuilder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index 21e3937..a684a8c 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -534,6 +534,9 @@ func (dicbuilder *DictionaryBuilder) WriteGrammar(postable *PosTable, input io.R
 	if err != nil {
 		return fmt.Errorf("%s: invalid format at line %d", err, r.NumLine)
 	}
+	if leftSize < 0 || rightSize < 0 {
+		return fmt.Errorf("invalid format at line %d", r.NumLine)
+	}
 	err = binary.Write(dicbuilder.buffer, binary.LittleEndian, uint16(leftSize))
 	if err != nil {
 		return fmt.Errorf("%s: invalid format at line %d", err, r.NumLine)
@@ -581,6 +584,9 @@ func (dicbuilder *DictionaryBuilder) WriteGrammar(postable *PosTable, input io.R
 		if err != nil {
 			return fmt.Errorf("%s: invalid format at line %d", err, r.NumLine)
 		}
+		if left < 0 || left >= leftSize || right < 0 || right >= rightSize {
+			return fmt.Errorf("connection out of range at line %d", r.NumLine)
+		}
 		binary.LittleEndian.PutUint16(matrix[2*(left+leftSize*right):], uint16(cost))
 	}
 
-- 
2.43.0


From a46da37e5e6701593b2a7d84289c8551ac339886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:22 +0000
Subject: [PATCH 19/31] fix: refuse headwords with a NUL, which the trie cannot
 hold

---
 dictionary/dicbuilder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index a684a8c..38a828a 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -331,6 +331,9 @@ func (dicbuilder *DictionaryBuilder) BuildLexicon(store PosIdStore, input io.Rea
 
 		// headword for trie
 		if cols[1] != "-1" {
+			if strings.IndexByte(cols[0], 0) >= 0 {
+				return fmt.Errorf("invalid headword: column 0 at line %d", r.numLine)
+			}
 			entry.Headword = cols[0]
 		}
 
-- 
2.43.0


From 99ca5ac175e5310789054c3143ab4d03ca3bcb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:50 +0000
Subject: [PATCH 20/31] fix: user dictionaries of version 1, which have no
 grammar, load

AddPosList was given the nil grammar of such a dictionary and panicked.
---
 dictionary.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dictionary.go b/dictionary.go
index 9f67420..34acbad 100644
--- a/dictionary.go
+++ b/dictionary.go
@@ -131,7 +131,9 @@ func (d *JapaneseDictionary) ReadUserDictionary(filename string, utf16string boo
 		return int16(cost), nil
 	})
 	d.lexicon.Add(userLexicon, int32(d.grammar.GetPartOfSpeechSize()))
-	d.grammar.AddPosList(dict.Grammar)
+	if dict.Grammar != nil {
+		d.grammar.AddPosList(dict.Grammar)
+	}
 	return nil
 }
 
-- 
2.43.0


From d16a31efc6bf83d04a1d917cece28ffdb061f0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:15 +0000
Subject: [PATCH 21/31] fix: a dictionary file too short for a header is closed
 again

---
 dictionary/binarydict.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dictionary/binarydict.go b/dictionary/binarydict.go
index f0c0953..25d130b 100644
--- a/dictionary/binarydict.go
+++ b/dictionary/binarydict.go
@@ -34,6 +34,8 @@ func NewBinaryDictionary(filename string, utf16string bool) (*BinaryDictionary,
 	offset := 0
 	header := ParseDictionaryHeader(fmap, offset)
 	if header == nil {
+		_ = mmap.Munmap(fmap)
+		_ = fd.Close()
 		return nil, fmt.Errorf("invalid header: %s", filename)
 	}
 
-- 
2.43.0


From e1db59f7f397691b262bf8d533bc5c7d2dad3e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:51 +0000
Subject: [PATCH 22/31] fix: incomplete dictionary files are refused with an
 error

Opening a file cut off in its tables panicked, and one cut off in its word
informations was opened.
---
 dictionary/binarydict.go | 47 ++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/dictionary/binarydict.go b/dictionary/binarydict.go
index 25d130b..4a03d12 100644
--- a/dictionary/binarydict.go
+++ b/dictionary/binarydict.go
@@ -1,9 +1,12 @@
 package dictionary
 
 import (
+	"errors"
 	"fmt"
-	"github.com/msnoigrs/gosudachi/internal/mmap"
 	"os"
+	"runtime"
+
+	"github.com/msnoigrs/gosudachi/internal/mmap"
 )
 
 type BinaryDictionary struct {
@@ -31,12 +34,33 @@ func NewBinaryDictionary(filename string, utf16string bool) (*BinaryDictionary,
 		return nil, err
 	}
 
+	dict, err := parseBinaryDictionary(fmap, utf16string)
+	if err != nil {
+		_ = mmap.Munmap(fmap)
+		_ = fd.Close()
+		return nil, fmt.Errorf("%s: %s", err, filename)
+	}
+	dict.fd = fd
+	dict.fmap = fmap
+	return dict, nil
+}
+
+// parseBinaryDictionary refuses content that is not a complete dictionary:
+// what is cut off is missed by the time the last word has been read.
+func parseBinaryDictionary(fmap []byte, utf16string bool) (dict *BinaryDictionary, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			if _, ok := r.(runtime.Error); !ok {
+				panic(r)
+			}
+			dict, err = nil, errors.New("incomplete dictionary")
+		}
+	}()
+
 	offset := 0
 	header := ParseDictionaryHeader(fmap, offset)
 	if header == nil {
-		_ = mmap.Munmap(fmap)
-		_ = fd.Close()
-		return nil, fmt.Errorf("invalid header: %s", filename)
+		return nil, errors.New("invalid header")
 	}
 
 	offset += HeaderStorageSize
@@ -45,19 +69,18 @@ func NewBinaryDictionary(filename string, utf16string bool) (*BinaryDictionary,
 		grammar = NewGrammar(fmap, offset, utf16string)
 		offset += grammar.StorageSize
 	} else if header.Version != UserDictVersion {
-		_ = mmap.Munmap(fmap)
-		_ = fd.Close()
-		return nil, fmt.Errorf("invalid dictionary: %s", filename)
+		return nil, errors.New("invalid dictionary")
 	}
 
 	lexicon := NewDoubleArrayLexicon(fmap, offset, utf16string)
+	if lexicon.Size() > 0 {
+		_ = lexicon.GetWordInfo(lexicon.Size() - 1)
+	}
 
 	return &BinaryDictionary{
-		fd,
-		fmap,
-		header,
-		grammar,
-		lexicon,
+		Header:  header,
+		Grammar: grammar,
+		Lexicon: lexicon,
 	}, nil
 }
 
-- 
2.43.0


From c991ceebb3eb95553dc68967e0628dc2f73b09a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:23 +0000
Subject: [PATCH 23/31] fix: dictionaries opened by a load that fails are
 closed again

---
 dictionary.go | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/dictionary.go b/dictionary.go
index 34acbad..3d60d7c 100644
--- a/dictionary.go
+++ b/dictionary.go
@@ -36,53 +36,62 @@ func NewJapaneseDictionary(config *BaseConfig, inputTextPlugins []InputTextPlugi
 		pathRewritePlugins: pathRewritePlugins,
 	}
 
+	err := d.setUp(config, editConnectionCostPlugins)
+	if err != nil {
+		d.Close()
+		return nil, err
+	}
+	return d, nil
+}
+
+func (d *JapaneseDictionary) setUp(config *BaseConfig, editConnectionCostPlugins []EditConnectionCostPlugin) error {
 	err := d.ReadSystemDictionary(config.SystemDict, config.Utf16String)
 	if err != nil {
-		return nil, fmt.Errorf("fail to read a system dictionary: %s", err)
+		return fmt.Errorf("fail to read a system dictionary: %s", err)
 	}
 
 	for _, plugin := range editConnectionCostPlugins {
 		err := plugin.SetUp(d.grammar)
 		if err != nil {
-			return nil, err
+			return err
 		}
 		err = plugin.Edit(d.grammar)
 		if err != nil {
-			return nil, err
+			return err
 		}
 	}
 
 	err = d.ReadCharacterDefinition(config.CharacterDefinitionFile)
 	if err != nil {
-		return nil, fmt.Errorf("fail to read a character defition file: %s", err)
+		return fmt.Errorf("fail to read a character defition file: %s", err)
 	}
 
-	for _, plugin := range inputTextPlugins {
+	for _, plugin := range d.inputTextPlugins {
 		err := plugin.SetUp()
 		if err != nil {
-			return nil, err
+			return err
 		}
 	}
-	for _, plugin := range oovProviderPlugins {
+	for _, plugin := range d.oovProviderPlugins {
 		err := plugin.SetUp(d.grammar)
 		if err != nil {
-			return nil, err
+			return err
 		}
 	}
-	for _, plugin := range pathRewritePlugins {
+	for _, plugin := range d.pathRewritePlugins {
 		err := plugin.SetUp(d.grammar)
 		if err != nil {
-			return nil, err
+			return err
 		}
 	}
 
 	for _, ud := range config.UserDict {
 		err := d.ReadUserDictionary(ud, config.Utf16String)
 		if err != nil {
-			return nil, fmt.Errorf("fail to read a user dictionary: %s", err)
+			return fmt.Errorf("fail to read a user dictionary: %s", err)
 		}
 	}
-	return d, nil
+	return nil
 }
 
 func (d *JapaneseDictionary) ReadSystemDictionary(filename string, utf16string bool) error {
-- 
2.43.0


From 4e9af9841ae35db6cf350a296bddaa9e01adc205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:15 +0000
Subject: [PATCH 24/31] fix: close a dictionary file also when unmapping it
 fails

---
 dictionary/binarydict.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dictionary/binarydict.go b/dictionary/binarydict.go
index 4a03d12..db480ca 100644
--- a/dictionary/binarydict.go
+++ b/dictionary/binarydict.go
@@ -110,8 +110,9 @@ func ReadUserDictionary(filename string, utf16string bool) (*BinaryDictionary, e
 
 func (bd *BinaryDictionary) Close() error {
 	err := mmap.Munmap(bd.fmap)
+	cerr := bd.fd.Close()
 	if err != nil {
 		return err
 	}
-	return bd.fd.Close()
+	return cerr
 }
-- 
2.43.0


From d7972aab5688b43a1b9cadec9909db0f179c37cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:15 +0000
Subject: [PATCH 25/31] fix: fail to load a user dictionary whose costs cannot
 be computed

---
 dictionary.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dictionary.go b/dictionary.go
index 3d60d7c..9796b5b 100644
--- a/dictionary.go
+++ b/dictionary.go
@@ -126,7 +126,7 @@ func (d *JapaneseDictionary) ReadUserDictionary(filename string, utf16string boo
 		d.oovProviderPlugins,
 		[]PathRewritePlugin{},
 	)
-	userLexicon.CalculateCost(func(text string) (int16, error) {
+	err = userLexicon.CalculateCost(func(text string) (int16, error) {
 		ms, err := tokenizer.Tokenize("C", text)
 		if err != nil {
 			return int16(mincost), err
@@ -139,6 +139,9 @@ func (d *JapaneseDictionary) ReadUserDictionary(filename string, utf16string boo
 		}
 		return int16(cost), nil
 	})
+	if err != nil {
+		return fmt.Errorf("fail to calculate the costs of %s: %s", filename, err)
+	}
 	d.lexicon.Add(userLexicon, int32(d.grammar.GetPartOfSpeechSize()))
 	if dict.Grammar != nil {
 		d.grammar.AddPosList(dict.Grammar)
-- 
2.43.0


From aa9ecd0fd2cb669c77edaa7427be0f773eee8c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:17 +0000
Subject: [PATCH 26/31] fix: the cost of an empty morpheme list is 0

---
 morpheme.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/morpheme.go b/morpheme.go
index 975d377..f331b7d 100644
--- a/morpheme.go
+++ b/morpheme.go
@@ -157,5 +157,8 @@ func (l *MorphemeList) GetDictionaryId(index int) int {
 }
 
 func (l *MorphemeList) GetInternalCost() int {
+	if len(l.path) == 0 {
+		return 0
+	}
 	return l.path[len(l.path)-1].GetPathCost() - l.path[0].GetPathCost()
 }
-- 
2.43.0


From 82ea402c255e4be434f10e8c7bf16a23fd76a689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:30 +0000
Subject: [PATCH 27/31] fix: close a user dictionary whose costs cannot be
 computed

---
 dictionary.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dictionary.go b/dictionary.go
index 9796b5b..43e8ebd 100644
--- a/dictionary.go
+++ b/dictionary.go
@@ -116,8 +116,6 @@ func (d *JapaneseDictionary) ReadUserDictionary(filename string, utf16string boo
 		return err
 	}
 
-	d.dictionaries = append(d.dictionaries, dict)
-
 	userLexicon := dict.Lexicon
 	tokenizer := NewJapaneseTokenizer(
 		d.grammar,
@@ -140,8 +138,10 @@ func (d *JapaneseDictionary) ReadUserDictionary(filename string, utf16string boo
 		return int16(cost), nil
 	})
 	if err != nil {
+		_ = dict.Close()
 		return fmt.Errorf("fail to calculate the costs of %s: %s", filename, err)
 	}
+	d.dictionaries = append(d.dictionaries, dict)
 	d.lexicon.Add(userLexicon, int32(d.grammar.GetPartOfSpeechSize()))
 	if dict.Grammar != nil {
 		d.grammar.AddPosList(dict.Grammar)
-- 
2.43.0


From 7e825bab89dd2a8bbb7472b789e34cd074154eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:35 +0000
Subject: [PATCH 28/31] fix: no endless loop over numerals whose normalized
 form has a comma or point

---
 joinnumericplugin.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/joinnumericplugin.go b/joinnumericplugin.go
index 722dff2..ab54d5c 100644
--- a/joinnumericplugin.go
+++ b/joinnumericplugin.go
@@ -93,10 +93,10 @@ func (p *JoinNumericPlugin) Rewrite(text *InputText, path *[]*LatticeNode, latti
 			for _, c := range s {
 				if !parser.append(c) {
 					if beginIndex >= 0 {
-						if parser.errorState == errComma {
+						if parser.errorState == errComma && commaAsDigit {
 							commaAsDigit = false
 							i = beginIndex - 1
-						} else if parser.errorState == errPoint {
+						} else if parser.errorState == errPoint && periodAsDigit {
 							periodAsDigit = false
 							i = beginIndex - 1
 						}
-- 
2.43.0


From 67f5abae396f5118b0461b955d6b73a2d3463179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:35 +0000
Subject: [PATCH 29/31] fix: unknown words are at most as long as headwords,
 instead of a panic

---
 mecaboovproviderplugin.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mecaboovproviderplugin.go b/mecaboovproviderplugin.go
index 79cb83f..5a37d81 100644
--- a/mecaboovproviderplugin.go
+++ b/mecaboovproviderplugin.go
@@ -3,6 +3,7 @@ package gosudachi
 import (
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"strconv"
 	"strings"
@@ -85,6 +86,13 @@ func (p *MeCabOovProviderPlugin) SetUp(grammar *dictionary.Grammar) error {
 func (p *MeCabOovProviderPlugin) ProvideOOV(inputText *InputText, offset int, hasOtherWords bool) ([]*LatticeNode, error) {
 	nodes := []*LatticeNode{}
 	length := inputText.GetCharCategoryContinuousLength(offset)
+	if length > math.MaxInt16 {
+		// the longest headword
+		length = math.MaxInt16
+		for !inputText.IsCharAlignment(offset + length) {
+			length--
+		}
+	}
 	if length > 0 {
 		catTypes := inputText.GetCharCategoryTypes(offset)
 		for t := dictionary.DEFAULT; t <= dictionary.NOOOVBOW; t *= 2 {
-- 
2.43.0


From abd45b69d930ba9ca8fa6ecf39d48dacc44cbecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:25 +0000
Subject: [PATCH 30/31] fix: closing a BinaryDictionary twice could unmap
 another dictionary

The second Close unmapped the address range again, which by then may hold
the mapping of a dictionary opened in between.
---
 dictionary/binarydict.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dictionary/binarydict.go b/dictionary/binarydict.go
index db480ca..14af82c 100644
--- a/dictionary/binarydict.go
+++ b/dictionary/binarydict.go
@@ -109,7 +109,12 @@ func ReadUserDictionary(filename string, utf16string bool) (*BinaryDictionary, e
 }
 
 func (bd *BinaryDictionary) Close() error {
+	if bd.fmap == nil {
+		// unmapping again would hit what has been mapped there since
+		return os.ErrClosed
+	}
 	err := mmap.Munmap(bd.fmap)
+	bd.fmap = nil
 	cerr := bd.fd.Close()
 	if err != nil {
 		return err
-- 
2.43.0


From 4731dfccd948432f406b1dc6fb8e16f786d15d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:42 +0000
Subject: [PATCH 31/31] fix: an escape right behind an incomplete one was not
 decoded

In \u12\u0041 the second backslash ended the first sequence without starting
its own.
---
 dictionary/dicbuilder.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index 38a828a..ec3d660 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -186,13 +186,10 @@ func (r *lexiconReader) decode(s []byte) []byte {
 		i += width
 		switch rc {
 		case '\\':
-			if nmark >= 0 {
-				nmark = -1
-			} else {
-				r.fieldBuffer = append(r.fieldBuffer, s[last:i-width]...)
-				last = i - width
-				umark = runecount
-			}
+			nmark = -1
+			r.fieldBuffer = append(r.fieldBuffer, s[last:i-width]...)
+			last = i - width
+			umark = runecount
 		case 'u':
 			if nmark >= 0 {
 				nmark = -1
-- 
2.43.0

