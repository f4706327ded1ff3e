R = REFACTORS = {}
# answers are put together per line and written in one go
R['line-buffer'] = [
('gosudachicli/main.go', '''	s := newLineScanner(input)
	for s.Scan() {
		err := run(tokenizer, mode, s.Text(), output, printAll)
''', '''	s := newLineScanner(input)
	buf := bufio.NewWriter(output)
	for s.Scan() {
		err := run(tokenizer, mode, s.Text(), buf, printAll)
		buf.Flush()
'''),
]
# a goroutine reads ahead
R['read-ahead'] = [
('gosudachicli/main.go', '''	s := newLineScanner(input)
	for s.Scan() {
		err := run(tokenizer, mode, s.Text(), output, printAll)
		if output.err != nil {
			return output.err
		}
''', '''	s := newLineScanner(input)
	lines := make(chan string, 16)
	stop := make(chan struct{})
	defer close(stop)
	go func() {
		defer close(lines)
		for s.Scan() {
			select {
			case lines <- s.Text():
			case <-stop:
				return
			}
		}
	}()
	for l := range lines {
		err := run(tokenizer, mode, l, output, printAll)
		if output.err != nil {
			return output.err
		}
'''),
]
# answers are flushed when the scanner has no complete line left
R['flush-no-line'] = [
('gosudachicli/main.go', '''	s := newLineScanner(input)
	for s.Scan() {
		err := run(tokenizer, mode, s.Text(), output, printAll)
''', '''	s := newLineScanner(input)
	buf := bufio.NewWriter(output)
	defer buf.Flush()
	for s.Scan() {
		err := run(tokenizer, mode, s.Text(), buf, printAll)
		if b, _ := s.r.Peek(s.r.Buffered()); err != nil || bytes.IndexByte(b, '\\n') < 0 {
			buf.Flush()
		}
'''),
('gosudachicli/main.go', '''	if err := s.Err(); err != nil {
		return err
	}
	return nil
''', '''	if err := buf.Flush(); err != nil {
		return err
	}
	return s.Err()
'''),
('gosudachicli/main.go', '''import (
	"bufio"
''', '''import (
	"bufio"
	"bytes"
'''),
]
