// Package liner is an offline stand-in for github.com/peterh/liner
package liner

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
)

// ErrPromptAborted error
var ErrPromptAborted = errors.New("prompt aborted")

// Completer func
type Completer func(line string) []string

// State of liner
type State struct {
	r        *bufio.Reader
	complete Completer
	history  []string
}

// NewLiner state
func NewLiner() *State { return &State{r: bufio.NewReader(os.Stdin)} }

// Close state
func (s *State) Close() error { return nil }

// Prompt for a line; a line with tab at the end shows what it can be
// completed to, one per line with leading tab, and the next line is read
func (s *State) Prompt(p string) (string, error) {
	fmt.Print(p)
	for {
		var l, err = s.r.ReadString('\n')
		l = strings.TrimRight(l, "\r\n")
		if err == nil && strings.HasSuffix(l, "\t") {
			if s.complete != nil {
				for _, c := range s.complete(strings.TrimSuffix(l, "\t")) {
					fmt.Print("\t" + c + "\n")
				}
			}
			continue
		}
		return l, err
	}
}

// SetCtrlCAborts setting
func (s *State) SetCtrlCAborts(bool) {}

// SetCompleter setting
func (s *State) SetCompleter(c Completer) { s.complete = c }

// SetTabCompletionStyle setting
func (s *State) SetTabCompletionStyle(int) {}

// AppendHistory line
func (s *State) AppendHistory(l string) {
	if n := len(s.history); n == 0 || s.history[n-1] != l {
		s.history = append(s.history, l)
	}
}

// ReadHistory lines
func (s *State) ReadHistory(r io.Reader) (n int, err error) {
	var sc = bufio.NewScanner(r)
	for sc.Scan() {
		s.history = append(s.history, sc.Text())
		n++
	}
	return n, sc.Err()
}

// WriteHistory lines
func (s *State) WriteHistory(w io.Writer) (n int, err error) {
	for _, l := range s.history {
		if _, err = fmt.Fprintln(w, l); err != nil {
			return
		}
		n++
	}
	return
}
