// Package xio has readers and writers that misbehave in the ways io.Reader and io.Writer allow.
package xio

import (
	"errors"
	"fmt"
	"io"
)

// ErrInjected is the fault readers and writers report.
var ErrInjected = errors.New("injected fault")

// Chunks delivers data in pieces. A piece of size 0 is a read of no bytes without an error.
type Chunks struct {
	Data    []byte
	Sizes   []int // sizes of the pieces, repeated; empty means all that fits
	WithEOF bool  // the last bytes come together with io.EOF
	FailAt  int   // byte offset at which reading fails with ErrInjected; negative means never
	Given   int   // bytes handed out
	calls   int
	empty   int
}

// NewChunks makes a reader that never fails.
func NewChunks(data []byte, sizes []int, withEOF bool) *Chunks {
	return &Chunks{Data: data, Sizes: sizes, WithEOF: withEOF, FailAt: -1}
}

// Read implements io.Reader.
func (c *Chunks) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	limit, failing := len(c.Data), false
	if c.FailAt >= 0 && c.FailAt < limit {
		limit, failing = c.FailAt, true
	}
	if c.Given >= limit {
		if failing {
			return 0, ErrInjected
		}
		return 0, io.EOF
	}
	n := len(p)
	if len(c.Sizes) > 0 {
		size := c.Sizes[c.calls%len(c.Sizes)]
		c.calls++
		if size == 0 && c.empty < 2 {
			c.empty++
			return 0, nil
		}
		c.empty = 0
		if size < 1 {
			size = 1
		}
		if size < n {
			n = size
		}
	}
	if n > limit-c.Given {
		n = limit - c.Given
	}
	copy(p, c.Data[c.Given:c.Given+n])
	c.Given += n
	if c.WithEOF && !failing && c.Given == len(c.Data) {
		return n, io.EOF
	}
	return n, nil
}

// WriteFault is the way a writer fails.
type WriteFault int

// Ways of failing.
const (
	FailError    WriteFault = iota // accepts what fits and reports ErrInjected
	FailNothing                    // accepts nothing of the call that does not fit and reports ErrInjected
	FailShort                      // accepts what fits and reports no error (a short write)
	FailAccepted                   // accepts the call that reaches the limit entirely and reports ErrInjected

	// Passing is added to a way of failing: later calls succeed.
	Passing WriteFault = 4
	// WriteFaults is the number of ways.
	WriteFaults = 8
)

// Limited accepts Limit bytes and then fails.
type Limited struct {
	Limit int
	Fault WriteFault
	Got   []byte
	Hit   bool
}

// Write implements io.Writer.
func (l *Limited) Write(p []byte) (int, error) {
	if l.Hit && l.Fault&Passing == 0 { // once failed, stays failed
		if l.Fault == FailShort {
			return 0, nil
		}
		return 0, ErrInjected
	}
	if l.Hit || len(l.Got)+len(p) <= l.Limit {
		l.Got = append(l.Got, p...)
		return len(p), nil
	}
	l.Hit = true
	fit := l.Limit - len(l.Got)
	switch l.Fault &^ Passing {
	case FailNothing:
		return 0, ErrInjected
	case FailShort:
		l.Got = append(l.Got, p[:fit]...)
		return fit, nil
	case FailAccepted:
		l.Got = append(l.Got, p...)
		return len(p), ErrInjected
	default:
		l.Got = append(l.Got, p[:fit]...)
		return fit, ErrInjected
	}
}

// Positions returns the offsets 0..n-1 to try: all of them up to max, else the first and last third
// of max and evenly spread ones between.
func Positions(n, max int) []int {
	var res []int
	if n <= max {
		for i := 0; i < n; i++ {
			res = append(res, i)
		}
		return res
	}
	third := max / 3
	for i := 0; i < third; i++ {
		res = append(res, i)
	}
	step := (n - 2*third) / (max - 2*third)
	if step < 1 {
		step = 1
	}
	for i := third; i < n-third; i += step {
		res = append(res, i)
	}
	for i := n - third; i < n; i++ {
		res = append(res, i)
	}
	return res
}

// Guard runs f, turning a panic into an error.
func Guard(f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	return f()
}

// Turning reads from R and writes to W, and lets others go on before and after.
type Turning struct {
	Turn func()
	R    io.Reader
	W    io.Writer
}

func (t Turning) Read(p []byte) (int, error) {
	t.Turn()
	defer t.Turn()
	return t.R.Read(p)
}

func (t Turning) Write(p []byte) (int, error) {
	t.Turn()
	defer t.Turn()
	return t.W.Write(p)
}
