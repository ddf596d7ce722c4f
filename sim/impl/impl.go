// Package impl gives the harness one face for every implementation under
// test: the instrumented Go modules in this process, and the Rust, C and
// TypeScript ones in lock-stepped child processes.
package impl

import (
	"fmt"

	"verifsim/simrt"
	"verifsim/wire"
)

// Res is the result of one read.
type Res struct {
	OK    bool
	V     wire.Val
	Err   string // failure reported through the documented channel
	Crash string // panic, abort, hang or broken contract
}

func (x Res) String() string {
	if x.Crash != "" {
		return "CRASH " + x.Crash
	}
	if !x.OK {
		return "error(" + x.Err + ")"
	}
	return x.V.String()
}

// Enc is an encoder over some buffer.
type Enc interface {
	Put(v wire.Val) (crash string) // a non-empty result is a crash or refusal
	Bytes() []byte
	Close()
}

// Dec reads values from one input.
type Dec interface {
	Get(w wire.Want) Res
	Close() (crash string)
}

// Impl is one implementation.
type Impl interface {
	Name() string
	NewEnc() Enc
	NewDec(in []byte) Dec
	// EncodeAll encodes a message with a fresh encoder.
	EncodeAll(vs []wire.Val) (b []byte, crash string)
	// DecodeAll performs the reads in order on a fresh decoder, continuing
	// after failures; alloc is the number of bytes allocated meanwhile (-1: unknown).
	DecodeAll(in []byte, ws []wire.Want) (rs []Res, alloc int64, crash string)
	// Restart loses all volatile state.
	Restart()
	// Caps restricts what values it can carry.
	Caps() Caps
}

type Caps struct {
	NoNulText   bool // text is a C string
	UTF8Only    bool // text must be valid UTF-8
	QuietNaN    bool // NaN payloads may change
	Any         bool // has the marker of anything
	NoErrorType bool
}

func budget(n int) int64 { return 5000 + 400*int64(n) }

func callGo(n int, what string, fn func()) string {
	p, st := simrt.R.Call(budget(n), fn)
	if p == nil {
		return ""
	}
	if _, ok := p.(simrt.Injected); ok {
		return "injected"
	}
	if p == any(simrt.Hang) {
		return fmt.Sprintf("hang in %s at %s", what, st)
	}
	return fmt.Sprintf("panic in %s: %v at %s", what, p, st)
}

func errStr(e error) string {
	if e == nil {
		return ""
	}
	return e.Error()
}

// TextError is the error value simulated callers encode.
type TextError string

func (e TextError) Error() string { return string(e) }
