// Package thm states what the module's functions compute, for all values of
// the parameters of its functions. It is never run: the checker interprets it
// abstractly, together with the source of the module.
package thm

import "time"

// Assert must hold in every state that reaches it.
func Assert(ok bool, msg string) {}

// Assume restricts the states.
func Assume(ok bool) {}

// Equal: both have the same elements.
func Equal(got, want []byte, msg string) {}

// Same: both have the same (deep) value.
func Same(got, want interface{}, msg string) {}

// Prompt: what other goroutines do does not take time.
func Prompt() {}

// Hold: a goroutine that waits for nothing that comes keeps waiting.
func Hold() {}

// Tick: timers come at any time, also when something else has come.
func Tick() {}

// Settle waits until the goroutines that were started have ended, or wait.
func Settle() {}

// Queued counts the values in the channels that can be reached from x.
func Queued(x interface{}) int { return 0 }

// Kept counts the elements of the slices and maps that can be reached from x.
func Kept(x interface{}) int { return 0 }

// Mentions: the number is a part of the error.
func Mentions(err error, n uint32) bool { return false }

// Waits counts the timers that were set for the duration, or a time that depends on it.
func Waits(d time.Duration) int { return 0 }

// put appends the big endian octets of v.
func put(b []byte, v uint32, n int) []byte {
	switch n {
	case 1:
		return append(b, byte(v))
	case 2:
		return append(b, byte(v>>8), byte(v))
	case 3:
		return append(b, byte(v>>16), byte(v>>8), byte(v))
	}
	return append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
}

// size is the least number of octets that hold v.
func size(v uint32) int {
	switch {
	case v < 1<<8:
		return 1
	case v < 1<<16:
		return 2
	case v < 1<<24:
		return 3
	}
	return 4
}

// ctx appends an unsigned value with a context tag (clause 20.2.1, 20.2.4).
func ctx(b []byte, tag byte, v uint32) []byte {
	n := size(v)
	return put(append(b, tag<<4|8|byte(n)), v, n)
}

// app appends an unsigned value with an application tag.
func app(b []byte, tag byte, v uint32) []byte {
	n := size(v)
	return put(append(b, tag<<4|byte(n)), v, n)
}

// ctxObject appends an object identifier with a context tag (clause 20.2.14).
func ctxObject(b []byte, tag byte, typ, instance uint32) []byte {
	return put(append(b, tag<<4|8|4), typ<<22|instance, 4)
}

func open(b []byte, tag byte) []byte   { return append(b, tag<<4|0xe) }
func closeT(b []byte, tag byte) []byte { return append(b, tag<<4|0xf) }
