package main

import (
	"fmt"
	"sort"
	"strings"
)

// harnessError is a defect of the harness or of a behaviour file: it ends the
// driver with an error, it is never a verdict on the code.
type harnessError string

// Args are a step's arguments.
type Args []interface{}

func (a Args) at(i int) interface{} {
	if i >= len(a) {
		panic(harnessError(fmt.Sprintf("argument %d missing in %v", i, a)))
	}
	return a[i]
}

// Str returns argument i, a text, with its {hh} byte escapes undone.
func (a Args) Str(i int) string {
	s, ok := a.at(i).(string)
	if !ok {
		panic(harnessError(fmt.Sprintf("argument %d of %v is no text", i, a)))
	}
	return dec(s)
}
func (a Args) Int(i int) int {
	f, ok := a.at(i).(float64)
	if !ok {
		panic(harnessError(fmt.Sprintf("argument %d of %v is no number", i, a)))
	}
	return int(f)
}
func (a Args) Bool(i int) bool {
	b, ok := a.at(i).(bool)
	if !ok {
		panic(harnessError(fmt.Sprintf("argument %d of %v is no boolean", i, a)))
	}
	return b
}
func (a Args) List(i int) Args {
	l, ok := a.at(i).([]interface{})
	if !ok {
		panic(harnessError(fmt.Sprintf("argument %d of %v is no sequence", i, a)))
	}
	return Args(l)
}
func (a Args) Rec(i int) map[string]interface{} {
	m, ok := a.at(i).(map[string]interface{})
	if !ok {
		panic(harnessError(fmt.Sprintf("argument %d of %v is no record", i, a)))
	}
	return m
}
func (a Args) Bytes(i int) []byte {
	l := a.List(i)
	b := make([]byte, len(l))
	for j := range l {
		b[j] = byte(l.Int(j))
	}
	return b
}

// U32 is a 32-bit value written as four bytes, most significant first.
func (a Args) U32(i int) uint32 {
	b := a.Bytes(i)
	var v uint32
	for _, x := range b {
		v = v<<8 | uint32(x)
	}
	return v
}

func bytesOut(b []byte) []int {
	r := make([]int, len(b))
	for i := range b {
		r[i] = int(b[i])
	}
	return r
}
func u32Out(v uint32) []int {
	return []int{int(v >> 24), int(v >> 16 & 255), int(v >> 8 & 255), int(v & 255)}
}

// dec and enc map between Go text and specification text, where a byte outside
// printable ASCII (except tab, CR, LF) and '{' itself is written {hh}.
func dec(s string) string {
	if strings.IndexByte(s, '{') < 0 {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '{' && i+3 < len(s) && s[i+3] == '}' {
			var x int
			if n, _ := fmt.Sscanf(s[i+1:i+3], "%02x", &x); n != 1 {
				panic(harnessError("bad escape in " + s))
			}
			b.WriteByte(byte(x))
			i += 3
		} else {
			b.WriteByte(s[i])
		}
	}
	return b.String()
}
func enc(s string) string {
	ok := true
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '{' || c > 126 || (c < 32 && c != '\t' && c != '\r' && c != '\n') {
			ok = false
			break
		}
	}
	if ok {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '{' || c > 126 || (c < 32 && c != '\t' && c != '\r' && c != '\n') {
			fmt.Fprintf(&b, "{%02x}", c)
		} else {
			b.WriteByte(c)
		}
	}
	return b.String()
}

func sortedKeys(m map[string]interface{}) []string {
	k := make([]string, 0, len(m))
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

func trimStack(s string) string {
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "/repo/") {
			keep = append(keep, strings.TrimSpace(l))
		}
	}
	if len(keep) > 6 {
		keep = keep[:6]
	}
	return strings.Join(keep, " | ")
}

// rec is shorthand for an observation record.
type rec map[string]interface{}

func opt(present bool, v interface{}) []interface{} {
	if present {
		return []interface{}{v}
	}
	return []interface{}{}
}
func badOp(op string) interface{} { panic(harnessError("unknown operation " + op)) }
