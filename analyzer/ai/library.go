package ai

import (
	"strings"
)

// pureCall: deterministic functions of their arguments' values (no pointers to mutable state).
func pureCall(name string) bool {
	for _, p := range []string{"fmt.Sprintf", "fmt.Sprint", "strings.", "strconv.Format", "strconv.Itoa", "math.", "math/cmplx.", "math/bits.", "unicode.", "unicode/utf8.", "(time.", "strconv.Quote", "path/filepath.", "regexp."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// readOnlyCall: functions that do not write through their arguments.
func readOnlyCall(name string) bool {
	for _, p := range []string{"fmt.", "strings.", "strconv.", "math.", "math/cmplx.", "math/bits.", "unicode", "errors.", "reflect.", "(reflect.", "path/filepath.", "(*regexp.Regexp)", "regexp.", "os.", "log."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// Library may be extended by checks: models of external functions by full name.
var Library = map[string]func(x *Exec, st *State, c *Call) []Outcome{}

func (x *Exec) library(st *State, c *Call) ([]Outcome, bool) {
	if o := x.foldCall(st, c); o != nil {
		return o, true
	}
	if o := x.searchChar(st, c); o != nil {
		return o, true
	}
	if m, ok := Library[c.Name]; ok {
		o := m(x, st, c)
		if o == nil {
			return nil, false
		}
		return o, true
	}
	return nil, false
}
