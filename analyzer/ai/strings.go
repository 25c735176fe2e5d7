package ai

import (
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// Strings are sequences of pieces: constants, "runestr" (one rune), "bytestr" (one byte) and other opaque strings.

// Pieces splits a string.
func Pieces(v Val) []Val {
	if s, ok := StrOf(v); ok && s == "" {
		return nil
	}
	if t, ok := v.(*Term); ok {
		if t.Op == "cat" {
			return t.Args
		}
		// a conversion between string types
		if t.Op == "cv" && len(t.Args) == 1 && isStr(t.T) && valType(t.Args[0]) != nil && isStr(valType(t.Args[0])) {
			return Pieces(t.Args[0])
		}
	}
	return []Val{v}
}

// Cat concatenates pieces.
func Cat(t types.Type, ps ...Val) Val {
	var out []Val
	for _, p := range ps {
		for _, q := range Pieces(p) {
			if s, ok := StrOf(q); ok && len(out) > 0 {
				if r, ok := StrOf(out[len(out)-1]); ok {
					out[len(out)-1] = MkConst(t, constant.MakeString(r+s))
					continue
				}
			}
			out = append(out, q)
		}
	}
	switch len(out) {
	case 0:
		return MkConst(t, constant.MakeString(""))
	case 1:
		return out[0]
	}
	return App(t, "cat", out...)
}

func isOp(v Val, op string) bool {
	t, ok := v.(*Term)
	return ok && t.Op == op
}

// catLen is the length of a string of several pieces.
func (x *Exec) catLen(st *State, t *Term) Val {
	it := types.Typ[types.Int]
	var l Val = MkInt(it, 0)
	for _, p := range t.Args {
		l = addInt(st, l, x.Len(st, p))
	}
	return l
}

// relStr compares strings of several pieces; 0 if it has nothing to say.
func (s *State) relStr(a, b Val) uint8 {
	t := valType(a)
	if t == nil || !isString(t) {
		return 0
	}
	p, q := Pieces(a), Pieces(b)
	if len(p) < 2 && len(q) < 2 && !isOp(a, "runestr") && !isOp(b, "runestr") && !isOp(a, "bytestr") && !isOp(b, "bytestr") {
		return 0
	}
	split := func(p []Val, n int) []Val {
		s, _ := StrOf(p[0])
		if n == len(s) {
			return p[1:]
		}
		return append([]Val{MkConst(t, constant.MakeString(s[n:]))}, p[1:]...)
	}
	for len(p) > 0 && len(q) > 0 {
		x, ok1 := StrOf(p[0])
		y, ok2 := StrOf(q[0])
		if ok1 && ok2 {
			n := 0
			for n < len(x) && n < len(y) && x[n] == y[n] {
				n++
			}
			if n < len(x) && n < len(y) {
				if x[n] < y[n] {
					return LT
				}
				return GT
			}
			p, q = split(p, n), split(q, n)
			continue
		}
		if p[0].K() == q[0].K() && !IsOld(p[0]) {
			p, q = p[1:], q[1:]
			continue
		}
		if ok2 {
			p, q = q, p
			x, y, ok1, ok2 = y, x, ok2, ok1
		}
		if h, ok := q[0].(*Term); ok && len(h.Args) == 1 && (h.Op == "runestr" || h.Op == "bytestr") {
			var c Val
			if ok1 && h.Op == "runestr" {
				r, _ := utf8.DecodeRuneInString(x)
				c = MkInt(valType(h.Args[0]), int64(r))
			} else if ok1 {
				c = MkInt(types.Typ[types.Byte], int64(x[0]))
			} else if g, ok := p[0].(*Term); ok && len(g.Args) == 1 && g.Op == h.Op {
				c = g.Args[0]
			}
			if c != nil {
				r := s.Rel(h.Args[0], c)
				if r&EQ == 0 {
					return LT | GT
				}
				if r == EQ && !ok1 {
					p, q = p[1:], q[1:]
					continue
				}
				if r == EQ && (h.Op == "runestr" || x[0] < 0x80) {
					// a known character
					w := 1
					if h.Op == "runestr" {
						_, w = utf8.DecodeRuneInString(x)
					}
					p, q = split(p, w), q[1:]
					continue
				}
			}
		}
		return 0
	}
	if len(p) == 0 && len(q) == 0 {
		return EQ
	}
	ne := func(p []Val) bool {
		for _, v := range p {
			if c, ok := StrOf(v); ok && c != "" || isOp(v, "runestr") || isOp(v, "bytestr") {
				return true
			}
		}
		return false
	}
	if ne(p) || ne(q) {
		return LT | GT
	}
	return 0
}

// strOfSlice converts a slice of bytes or runes of known length.
func (x *Exec) strOfSlice(st *State, v Val, from, to types.Type) Val {
	es, ok := x.elemsOf(st, v)
	if !ok {
		return nil
	}
	byt := isByteSlice(from)
	var ps []Val
	for _, e := range es {
		if _, ok := e.(*Alts); ok {
			return nil
		}
		n, ok := IntOf(e)
		switch {
		case ok && byt:
			ps = append(ps, MkConst(to, constant.MakeString(string([]byte{byte(n.Int64())}))))
		case ok:
			ps = append(ps, MkConst(to, constant.MakeString(string(rune(n.Int64())))))
		case byt:
			ps = append(ps, byteStr(to, e))
		default:
			ps = append(ps, x.runeStr(st, to, e))
		}
	}
	return Cat(to, ps...)
}

// byteStr is the string of one byte.
func byteStr(to types.Type, e Val) Val {
	if n, ok := IntOf(e); ok {
		return MkConst(to, constant.MakeString(string([]byte{byte(n.Int64())})))
	}
	return App(to, "bytestr", e)
}

// runeStr is the string of one rune.
func (x *Exec) runeStr(st *State, to types.Type, v Val) Val {
	if b := x.ascii(st, v, types.Typ[types.Byte]); b != nil {
		return byteStr(to, b)
	}
	return App(to, "runestr", v)
}

// ascii converts an integer known to be an ASCII character to another type.
func (x *Exec) ascii(st *State, v Val, to types.Type) Val {
	lo, hi := st.Interval(v)
	if lo == nil || lo.Sign() < 0 || hi.Cmp(big.NewInt(0x7f)) > 0 {
		return nil
	}
	return x.convert(st, v, valType(v), to, nil)
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	n, _ := bits(s.Elem())
	return n == 8
}

// sliceOfStr converts a string of known pieces to bytes or runes.
func (x *Exec) sliceOfStr(st *State, v Val, to types.Type, site string) Val {
	sl, ok := to.Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	es := x.strElems(st, v, sl.Elem(), isByteSlice(to))
	if es == nil {
		return nil
	}
	if len(es) == 0 {
		it := types.Typ[types.Int]
		id := st.NewCell(site, &Backing{Elem: sl.Elem()})
		z := MkInt(it, 0)
		return &Slice{T: to, Cell: id, Off: z, Len: z, Cap: z}
	}
	return retype(MkSlice(st, site, sl.Elem(), es), to)
}

// strElems lists the bytes or runes of a string, nil if unknown.
func (x *Exec) strElems(st *State, v Val, et types.Type, byt bool) []Val {
	out := []Val{}
	for _, p := range Pieces(v) {
		s, ok := StrOf(p)
		switch {
		case ok && byt:
			for _, b := range []byte(s) {
				out = append(out, MkInt(et, int64(b)))
			}
		case ok:
			for _, r := range []rune(s) {
				out = append(out, MkInt(et, int64(r)))
			}
		case byt && isOp(p, "bytestr"), !byt && isOp(p, "runestr") && st.validRune(p.(*Term).Args[0]):
			out = append(out, p.(*Term).Args[0])
		case isOp(p, "bytestr") || isOp(p, "runestr"):
			// the same character as a byte and as a rune
			r := x.ascii(st, p.(*Term).Args[0], et)
			if r == nil {
				return nil
			}
			out = append(out, r)
		default:
			return nil
		}
	}
	return out
}

// validRune: not a surrogate or out of range.
func (s *State) validRune(v Val) bool {
	lo, hi := s.Interval(v)
	in := func(l, h int64) bool {
		return lo != nil && lo.Cmp(big.NewInt(l)) >= 0 && hi.Cmp(big.NewInt(h)) <= 0
	}
	return in(0, 0xD7FF) || in(0xE000, 0x10FFFF)
}

// foldFuncs are library functions without state, folded when all arguments are constants.
var foldFuncs = map[string]any{
	"strings.ToUpper": strings.ToUpper, "strings.ToLower": strings.ToLower, "strings.Title": strings.Title,
	"strings.Repeat": strings.Repeat, "strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll,
	"strings.Split": strings.Split, "strings.SplitN": strings.SplitN, "strings.HasPrefix": strings.HasPrefix,
	"strings.HasSuffix": strings.HasSuffix, "strings.Contains": strings.Contains, "strings.Index": strings.Index,
	"strings.IndexByte": strings.IndexByte, "strings.IndexRune": strings.IndexRune, "strings.LastIndex": strings.LastIndex,
	"strings.TrimSpace": strings.TrimSpace, "strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix,
	"strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight,
	"strings.EqualFold": strings.EqualFold, "strings.Fields": strings.Fields, "strings.Count": strings.Count,
	"strings.ContainsRune": strings.ContainsRune, "strings.ContainsAny": strings.ContainsAny, "strings.Compare": strings.Compare,
	"strconv.Itoa": strconv.Itoa, "strconv.Quote": strconv.Quote, "strconv.FormatInt": strconv.FormatInt,
	"strconv.FormatUint": strconv.FormatUint,
	"unicode.IsDigit":    unicode.IsDigit, "unicode.IsLetter": unicode.IsLetter, "unicode.IsSpace": unicode.IsSpace,
	"unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.ToUpper": unicode.ToUpper,
	"unicode.ToLower":  unicode.ToLower,
	"utf8.ValidRune":   utf8.ValidRune,
	"utf8.ValidString": utf8.ValidString, "utf8.RuneCountInString": utf8.RuneCountInString,
}

// foldCall evaluates a call of a library function on constants.
func (x *Exec) foldCall(st *State, c *Call) []Outcome {
	f, ok := foldFuncs[strings.TrimPrefix(c.Name, "unicode/")]
	if !ok {
		return nil
	}
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	if ft.NumIn() != len(c.Args) || ft.IsVariadic() {
		return nil
	}
	var in []reflect.Value
	for i, a := range c.Args {
		k, ok := a.(*Const)
		if !ok {
			return nil
		}
		v := reflect.New(ft.In(i)).Elem()
		switch {
		case v.Kind() == reflect.String && k.V.Kind() == constant.String:
			v.SetString(constant.StringVal(k.V))
		case v.CanInt():
			n, ok := IntOf(k)
			if !ok {
				return nil
			}
			v.SetInt(n.Int64())
		case v.CanUint():
			n, ok := IntOf(k)
			if !ok {
				return nil
			}
			v.SetUint(n.Uint64())
		default:
			return nil
		}
		if v.Kind() == reflect.Int && c.Name == "strings.Repeat" && (v.Int() < 0 || v.Int() > 1000) {
			return nil
		}
		in = append(in, v)
	}
	var out []Val
	for i, r := range fv.Call(in) {
		t := c.Res.At(i).Type()
		switch {
		case r.Kind() == reflect.String:
			out = append(out, MkConst(t, constant.MakeString(r.String())))
		case r.Kind() == reflect.Bool:
			out = append(out, MkBool(r.Bool()))
		case r.CanInt():
			out = append(out, MkInt(t, r.Int()))
		case r.Kind() == reflect.Slice:
			et := t.Underlying().(*types.Slice).Elem()
			var es []Val
			for j := 0; j < r.Len(); j++ {
				es = append(es, MkConst(et, constant.MakeString(r.Index(j).String())))
			}
			out = append(out, MkSlice(st, c.Site, et, es))
		default:
			return nil
		}
	}
	return []Outcome{{St: st, Vals: out}}
}

// searchChar models the search for a character in a constant ASCII string.
func (x *Exec) searchChar(st *State, c *Call) []Outcome {
	contains := false
	switch c.Name {
	case "strings.ContainsRune":
		contains = true
	case "strings.IndexRune", "strings.IndexByte":
	default:
		return nil
	}
	s, ok := StrOf(c.Args[0])
	if !ok || len(s) > 64 {
		return nil
	}
	for i := range s {
		if s[i] >= 0x80 {
			return nil
		}
	}
	v := c.Args[1]
	if lo, _ := st.Interval(v); lo == nil {
		return nil
	}
	t := c.Res.At(0).Type()
	var ct types.Type = types.Typ[types.Int32]
	if c.Name == "strings.IndexByte" {
		ct = types.Typ[types.Uint8]
	}
	var from func(st *State, i int) []Outcome
	from = func(st *State, i int) []Outcome {
		if i == len(s) {
			if contains {
				return []Outcome{{St: st, Vals: []Val{MkBool(false)}}}
			}
			return []Outcome{{St: st, Vals: []Val{MkInt(t, -1)}}}
		}
		if strings.IndexByte(s[:i], s[i]) >= 0 {
			return from(st, i+1)
		}
		return x.forkCond(st, x.Compare(st, token.EQL, v, MkInt(ct, int64(s[i]))), func(st *State, b bool) []Outcome {
			if !b {
				return from(st, i+1)
			}
			if contains {
				return []Outcome{{St: st, Vals: []Val{MkBool(true)}}}
			}
			return []Outcome{{St: st, Vals: []Val{MkInt(t, int64(i))}}}
		})
	}
	return from(st, 0)
}

var _ = token.ADD

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
