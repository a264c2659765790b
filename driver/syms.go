package main

import (
	"encoding/json"
	"reflect"

	"github.com/go-latex/latex/internal/tex2unicode"
	"github.com/go-latex/latex/mtex/symbols"
)

func init() {
	modes["names"] = namesMode
	modes["namelist"] = nameList
	modes["symsets"] = symSets
}

// resolve is -1 for what is refused.
func resolve(v string, math bool) (r int) {
	defer func() {
		if recover() != nil {
			r = -1
		}
	}()
	return int(tex2unicode.Index(v, math))
}

func namesMode(raw json.RawMessage) interface{} {
	var req struct{ V []byte }
	must(json.Unmarshal(raw, &req))
	v := string(req.V)
	return node{"t": resolve(v, false), "m": resolve(v, true), "h": tex2unicode.HasSymbol(v)}
}

// nameList lists the known names twice; the first list is overwritten.
func nameList(raw json.RawMessage) interface{} {
	first := tex2unicode.Symbols()
	a := append([]string{}, first...)
	for i := range first {
		first[i] = "overwritten"
	}
	return node{"a": a, "b": tex2unicode.Symbols()}
}

var packageSets = []symbols.Set{
	symbols.AmbiDelim, symbols.ArrowSymbols, symbols.BinaryOperators, symbols.DropSubSymbols,
	symbols.FontNames, symbols.FunctionNames, symbols.LeftDelim, symbols.OverUnderFunctions, symbols.OverUnderSymbols,
	symbols.PunctuationSymbols, symbols.RelationSymbols, symbols.RightDelim, symbols.SpacedSymbols,
}

// symSets runs a session on sets of symbols.
func symSets(raw json.RawMessage) interface{} {
	var req struct {
		Names   []string // of the symbols, by number
		Package bool     // whether the package's sets are there
		Ops     []struct {
			Op   string
			L    []int
			I, E int
		}
	}
	must(json.Unmarshal(raw, &req))
	var heap []symbols.Set
	fixed := 0
	if req.Package {
		heap = append(heap, packageSets...)
		fixed = len(heap)
	}
	slices := [][]string{}
	ans := []interface{}{}
	b := func(x bool) []string {
		if x {
			return []string{"yes"}
		}
		return []string{"no"}
	}
	for _, o := range req.Ops {
		var a []string
		switch o.Op {
		case "new":
			in := make([]string, 0, len(o.L)+2)
			for _, e := range o.L {
				in = append(in, req.Names[e-1])
			}
			heap = append(heap, symbols.NewSet(in...))
			slices = append(slices, in)
		case "union":
			ss := make([]symbols.Set, 0, len(o.L)+1)
			for _, i := range o.L {
				ss = append(ss, heap[i-1])
			}
			was := append([]symbols.Set{}, ss[:cap(ss)]...)
			heap = append(heap, symbols.UnionOf(ss...))
			for i, x := range ss[:cap(ss)] {
				if reflect.ValueOf(x).Pointer() != reflect.ValueOf(was[i]).Pointer() {
					a = []string{"the caller's list of sets is changed"}
				}
			}
			for i := range ss {
				ss[i] = nil
			}
		case "keys":
			k := heap[o.I-1].Keys()
			a = append([]string{}, k...)
			slices = append(slices, k)
		case "has":
			a = b(heap[o.I-1].Has(req.Names[o.E-1]))
		case "put":
			heap[o.I-1][req.Names[o.E-1]] = struct{}{}
		case "drop":
			delete(heap[o.I-1], req.Names[o.E-1])
		case "scribble":
			s := slices[o.I-1]
			for j := range s {
				s[j] = req.Names[o.E-1]
			}
		case "spaced":
			a = b(symbols.IsSpaced(req.Names[o.E-1]))
		}
		if a == nil {
			a = []string{}
		}
		ans = append(ans, a)
	}
	// everything there is, by listing and by asking
	list := func(ss []symbols.Set) []interface{} {
		out := []interface{}{}
		for _, s := range ss {
			has := []string{}
			for _, n := range req.Names {
				if s.Has(n) {
					has = append(has, n)
				}
			}
			out = append(out, node{"keys": append([]string{}, s.Keys()...), "has": has, "len": len(s)})
		}
		return out
	}
	return node{"a": ans, "heap": list(heap[fixed:]), "fixed": list(heap[:fixed]), "slices": slices}
}
