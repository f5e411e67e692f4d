package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// dictionary collects the constants of the code under test.
type dictionary struct {
	strs   map[string]bool
	ints   map[int64]bool
	nanos  map[int64]bool
	floats map[float64]bool
}

func newDictionary() *dictionary {
	return &dictionary{map[string]bool{}, map[int64]bool{}, map[int64]bool{}, map[float64]bool{}}
}

// collect adds the constants of a package's files.
func (d *dictionary) collect(files []*ast.File, info *types.Info) {
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			if _, ok := n.(*ast.ImportSpec); ok {
				return false
			}
			x, ok := n.(ast.Expr)
			if !ok {
				return true
			}
			if l, ok := x.(*ast.BasicLit); ok && l.Kind == token.CHAR {
				return false
			}
			tv, ok := info.Types[x]
			if !ok || tv.Value == nil {
				return true
			}
			switch tv.Value.Kind() {
			case constant.String:
				s := constant.StringVal(tv.Value)
				if s != "" && len(s) <= 48 && !strings.HasPrefix(s, "Err") && !strings.ContainsAny(s, " %\n") {
					d.strs[s] = true
				}
			case constant.Int:
				v, exact := constant.Int64Val(tv.Value)
				if !exact {
					break
				}
				if tv.Type != nil && tv.Type.String() == "time.Duration" {
					if v > 1 {
						d.nanos[v] = true
					}
				} else if v > 1 && v < 1<<31 {
					d.ints[v] = true
				}
			case constant.Float:
				v, _ := constant.Float64Val(tv.Value)
				d.floats[v] = true
			}
			return true
		})
	}
}

// source is the Go file that takes the place of dict/dict.go.
func (d *dictionary) source() []byte {
	var b bytes.Buffer
	b.WriteString("package dict\n\nvar (\n\tStrings = []string{")
	for _, s := range sortedKeys(d.strs) {
		fmt.Fprintf(&b, "%q, ", s)
	}
	b.WriteString("}\n\tInts = []int{")
	list := func(m map[int64]bool) {
		var v []int64
		for k := range m {
			v = append(v, k)
		}
		sort.Slice(v, func(i, j int) bool { return v[i] < v[j] })
		for _, k := range v {
			fmt.Fprintf(&b, "%d, ", k)
		}
	}
	list(d.ints)
	b.WriteString("}\n\tNanos = []int64{")
	list(d.nanos)
	b.WriteString("}\n\tFloats = []float64{")
	var v []float64
	for k := range d.floats {
		v = append(v, k)
	}
	sort.Float64s(v)
	for _, k := range v {
		fmt.Fprintf(&b, "%v, ", k)
	}
	b.WriteString("}\n)\n")
	return b.Bytes()
}
