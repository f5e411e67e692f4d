package scen

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	"verif.local/sim/dict"
)

// The dictionary: values that the code under test mentions, see package dict.

func init() {
	w := dict.Strings
	for i := 0; i < len(w) && len(w) >= 6; i += 6 {
		names = append(names, row(w[min(i, len(w)-6):][:6]))
	}
	for _, n := range dict.Ints {
		if n > 1 && n < 1<<17 {
			dumpSizes = append(dumpSizes, n-1, n, n+1)
			depths = append(depths, n-1, n)
		}
	}
	for k := 0; k < len(w); k += 5 {
		k := k
		topicNames = append(topicNames, func(i int) string {
			if i >= len(dict.Strings) {
				return fmt.Sprint(word(i), "~", i)
			}
			return word(k + i)
		})
	}
	lengths := append([]int{}, 16, 32, 64, 128)
	for _, n := range dict.Ints {
		if n >= 5 && n <= 400 && len(lengths) < 12 && n != 16 && n != 32 && n != 64 && n != 128 {
			lengths = append(lengths, n)
		}
	}
	for _, n := range lengths { // texts that agree up to a length, or from the end
		x := strings.Repeat("x", n-1)
		t := []string{x + "x", x + "xa", x + "xb", x, x + "y", "a" + x}
		names = append(names, row(t))
		topicNames = append(topicNames, func(i int) string {
			if i < len(t) {
				return t[i]
			}
			return fmt.Sprint(t[0], i)
		})
	}
}

// word is a text of the dictionary.
func word(i int) string {
	if len(dict.Strings) == 0 {
		return "word"
	}
	return dict.Strings[i%len(dict.Strings)]
}

// types names the types of entities: t and a number, or a word of the dictionary.
type types struct {
	word map[string]int
	from int
}

// name is the type of version v.
func (t *types) name(v int) string {
	if v%4 == 3 {
		w := word(t.from + v/4)
		if _, dup := t.word[w]; !dup && strings.Trim(w, "t0123456789") != "" && v/4 < len(dict.Strings) {
			if t.word == nil {
				t.word = map[string]int{}
			}
			t.word[w] = v
			return w
		}
	}
	return "t" + strconv.Itoa(v)
}

// version is the version of a type's name.
func (t *types) version(typ string) (int, bool) {
	if v, ok := t.word[typ]; ok {
		return v, true
	}
	v, err := strconv.Atoi(strings.TrimPrefix(typ, "t"))
	return v, err == nil && typ == "t"+strconv.Itoa(v)
}

// size is def, or now and then a number of the dictionary, one more or one less.
func size(r *rand.Rand, def, lo, hi int) int {
	if len(dict.Ints) == 0 || r.Intn(10) > 0 {
		return def
	}
	n := dict.Ints[r.Intn(len(dict.Ints))] - 1 + r.Intn(4)
	if n < lo || n > hi {
		return def
	}
	return n
}

// wait is def, or now and then a duration of the dictionary, as operations name
// them: a number of nanoseconds below zero.
func wait(r *rand.Rand, def int) int {
	if r.Intn(12) > 0 {
		return def
	}
	switch k := len(dict.Nanos) + len(dict.Ints); {
	case k == 0:
		return def
	default:
		var d int64
		if i := r.Intn(k); i < len(dict.Nanos) {
			d = dict.Nanos[i]
		} else {
			d = int64(dict.Ints[i-len(dict.Nanos)]) * []int64{1, 1000, 1000_000, 1000_000_000}[r.Intn(4)]
		}
		d += []int64{0, 0, 1, -1, 1000_000, -1000_000}[r.Intn(6)]
		if d <= 0 || d > 700_000_000_000_000 {
			return def
		}
		return -int(d)
	}
}

// payload is data as long as a number of the dictionary, or one more or less.
func payload(i int) []byte {
	if len(dict.Ints) == 0 {
		return []byte("payload")
	}
	n := dict.Ints[i/3%len(dict.Ints)] - 1 + i%3
	if n > 1<<17 {
		n = 3
	}
	return []byte(strings.Repeat("p", n))
}
