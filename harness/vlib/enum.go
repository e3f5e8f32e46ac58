package vlib

// Words calls f with every word over the alphabet of length lo..hi (shortest first).
func Words(alphabet []string, lo, hi int, f func(word []string)) {
	for n := lo; n <= hi; n++ {
		idx := make([]int, n)
		word := make([]string, n)
		for {
			for i, x := range idx {
				word[i] = alphabet[x]
			}
			f(append([]string{}, word...))
			i := n - 1
			for i >= 0 {
				idx[i]++
				if idx[i] < len(alphabet) {
					break
				}
				idx[i] = 0
				i--
			}
			if i < 0 {
				break
			}
		}
	}
}

// Strings lists every concatenation of lo..hi letters.
func Strings(alphabet []string, lo, hi int) []string {
	out := []string{}
	Words(alphabet, lo, hi, func(w []string) {
		s := ""
		for _, x := range w {
			s += x
		}
		out = append(out, s)
	})
	return out
}

// Product calls f with every index vector below dims.
func Product(dims []int, f func(idx []int)) {
	for _, d := range dims {
		if d <= 0 {
			return
		}
	}
	idx := make([]int, len(dims))
	for {
		f(append([]int{}, idx...))
		i := len(dims) - 1
		for i >= 0 {
			idx[i]++
			if idx[i] < dims[i] {
				break
			}
			idx[i] = 0
			i--
		}
		if i < 0 {
			return
		}
	}
}

// Permutations calls f with every permutation of 0..n-1.
func Permutations(n int, f func(p []int)) {
	p := make([]int, n)
	used := make([]bool, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(append([]int{}, p...))
			return
		}
		for x := 0; x < n; x++ {
			if !used[x] {
				used[x] = true
				p[i] = x
				rec(i + 1)
				used[x] = false
			}
		}
	}
	rec(0)
}

// Subsets calls f with every subset of 0..n-1.
func Subsets(n int, f func(s []int)) {
	for m := 0; m < 1<<uint(n); m++ {
		s := []int{}
		for i := 0; i < n; i++ {
			if m&(1<<uint(i)) != 0 {
				s = append(s, i)
			}
		}
		f(s)
	}
}

// Symbols are what texts are made of where every text is allowed: letters in both cases, every kind of blank, line ends,
// quotes, separators, characters of several bytes (one of them composed and decomposed), bytes that are no text.
var Symbols = []string{"a", "A", "0", " ", "\t", "\n", "\r", "\x00", "\x7f", "\xff", "\u00e9", "e\u0301", "\u00a0", "\ufeff", "\\", "\"", "%", "#", "=", "/"}

// Texts returns every text of lo to hi symbols.
func Texts(lo, hi int) []string { return Strings(Symbols, lo, hi) }

// Sizes returns the sizes around every power of two, and some that are far from them, up to max.
func Sizes(max int) []int {
	out := []int{}
	for p := 64; p-1 <= max; p *= 2 {
		for _, n := range []int{p - 1, p, p + 1, p + p/3} {
			if n <= max {
				out = append(out, n)
			}
		}
	}
	return out
}

// Near tells whether b is a with one symbol replaced, added or left out (texts are given as their symbols).
func Near(a, b []string) bool {
	if len(a) < len(b) {
		a, b = b, a
	}
	if len(a)-len(b) > 1 {
		return false
	}
	i := 0
	for i < len(b) && a[i] == b[i] {
		i++
	}
	rest := b[i:]
	if len(a) == len(b) {
		if i == len(b) {
			return false
		}
		rest = b[i+1:]
	}
	for j, s := range a[i+1:] {
		if s != rest[j] {
			return false
		}
	}
	return true
}

// NearTexts returns the texts of lo to hi symbols and, for each, the indices of the ones next to it.
func NearTexts(lo, hi int) (texts []string, near [][]int) {
	words := [][]string{}
	Words(Symbols, lo, hi, func(w []string) {
		words = append(words, append([]string{}, w...))
	})
	near = make([][]int, len(words))
	for i, w := range words {
		t := ""
		for _, s := range w {
			t += s
		}
		texts = append(texts, t)
		for j, o := range words {
			if i != j && Near(w, o) {
				near[i] = append(near[i], j)
			}
		}
	}
	return
}
