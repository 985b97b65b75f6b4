package text

import (
	"strconv"
	"strings"

	"github.com/sira-serverless-ir-arch/goirlib/field"
	"github.com/sira-serverless-ir-arch/goirlib/filter"
	"github.com/sira-serverless-ir-arch/goirlib/filter/stemmer"
	"github.com/sira-serverless-ir-arch/goirlib/language"
	"github.com/sira-serverless-ir-arch/goirlib/metric"
	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/zzverif/sym"
	"github.com/sira-serverless-ir-arch/porter2"
)

// A long text with arbitrary characters in three places.
func H_tokens_long() {
	var b strings.Builder
	n := deep(170, 400)
	for i := 0; i < n; i++ {
		b.WriteString([]string{"don't", "x", "naïve-Straße", "2023", "...", "日本語"}[i%6])
		b.WriteString([]string{" ", ", ", "\n"}[i%3])
		if i == 1 || i == n/2 || i == n-1 {
			b.WriteString(ascii("c", 1))
		}
	}
	checkTokens(b.String())
}

// A single word longer than any buffer, one character in it arbitrary.
func H_tokens_word() {
	n := deep(5000, 70000)
	checkTokens(strings.Repeat("a", n) + ascii("c", 1) + strings.Repeat("b", n))
}

// words is n words, some of them equal, one arbitrary.
func words(n int) []string {
	pool := []string{"running", "The", "galaxies", "AÇÃO", "don't", "flies", "é", "a", "Zzz"}
	var l []string
	for i := 0; i < n; i++ {
		w := pool[i%len(pool)]
		if i%4 == 1 {
			w += strconv.Itoa(i)
		}
		if i == n/2 {
			w = ascii("w", 2)
		}
		l = append(l, w)
	}
	return l
}

func clone(l []string) []string { return append([]string{}, l...) }

func H_lower_long() {
	l := words(deep(150, 600))
	keep := clone(l)
	got := filter.NewLowercase().Process(l)
	sym.Assert(len(got) == len(keep), "lower: number of words")
	for i, w := range keep {
		want := low(w)
		switch {
		case w == "AÇÃO":
			want = "ação"
		case strings.HasPrefix(w, "AÇÃO"):
			want = "ação" + w[len("AÇÃO"):]
		}
		sym.Assert(got[i] == want, "lower: every word in lower case, in order")
	}
	sym.Reach("end")
}

func H_stopwords_long() {
	l := words(deep(150, 600))
	keep := clone(l)
	stop := map[string]bool{}
	for i := 0; i < 50; i++ {
		stop["word"+strconv.Itoa(i)] = true
	}
	stop["The"], stop["a"] = true, true
	k := ascii("stop", 2)
	stop[k] = true
	got := filter.NewStopWords(stop).Process(l)
	j := 0
	for i, w := range keep {
		sym.Assert(l[i] == w, "stop words: the input is changed")
		if w == "The" || w == "a" || w == k {
			continue
		}
		sym.Assert(j < len(got) && got[j] == w, "stop words: the words that remain, in order")
		j++
	}
	sym.Assert(j == len(got), "stop words: number of words that remain")
	sym.Reach("end")
}

func H_stemmer_long() {
	l := words(deep(150, 600))
	keep := clone(l)
	var want []string
	for _, w := range keep {
		want = append(want, porter2.Stem(w))
	}
	sym.SetCPUs(1 + 3*sym.Choose("cpus", 2))
	sym.Races(true)
	checkStems(filter.NewStemmer(stemmer.Snowball).Process(l), want, l, keep)
}

// Words of any length.
func H_stemmer_letters() {
	c := sym.String("c", 1)
	sym.Assume(sym.And(c[0] >= 'a', c[0] <= 'z'))
	end := []string{"ing", "ational", "fulness", "s", "ied"}[sym.Choose("end", 5)]
	var in, keep, want []string
	for _, n := range []int{7, 15, 18, 31, 62, 130, deep(300, 3000)} {
		w := strings.Repeat("abe", n/3) + c + end
		in, keep, want = append(in, w), append(keep, w), append(want, porter2.Stem(w))
	}
	checkStems(filter.NewStemmer(stemmer.Snowball).Process(in), want, in, keep)
}

// Long words and many words with accents: no buffer is too short.
func H_ascii_long() {
	n := deep(200, 1000)
	c := ascii("c", 1)
	in := []string{strings.Repeat("x", n) + "é" + c, strings.Repeat("ã", n), c, strings.Repeat("e\u0301\u0327", n)}
	want := []string{strings.Repeat("x", n) + "e" + c, strings.Repeat("a", n), c, strings.Repeat("e", n)}
	for i := 0; i < 40; i++ {
		in = append(in, "õ"+strconv.Itoa(i))
		want = append(want, "o"+strconv.Itoa(i))
	}
	got := filter.NewASCII().Process(in)
	sym.Assert(len(got) == len(want), "ascii: number of words")
	for i := range want {
		sym.Assert(got[i] == want[i], "ascii: accents are taken off and nothing else changes")
	}
	sym.Reach("end")
}

// Many terms with many occurrences.
func H_tf_many() {
	n := deep(700, 3000)
	k := ascii("term", 1)
	want := map[string]int{}
	var l []string
	for i := 0; i < n; i++ {
		t := "t" + strconv.Itoa(i%50)
		if i%2 == 0 {
			t = k
		}
		l = append(l, t)
		want[t]++
	}
	tf := metric.TermFrequency(l)
	sym.Assert(len(tf) == len(want), "tf: number of different terms")
	for t, c := range want {
		v, ok := tf[t]
		sym.Assert(ok && v == c, "tf: number of occurrences of a term")
	}
	sym.Reach("end")
}

// A wide object with deep branches.
func H_flatten_wide() {
	want := map[string]interface{}{}
	top := map[string]interface{}{}
	k := ascii("key", 1)
	n := deep(25, 100)
	for i := 0; i < n; i++ {
		key := "k" + strconv.Itoa(i)
		m, path := top, key
		for d := 0; d < i; d++ {
			next := map[string]interface{}{}
			m[key] = next
			m[k] = []interface{}{"list"}
			want[strings.TrimSuffix(path, key)+k] = "list"
			m, key = next, "n"+strconv.Itoa(d)
			path += "." + key
		}
		m[key] = i
		want[path] = i
	}
	got := field.Flatten(top)
	sym.Assert(len(got) == len(want), "flatten: number of leaves")
	for p, v := range want {
		x, ok := got[p]
		if i, isInt := v.(int); isInt {
			sym.Assert(ok && x == i, "flatten: every leaf is there under its path")
		} else {
			l, isList := x.([]interface{})
			sym.Assert(ok && isList && len(l) == 1 && l[0] == "list", "flatten: every leaf is there under its path")
		}
	}
	sym.Reach("end")
}

// A set with many elements.
func H_set_many() {
	n := deep(300, 2000)
	s := model.NewSet()
	out := sym.Choose("third", 3)
	for i := 0; i < n; i++ {
		s.Add("element-" + strconv.Itoa(i))
		s.Add("element-" + strconv.Itoa(i/2))
	}
	c := s.Clone()
	for i := 0; i < n; i++ {
		if i%3 == out {
			s.Remove("element-" + strconv.Itoa(i))
			s.Remove("element-" + strconv.Itoa(i))
		}
	}
	left := 0
	for i := 0; i < n; i++ {
		e := "element-" + strconv.Itoa(i)
		sym.Assert(s.Contains(e) == (i%3 != out), "set: contains exactly what was added and not removed")
		sym.Assert(c.Contains(e), "set: a copy changes with its original")
		if i%3 != out {
			left++
		}
	}
	sym.Assert(s.Size() == left && len(s.GetData()) == left && c.Size() == n, "set: size")
	sym.Reach("end")
}

// Two lists of words of a language do not depend on what a caller does with one.
func H_language_lists() {
	for _, l := range []language.Language{language.English, language.Portuguese} {
		a := language.GetWords(l)
		n := len(a)
		w := ascii("w", 3)
		had := a[w]
		sym.Assert(len(language.GetWords(l)) == n, "language: the list differs between calls")
		sym.Assert(language.GetWords(l)[w] == had, "language: the list differs between calls")
	}
	sym.Reach("end")
}
