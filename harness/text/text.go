// Package text checks the steps that turn text into terms.
package text

import (
	"unicode"
	"unicode/utf8"

	"github.com/sira-serverless-ir-arch/goirlib/filter"
	"github.com/sira-serverless-ir-arch/goirlib/filter/stemmer"
	"github.com/sira-serverless-ir-arch/goirlib/language"
	"github.com/sira-serverless-ir-arch/goirlib/metric"
	"github.com/sira-serverless-ir-arch/goirlib/tokenizer"
	"github.com/sira-serverless-ir-arch/goirlib/zzverif/sym"
	"github.com/sira-serverless-ir-arch/porter2"
)

func deep(quick, thorough int) int {
	if sym.Deep() {
		return thorough
	}
	return quick
}

// ascii is n arbitrary bytes below 128.
func ascii(what string, n int) string {
	s := sym.String(what, n)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] < 0x80)
	}
	return s
}

// inToken is the definition of a character that belongs to a token.
func inToken(r rune) bool {
	if r < 0x80 {
		return sym.Or(sym.And(r >= 'a', r <= 'z'), sym.And(r >= 'A', r <= 'Z'), sym.And(r >= '0', r <= '9'), r == '\'')
	}
	return unicode.IsLetter(r) || unicode.IsNumber(r)
}

// split is the definition of the tokens of a text: the longest runs of characters that belong to tokens.
func split(text string) []string {
	var out []string
	start := -1
	for i := 0; i < len(text); {
		r, n := utf8.DecodeRuneInString(text[i:])
		in := !(r == utf8.RuneError && n == 1) && inToken(r)
		if in && start < 0 {
			start = i
		}
		if !in && start >= 0 {
			out = append(out, text[start:i])
			start = -1
		}
		i += n
	}
	if start >= 0 {
		out = append(out, text[start:])
	}
	return out
}

func checkTokens(text string) {
	got := tokenizer.NewStandard().Tokenize(text)
	want := split(text)
	sym.Assert(len(got) == len(want), "tokens: number")
	for i := range want {
		sym.Assert(got[i] == want[i], "tokens: the longest runs of letters, digits and apostrophes, in order")
	}
	sym.Reach("end")
}

func H_tokens_ascii() { checkTokens(ascii("text", deep(5, 7))) }

func H_tokens_bytes() { checkTokens(sym.String("text", deep(2, 3))) }

// Accented letters, symbols and digits of other scripts inside a text.
func H_tokens_unicode() {
	var t string
	for i := 0; i < 2; i++ {
		t += ascii("a", 1)
		switch sym.Choose("kind", deep(3, 5)) {
		case 0:
			t += "\xc3" + sym.String("latin", 1)
		case 1:
			t += "é"
		case 2:
			t += "٣"
		case 3:
			t += "\xc2" + sym.String("latin1", 1)
		case 4:
			t += "中\u2003"
		}
	}
	checkTokens(t)
}

// low is the definition of lower case for ASCII and Latin-1 letters.
func low(s string) string {
	b := make([]byte, len(s))
	for i := 0; i < len(s); i++ {
		c := s[i]
		up := sym.And(c >= 'A', c <= 'Z')
		if i > 0 && s[i-1] == 0xc3 {
			up = sym.And(c >= 0x80, c <= 0x9e, c != 0x97)
		}
		b[i] = sym.IteByte(up, c+0x20, c)
	}
	return string(b)
}

func checkLower(words []string) {
	var want []string
	for _, w := range words {
		want = append(want, low(w))
	}
	n := len(words)
	got := filter.NewLowercase().Process(words)
	sym.Assert(len(got) == n, "lower: number of words")
	for i := range want {
		sym.Assert(got[i] == want[i], "lower: every word in lower case, in order")
	}
	again := filter.NewLowercase().Process(append([]string{}, got...))
	for i := range want {
		sym.Assert(again[i] == want[i], "lower: twice gives the same as once")
	}
	sym.Reach("end")
}

func H_lower() {
	var w []string
	n := sym.Choose("words", 4)
	for i := 0; i < n; i++ {
		w = append(w, ascii("word", deep(2, 4)))
	}
	checkLower(w)
}

func H_lower_latin() {
	c := sym.String("latin", 1)
	sym.Assume(sym.And(c[0] >= 0x80, c[0] <= 0xbf))
	checkLower([]string{ascii("w", 1) + "\xc3" + c + "X", "ÁÇÕ"})
}

// Exactly the words that are not stop words remain, in order, and the input stays as it is.
func H_stopwords() {
	stop := map[string]bool{}
	k := sym.String("stop", 1)
	stop[k] = true
	if sym.Choose("second", 2) == 1 {
		stop[sym.String("stop", 1)] = true
	}
	if sym.Choose("off", 2) == 1 {
		stop[sym.String("stop", 1)] = false
	}
	var in, keep, want []string
	n := sym.Choose("words", deep(4, 5))
	for i := 0; i < n; i++ {
		w := sym.String("word", sym.Choose("len", 2))
		in = append(in, w)
		keep = append(keep, w)
		if !stop[w] {
			want = append(want, w)
		}
	}
	got := filter.NewStopWords(stop).Process(in)
	sym.Assert(len(got) == len(want), "stop words: number of words that remain")
	for i := range want {
		sym.Assert(got[i] == want[i], "stop words: the words that remain, in order")
	}
	for i := range keep {
		sym.Assert(in[i] == keep[i], "stop words: the input is changed")
	}
	sym.Reach("end")
}

var english = []string{"a", "an", "and", "are", "as", "at", "be", "but", "by", "for", "if", "in", "into", "is", "it", "no", "not", "of", "on", "or", "such", "that", "the", "their", "then", "there", "these", "they", "this", "to", "was", "will", "with"}

var portuguese = []string{"a", "ainda", "alem", "ambas", "ambos", "antes", "ao", "aonde", "aos", "apos", "aquele", "aqueles", "as", "assim", "com", "como", "contra", "contudo", "cuja", "cujas", "cujo", "cujos", "da", "das", "de", "dela", "dele", "deles", "demais", "depois", "desde", "desta", "deste", "dispoe", "dispoem", "diversa", "diversas", "diversos", "do", "dos", "durante", "e", "ela", "elas", "ele", "eles", "em", "entao", "entre", "essa", "essas", "esse", "esses", "esta", "estas", "este", "estes", "ha", "isso", "isto", "logo", "mais", "mas", "mediante", "menos", "mesma", "mesmas", "mesmo", "mesmos", "na", "nas", "nao", "nem", "nesse", "neste", "nos", "o", "os", "ou", "outra", "outras", "outro", "outros", "pelas", "pelo", "pelos", "perante", "pois", "por", "porque", "portanto", "proprio", "propios", "quais", "qual", "qualquer", "quando", "quanto", "que", "quem", "quer", "se", "seja", "sem", "sendo", "seu", "seus", "sob", "sobre", "sua", "suas", "tal", "tambem", "teu", "teus", "toda", "todas", "todo", "todos", "tua", "tuas", "tudo", "um", "uma", "umas", "uns"}

// The words of a language are taken out and no others; every call gives the same list.
func H_language() {
	n := 1 + sym.Choose("len", deep(3, 5))
	w := ascii("word", n)
	is := false
	for _, e := range english {
		if len(e) == n {
			is = sym.Or(is, e == w)
		}
	}
	got := filter.NewStopWords(language.GetWords(language.English)).Process([]string{"galaxy", w, "star"})
	sym.Assert(sym.Iff(len(got) == 2, is), "language: exactly the English stop words are taken out")
	sym.Assert(len(got) >= 2 && got[0] == "galaxy" && got[len(got)-1] == "star", "language: other words remain")
	for _, e := range english {
		sym.Assert(len(filter.NewStopWords(language.GetWords(language.English)).Process([]string{e})) == 0, "language: an English stop word remains")
	}
	is = false
	for _, p := range portuguese {
		if len(p) == n {
			is = sym.Or(is, p == w)
		}
	}
	got = filter.NewStopWords(language.GetWords(language.Portuguese)).Process([]string{"galaxia", w, "estrela"})
	sym.Assert(sym.Iff(len(got) == 2, is), "language: exactly the Portuguese stop words are taken out")
	sym.Assert(len(got) >= 2 && got[0] == "galaxia" && got[len(got)-1] == "estrela", "language: other words remain")
	sym.Assert(len(filter.NewStopWords(language.GetWords(language.Portuguese)).Process(portuguese)) == 0, "language: a Portuguese stop word remains")
	sym.Reach("end")
}

func H_language_unknown() {
	l := sym.String("language", sym.Choose("len", 4))
	known := l == "EN" || l == "PT"
	r := sym.Process(func() { language.GetWords(language.Language(l)) }, false)
	sym.Assert((r == 4) == !known, "language: an unknown language is refused, a known one is not")
	sym.Reach("end")
}

// Stemming gives one stem per word, at the place of the word, under every schedule, and leaves the input as it is.
func H_stemmer() {
	pool := []string{"running", "flies", "happily", "a", "", "skies", "don't", "running"}
	n := sym.Choose("words", 4)
	var in, keep, want []string
	for i := 0; i < n; i++ {
		w := pool[sym.Choose("word", len(pool))]
		in = append(in, w)
		keep = append(keep, w)
		want = append(want, porter2.Stem(w))
	}
	sym.Races(true)
	sym.Explore(deep(1, 3))
	got := filter.NewStemmer(stemmer.Snowball).Process(in)
	sym.StopExplore()
	checkStems(got, want, in, keep)
}

func checkStems(got, want, in, keep []string) {
	sym.Assert(len(got) == len(want), "stemmer: number of words")
	for i := range want {
		sym.Assert(got[i] == want[i], "stemmer: the stem of every word at its place")
		sym.Assert(in[i] == keep[i], "stemmer: the input is changed")
	}
	sym.Quiesce()
	sym.Assert(sym.Goroutines() == 0, "stemmer: goroutines are left over")
	sym.Reach("end")
}

func H_stemmer_words() {
	w := sym.String("word", deep(3, 4))
	for i := 0; i < len(w); i++ {
		sym.Assume(sym.And(w[i] >= 'a', w[i] <= 'z'))
	}
	in := []string{"first", w}
	want := []string{porter2.Stem("first"), porter2.Stem(w)}
	checkStems(filter.NewStemmer(stemmer.Snowball).Process(in), want, in, []string{"first", w})
}

func H_stemmer_unknown() {
	a := stemmer.StemmerAlgorithm(sym.Int("algorithm"))
	r := sym.Process(func() { filter.NewStemmer(a).Process([]string{"x"}) }, false)
	sym.Assert((r == 4) == (a != stemmer.Snowball), "stemmer: an unknown algorithm is refused, a known one is not")
	sym.Reach("end")
}

// Term frequencies count every occurrence of every term and nothing else.
func H_tf() {
	n := sym.Choose("terms", deep(5, 6))
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, sym.String("term", sym.Choose("len", 2)))
	}
	keep := append([]string{}, l...)
	tf := metric.TermFrequency(l)
	sum, kinds := 0, 0
	for i, t := range keep {
		c, earlier := 0, false
		for j, o := range keep {
			c += sym.IteInt(o == t, 1, 0)
			if j < i {
				earlier = sym.Or(earlier, o == t)
			}
		}
		kinds += sym.IteInt(earlier, 0, 1)
		v, ok := tf[t]
		sym.Assert(ok && v == c, "tf: number of occurrences of a term")
		sym.Assert(l[i] == t, "tf: the terms are changed")
	}
	for _, v := range tf {
		sum += v
	}
	sym.Assert(sum == n, "tf: the frequencies add up to the number of terms")
	sym.Assert(len(tf) == kinds, "tf: number of different terms")
	sym.Reach("end")
}

// Accents go away, everything else stays.
func H_ascii_words() {
	n := sym.Choose("words", 3)
	var in, keep []string
	for i := 0; i < n; i++ {
		w := ascii("word", deep(2, 3))
		in = append(in, w)
		keep = append(keep, w)
	}
	got := filter.NewASCII().Process(in)
	sym.Assert(len(got) == n, "ascii: number of words")
	for i := range keep {
		sym.Assert(got[i] == keep[i], "ascii: a word without accents changes")
		sym.Assert(in[i] == keep[i], "ascii: the input is changed")
	}
	sym.Reach("end")
}

func H_ascii_accents() {
	cases := [][2]string{{"ação", "acao"}, {"é", "e"}, {"e\u0301a", "ea"}, {"ñandú", "nandu"}, {"中é", "中e"}, {"Ü1", "U1"}, {"ø", "ø"}, {"\u0301", ""},
		{"ﬁ½", "ﬁ½"}, {"한국어", "한국어"}, {"Ａ²ª", "Ａ²ª"}, {"ắ", "a"}, {"\u00a0", "\u00a0"}}
	c := cases[sym.Choose("case", len(cases))]
	d := cases[sym.Choose("case", len(cases))]
	w := ascii("w", 1)
	in := []string{c[0], w + d[0], "", w}
	got := filter.NewASCII().Process(in)
	sym.Assert(len(got) == 4 && got[0] == c[1] && got[1] == w+d[1] && got[2] == "" && got[3] == w, "ascii: accents are taken off and nothing else changes")
	sym.Assert(in[0] == c[0] && in[1] == w+d[0] && in[2] == "" && in[3] == w, "ascii: the input is changed")
	sym.Reach("end")
}
