package text

import (
	"github.com/sira-serverless-ir-arch/goirlib/field"
	"github.com/sira-serverless-ir-arch/goirlib/filter"
	"github.com/sira-serverless-ir-arch/goirlib/filter/stemmer"
	"github.com/sira-serverless-ir-arch/goirlib/language"
	"github.com/sira-serverless-ir-arch/goirlib/metric"
	"github.com/sira-serverless-ir-arch/goirlib/tokenizer"
	"github.com/sira-serverless-ir-arch/goirlib/zzverif/sym"
)

// atOnce runs two functions in goroutines of their own at the same time: every schedule with few delays, no data races.
func atOnce(f, g func()) {
	sym.Races(true)
	sym.Explore(deep(2, 4))
	done := make(chan bool, 2)
	go func() {
		f()
		done <- true
	}()
	go func() {
		g()
		done <- true
	}()
	<-done
	<-done
	sym.StopExplore()
	sym.Races(false)
}

func equal(got, want []string, label string) {
	sym.Assert(len(got) == len(want), label)
	for i := range want {
		sym.Assert(i < len(got) && got[i] == want[i], label)
	}
}

func H_tokens_together() {
	c := ascii("char", 1)
	a, b := "one two"+c+"three", "4 five's"
	wa, wb := split(a), split(b)
	atOnce(func() {
		equal(tokenizer.NewStandard().Tokenize(a), wa, "tokens: of a text beside another")
	}, func() {
		equal(tokenizer.NewStandard().Tokenize(b), wb, "tokens: of a text beside another")
	})
	sym.Reach("end")
}

func H_stopwords_together() {
	w := ascii("word", 1)
	shared := filter.NewStopWords(language.GetWords(language.English))
	want := []string{"sun", w}
	if w == "a" {
		want = want[:1]
	}
	atOnce(func() {
		equal(shared.Process([]string{"the", "sun", w}), want, "stop words: a list beside another")
	}, func() {
		equal(filter.NewStopWords(language.GetWords(language.English)).Process([]string{"moon", "the"}), []string{"moon"}, "stop words: a list beside another")
		equal(shared.Process([]string{"star", "of", "o"}), []string{"star", "o"}, "stop words: a list beside another")
		_ = language.GetWords(language.Portuguese)
	})
	sym.Reach("end")
}

func H_stemmer_together() {
	one := filter.NewStemmer(stemmer.Snowball)
	other := one
	if sym.Choose("other", 2) == 1 {
		other = filter.NewStemmer(stemmer.Snowball)
	}
	atOnce(func() {
		equal(one.Process([]string{"galaxies", "running"}), []string{"galaxi", "run"}, "stemmer: a list beside another")
	}, func() {
		equal(other.Process([]string{"running", "stars"}), []string{"run", "star"}, "stemmer: a list beside another")
	})
	sym.Reach("end")
}

func H_folding_together() {
	fold, lower := filter.NewASCII(), filter.NewLowercase()
	c := ascii("char", 1)
	sym.Assume(sym.And(c[0] >= 'a', c[0] <= 'z'))
	in := []string{"ação", "caf" + c}
	atOnce(func() {
		equal(fold.Process(in), []string{"acao", "caf" + c}, "ascii: a list beside another")
		equal(lower.Process([]string{"Ação", "B"}), []string{"ação", "b"}, "lowercase: a list beside another")
	}, func() {
		equal(lower.Process([]string{"ÉTÉ", c}), []string{"été", c}, "lowercase: a list beside another")
		equal(filter.NewASCII().Process([]string{"été", "résumé"}), []string{"ete", "resume"}, "ascii: a list beside another")
		equal(fold.Process(in), []string{"acao", "caf" + c}, "ascii: a list beside another")
	})
	sym.Reach("end")
}

func H_flatten_together() {
	v := ascii("value", 1)
	o := map[string]any{"a": map[string]any{"b": v}, "Id": v}
	atOnce(func() {
		m := field.Flatten(o)
		sym.Assert(len(m) == 2 && m["a.b"] == v, "flatten: an object beside another")
		sym.Assert(field.GetID(m) == v, "flatten: the id of an object beside another")
	}, func() {
		m := field.Flatten(map[string]any{"a": map[string]any{"c": "x"}, "Id": "y"})
		sym.Assert(len(m) == 2 && m["a.c"] == "x", "flatten: an object beside another")
		sym.Assert(field.GetID(m) == "y" && field.GetID(field.Flatten(o)) == v, "flatten: the id of an object beside another")
	})
	sym.Reach("end")
}

func H_tf_together() {
	w := ascii("word", 1)
	l := []string{"sun", w, "sun"}
	atOnce(func() {
		m := metric.TermFrequency(l)
		sym.Assert(len(m) == 2 && m["sun"] == 2 && m[w] == 1, "frequencies: of a list beside another")
	}, func() {
		m := metric.TermFrequency([]string{"moon", "sun"})
		sym.Assert(len(m) == 2 && m["sun"] == 1 && m["moon"] == 1, "frequencies: of a list beside another")
		m = metric.TermFrequency(l)
		sym.Assert(len(m) == 2 && m["sun"] == 2 && m[w] == 1, "frequencies: of a list beside another")
	})
	sym.Reach("end")
}

// Long words and many different ones: the same answer the second time, for every length.
func H_stopwords_words() {
	n := 1 + sym.Choose("length", deep(80, 300))
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a' + byte(i%26)
	}
	b[n/2] = sym.String("letter", 1)[0]
	w := string(b)
	sym.Assume(w != "x")
	stop := map[string]bool{"the": true, w + "s": true}
	if sym.Choose("in", 2) == 1 {
		stop[w] = true
	}
	_, in := stop[w]
	f := filter.NewStopWords(stop)
	for i := 0; i < 3; i++ {
		if in {
			equal(f.Process([]string{w, "x", w}), []string{"x"}, "stop words: a long word again")
		} else {
			equal(f.Process([]string{w, "x", "the", w}), []string{w, "x", w}, "stop words: a long word again")
		}
	}
	sym.Reach("end")
}
