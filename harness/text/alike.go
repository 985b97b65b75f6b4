package text

import (
	"strings"

	"github.com/sira-serverless-ir-arch/goirlib/field"
	"github.com/sira-serverless-ir-arch/goirlib/file"
	"github.com/sira-serverless-ir-arch/goirlib/filter"
	"github.com/sira-serverless-ir-arch/goirlib/filter/stemmer"
	"github.com/sira-serverless-ir-arch/goirlib/metric"
	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/zzverif/alike"
	"github.com/sira-serverless-ir-arch/goirlib/zzverif/sym"
	"github.com/sira-serverless-ir-arch/porter2"
)

// twins are two names that are easily taken for one.
func twins() (string, string) {
	p := alike.Pairs[sym.Choose("pair", len(alike.Pairs))]
	if sym.Choose("swap", 2) == 1 {
		return p[1], p[0]
	}
	return p[0], p[1]
}

func H_tf_alike() {
	x, y := twins()
	n := 1 + sym.Choose("times", 3)
	l := []string{y}
	for i := 0; i < n; i++ {
		l = append(l, x)
	}
	tf := metric.TermFrequency(l)
	sym.Assert(len(tf) == 2 && tf[x] == n && tf[y] == 1, "tf: number of occurrences of a term with a name like another one")
	sym.Reach("end")
}

func H_set_alike() {
	x, y := twins()
	s := model.NewSet()
	s.Add(x)
	sym.Assert(s.Contains(x) && !s.Contains(y) && s.Size() == 1, "set: an element with a name like another one")
	s.Add(y)
	sym.Assert(s.Contains(x) && s.Contains(y) && s.Size() == 2, "set: an element with a name like another one")
	s.Remove(x)
	sym.Assert(!s.Contains(x) && s.Contains(y) && s.Size() == 1, "set: an element with a name like another one")
	sym.Reach("end")
}

func H_stop_alike() {
	x, y := twins()
	got := filter.NewStopWords(map[string]bool{x: true}).Process([]string{y, x, y})
	sym.Assert(len(got) == 2 && got[0] == y && got[1] == y, "stopwords: a word like a stop word")
	sym.Reach("end")
}

func H_file_alike() {
	x, y := twins()
	a, b := file.EscapeName(x), file.EscapeName(y)
	sym.Assert(a != b, "names: two names have the same file")
	checkName(x, a)
	checkName(y, b)
	sym.Reach("end")
}

func H_flat_alike() {
	x, y := twins()
	v, w := sym.Int("v"), sym.Int("w")
	switch sym.Choose("depth", 2) {
	case 0:
		out := field.Flatten(map[string]interface{}{x: v, y: w})
		sym.Assert(len(out) == 2 && out[x] == v && out[y] == w, "flatten: keys with names alike")
	case 1:
		out := field.Flatten(map[string]interface{}{"o": map[string]interface{}{x: v}, y: w, "p": map[string]interface{}{y: v}})
		sym.Assert(len(out) == 3 && out["o."+x] == v && out[y] == w && out["p."+y] == v, "flatten: keys with names alike")
	}
	sym.Reach("end")
}

func H_stem_alike() {
	x, y := twins()
	got := filter.NewStemmer(stemmer.Snowball).Process([]string{x, y, x})
	sym.Assert(len(got) == 3 && got[0] == porter2.Stem(x) && got[1] == porter2.Stem(y) && got[2] == got[0], "stemmer: words that look alike")
	sym.Reach("end")
}

func H_fold_alike() {
	x, y := twins()
	a := filter.NewASCII()
	one, two := a.Process([]string{x}), a.Process([]string{y})
	both := a.Process([]string{x, y, x})
	sym.Assert(len(both) == 3 && both[0] == one[0] && both[1] == two[0] && both[2] == one[0], "ascii: words that look alike")
	l := filter.NewLowercase().Process([]string{x, y})
	sym.Assert(len(l) == 2 && l[0] == strings.ToLower(x) && l[1] == strings.ToLower(y), "lowercase: words that look alike")
	sym.Reach("end")
}
