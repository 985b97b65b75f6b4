package selftest

import (
	"github.com/sira-serverless-ir-arch/goirlib/file"
	"github.com/sira-serverless-ir-arch/goirlib/zzverif/sym"
)

func H_esc() {
	s := sym.String("s", 2)
	e := file.EscapeName(s)
	sym.Assert(file.UnescapeName(e) == s, "round trip")
	sym.Reach("end")
}
