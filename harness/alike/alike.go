// Package alike holds pairs of different names that are easily taken for one: under checksums, folding, trimming or cutting.
package alike

import "strings"

var Pairs = [][2]string{
	{"plumless", "buckeroo"},    // CRC-32
	{"costarring", "liquid"},    // FNV-1a, 32 bits
	{"creamwove", "quists"},     // FNV-1, 32 bits
	{"hetairas", "mentioner"},   // 33 times and add
	{"Aa", "BB"},                // 31 times and add
	{"ab", "ba"},                // sum, exclusive or
	{"Sun", "sun"},              // case
	{"caf\u00e9", "cafe\u0301"}, // normalization
	{"caf\u00e9", "cafe"},       // accents
	{"sun", "sun "},             // blanks
	{"7", "07"},                 // numbers
	{"a:b", "a"},                // parts
	{"", "0"},                   // zero values
	{"nil", "null"},             //
	{strings.Repeat("long ", 26) + "a", strings.Repeat("long ", 26) + "b"}, // beginnings
	{"a" + strings.Repeat(" long", 26), "b" + strings.Repeat(" long", 26)}, // ends
	{"\xff", "\xfe"},      // bytes that are no characters
	{"\u017ft", "\ufb06"}, // compatibility
}
