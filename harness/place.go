package raml

import "strings"

const vPlaces = 18

// vPlaced are the files that vDecl wrote.
var vPlaced = map[string]string{}

func vPut(name, content string) {
	vFile(name, content)
	vPlaced[name] = content
}

// vDecl puts a type declaration (lines without indentation) somewhere in a library.
func vDecl(decl []string, place int) string {
	at := func(n int) string {
		s := ""
		for _, l := range decl {
			s += strings.Repeat(" ", n) + l + "\n"
		}
		return s
	}
	switch place { // 7, 13: in a DataType file; 8, 9, 16: in another library
	case 0:
		return "types:\n  T:\n" + at(4)
	case 1:
		return "annotationTypes:\n  T:\n" + at(4)
	case 2:
		return "types:\n  O:\n    properties:\n      a: string\n      b?:\n" + at(8)
	case 3:
		return "types:\n  O:\n    properties:\n      a: string\n      /^b/:\n" + at(8)
	case 4:
		return "types:\n  O:\n    type: array\n    items:\n" + at(6)
	case 5:
		return "types:\n  O:\n    properties:\n      a:\n        type: array\n        items:\n          properties:\n            /^x/: string\n            c:\n" + at(14)
	case 6:
		return "types:\n  U: string | T\n  T:\n" + at(4)
	case 7:
		vPut("d.raml", "#%RAML 1.0 DataType\n"+at(0))
		return "types:\n  O:\n    properties:\n      a: !include d.raml\n"
	case 8:
		vPut("l.raml", "#%RAML 1.0 Library\ntypes:\n  T:\n"+at(4))
		return "uses:\n  l: l.raml\n"
	case 9:
		vPut("l.raml", "#%RAML 1.0 Library\nannotationTypes:\n  T:\n    type: object\n    properties:\n      a:\n"+at(8))
		vPut("m.raml", "#%RAML 1.0 Library\nuses:\n  l: l.raml\n")
		return "uses:\n  m: m.raml\n"
	case 10:
		return "types:\n  A:\n    type: object\n    facets:\n      f?:\n" + at(8)
	case 11:
		return "types:\n  A: string\n  B: A\n  C:\n    type: A\n    minLength: 0\n  T:\n" + at(4) + "  Z: integer\n"
	case 12:
		return "types:\n  O:\n    properties:\n      a:\n        properties:\n          b:\n            properties:\n              /^c/:\n" + at(16)
	}
	switch place {
	case 14:
		return "types:\n  N:\n    properties:\n      next?: N\n      kids?: N[]\n      b?:\n" + at(8)
	case 15:
		return "types:\n  O:\n    properties:\n      b: any\n  Q:\n    type: O\n    properties:\n      b:\n" + at(8)
	case 16:
		vPut("l.raml", "#%RAML 1.0 Library\ntypes:\n  O:\n    type: object\n    facets:\n      g?: string[]\n    properties:\n      /^a/:\n"+at(8))
		return "uses:\n  l: l.raml\ntypes:\n  C:\n    type: l.O\n    properties:\n      a: any\n  D: l.O[]\n"
	}
	vPut("d.raml", "#%RAML 1.0 DataType\ntype: array\nitems:\n"+at(2))
	return "types:\n  T: !include d.raml\n"
}
