package generator

import "strings"

// Reference definitions of what Method, Param and ParamsSlice render.  They are
// compared with the code of the repository as value graphs and never run.

func specParamPass(p Param) string {
	if p.Variadic {
		return p.Name + "..."
	}
	return p.Name
}

func specSlicePass(ps ParamsSlice) string {
	var l []string
	for _, p := range ps {
		l = append(l, specParamPass(p))
	}
	return strings.Join(l, ", ")
}

func specDecls(ps ParamsSlice) string {
	var l []string
	for _, p := range ps {
		l = append(l, p.Name+" "+p.Type)
	}
	return strings.Join(l, ", ")
}

func specNames(ps ParamsSlice) string {
	var l []string
	for _, p := range ps {
		l = append(l, p.Name)
	}
	return strings.Join(l, ", ")
}

func specCall(m Method) string { return m.Name + "(" + specSlicePass(m.Params) + ")" }

func specPass(m Method, prefix string) string {
	if len(m.Results) == 0 {
		return prefix + specCall(m) + "\nreturn"
	}
	return "return " + prefix + specCall(m)
}

func specFieldType(p Param) string {
	if p.Variadic {
		return strings.Replace(p.Type, "...", "[]", 1)
	}
	return p.Type
}

func specParamsStruct(m Method) string {
	var l []string
	for _, p := range m.Params {
		l = append(l, p.Name+" "+specFieldType(p))
	}
	return "struct{\n" + strings.Join(l, "\n ") + "}"
}

func specParamPtrsStruct(m Method) string {
	var l []string
	for _, p := range m.Params {
		l = append(l, p.Name+" *"+specFieldType(p))
	}
	return "struct{\n" + strings.Join(l, "\n ") + "}"
}

func specResultsStruct(m Method) string {
	var l []string
	for _, p := range m.Results {
		l = append(l, p.Name+" "+p.Type)
	}
	return "struct{\n" + strings.Join(l, "\n ") + "}"
}

func specMap(ps ParamsSlice) string {
	var l []string
	for _, p := range ps {
		l = append(l, `"`+p.Name+`": `+p.Name)
	}
	return "map[string]interface{}{\n" + strings.Join(l, ",\n ") + "}"
}

func specParamsMap(m Method) string    { return specMap(m.Params) }
func specResultsMap(m Method) string   { return specMap(m.Results) }
func specParamsNames(m Method) string  { return specNames(m.Params) }
func specResultsNames(m Method) string { return specNames(m.Results) }
func specHasParams(m Method) bool      { return len(m.Params) != 0 }
func specHasResults(m Method) bool     { return len(m.Results) != 0 }

func specReturnStruct(m Method, structName string) string {
	if len(m.Results) == 0 {
		return "return"
	}
	var l []string
	for _, p := range m.Results {
		l = append(l, structName+"."+p.Name)
	}
	return "return " + strings.Join(l, ", ")
}

func specSignature(m Method) string {
	return "(" + specDecls(m.Params) + ") (" + specDecls(m.Results) + ")"
}

func specDeclaration(m Method) string { return m.Name + specSignature(m) }
