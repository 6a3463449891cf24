package chk

func init() {
	register("C04", func(c *Ctx) {
		c.same(vgOpts{},
			pair{fn: "(generator.Param).Pass", spec: "generator.specParamPass"},
			pair{fn: "(generator.ParamsSlice).Pass", spec: "generator.specSlicePass"},
			pair{fn: "(generator.Method).Call", spec: "generator.specCall"},
			pair{fn: "(generator.Method).Pass", spec: "generator.specPass"},
		)
	})
	register("C05", func(c *Ctx) {
		c.same(vgOpts{},
			pair{fn: "(generator.ParamsSlice).String", spec: "generator.specDecls"},
			pair{fn: "(generator.Method).ParamsNames", spec: "generator.specParamsNames"},
			pair{fn: "(generator.Method).ResultsNames", spec: "generator.specResultsNames"},
			pair{fn: "(generator.Method).ParamsStruct", spec: "generator.specParamsStruct"},
			pair{fn: "(generator.Method).ParamPtrsStruct", spec: "generator.specParamPtrsStruct"},
			pair{fn: "(generator.Method).ResultsStruct", spec: "generator.specResultsStruct"},
			pair{fn: "(generator.Method).ParamsMap", spec: "generator.specParamsMap"},
			pair{fn: "(generator.Method).ResultsMap", spec: "generator.specResultsMap"},
			pair{fn: "(generator.Method).HasParams", spec: "generator.specHasParams"},
			pair{fn: "(generator.Method).HasResults", spec: "generator.specHasResults"},
			pair{fn: "(generator.Method).ReturnStruct", spec: "generator.specReturnStruct"},
		)
		c.declared()
	})
}

// declared compares the declarations that are made of methods.
func (c *Ctx) declared() {
	c.same(vgOpts{},
		pair{fn: "(generator.Method).Signature", spec: "generator.specSignature"},
		pair{fn: "(generator.Method).Declaration", spec: "generator.specDeclaration"},
	)
}
