package pkg

import (
	"errors"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"path/filepath"

	"golang.org/x/tools/go/packages"
)

// Reference definitions of the loading of packages.

var errSpec = errors.New("some error")

func specLoad(path string) (*packages.Package, error) {
	found, err := packages.Load(&packages.Config{
		Mode: packages.NeedName | packages.NeedImports | packages.NeedDeps | packages.NeedFiles | packages.NeedCompiledGoFiles,
	}, path)
	if err != nil {
		return nil, err
	}
	if len(found) == 0 || len(found[0].Errors) != 0 {
		return nil, errSpec
	}
	return found[0], nil
}

func specDir(p *packages.Package) string {
	all := append(p.GoFiles, p.OtherFiles...)
	if len(all) == 0 {
		return p.PkgPath
	}
	return filepath.Dir(all[0])
}

func specAST(set *token.FileSet, p *packages.Package) (*Package, error) {
	skip := map[string]bool{}
	for i := range p.IgnoredFiles {
		skip[filepath.Base(p.IgnoredFiles[i])] = true
	}
	in, err := parser.ParseDir(set, specDir(p), func(f fs.FileInfo) bool { return !skip[f.Name()] }, parser.ParseComments|parser.DeclarationErrors)
	if err != nil {
		return nil, err
	}
	var files map[string]*ast.File
	if found, ok := in[p.Name]; ok {
		files = found.Files
	}
	return &Package{Files: files, Name: p.Name}, nil
}
