package gowrap

import (
	"bytes"
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"text/template"
	"unicode"
	"unicode/utf8"

	"github.com/Masterminds/sprig/v3"

	"github.com/hexdigest/gowrap/generator"
	"github.com/hexdigest/gowrap/pkg"
)

var errSpec = errors.New("some error")

// Reference definitions of the helpers of templates.

func specUpFirst(s string) string {
	r, n := utf8.DecodeRuneInString(s)
	if n == 0 {
		return ""
	}
	return string(unicode.ToUpper(r)) + s[n:]
}

func specDownFirst(s string) string {
	r, n := utf8.DecodeRuneInString(s)
	if n == 0 {
		return ""
	}
	return string(unicode.ToLower(r)) + s[n:]
}

func specSnake(s string) string {
	s = regexp.MustCompile("(.)([A-Z][a-z]+)").ReplaceAllString(s, "${1}_${2}")
	s = regexp.MustCompile("([a-z0-9])([A-Z])").ReplaceAllString(s, "${1}_${2}")
	return strings.ToLower(s)
}

func rootHelpers() template.FuncMap { return helperFuncs }

func specHelpers() template.FuncMap {
	m := sprig.TxtFuncMap()
	m["up"] = strings.ToUpper
	m["down"] = strings.ToLower
	m["upFirst"] = upFirst
	m["downFirst"] = downFirst
	m["replace"] = strings.ReplaceAll
	m["snake"] = toSnakeCase
	return m
}

// Reference definitions of the template variables.

func specSet(v *vars, s string) error {
	eq := strings.Index(s, "=")
	if eq < 0 {
		*v = append(*v, varFlag{s, true})
	} else {
		*v = append(*v, varFlag{s[:eq], s[eq+1:]})
	}
	return nil
}

func specToMap(v vars) map[string]interface{} {
	m := map[string]interface{}{}
	for i := range v {
		m[v[i].name] = v[i].value
	}
	return m
}

func specQuote(s string) string {
	s = strings.ReplaceAll(s, "$", "${DOLLAR}")
	q := strconv.Quote(s)
	if s != "" && q == `"`+s+`"` && !strings.ContainsAny(s, " \t") {
		return s
	}
	return q
}

func specVarsToArgs(v vars) string {
	if len(v) == 0 {
		return ""
	}
	var l []string
	for i := range v {
		if s, ok := v[i].value.(string); ok {
			l = append(l, specQuote(v[i].name+"="+s))
		} else if _, ok := v[i].value.(bool); ok {
			l = append(l, specQuote(v[i].name))
		}
	}
	return " -v " + strings.Join(l, " -v ")
}

// Reference definitions of the gen command.

func specLoad(l loader, name string) ([]byte, string, error) {
	b, err := l.fileReader(name)
	if err == nil {
		return b, name, nil
	}
	if os.IsNotExist(err) {
		return l.remoteLoader.Load(name)
	}
	return nil, "", err
}

func specBody(gc *GenerateCommand, dir string) (string, string, error) {
	b, from, err := gc.loader.Load(gc.template)
	if err != nil {
		return "", "", err
	}
	if strings.HasPrefix(from, "https://") || strings.HasPrefix(from, "http://") {
		return string(b), from, nil
	}
	abs, err := gc.filepath.Abs(from)
	if err != nil {
		return "", "", err
	}
	rel, err := gc.filepath.Rel(dir, abs)
	if err != nil {
		return "", "", err
	}
	return string(b), rel, nil
}

func specOptions(gc *GenerateCommand) (*generator.Options, error) {
	dir, err := gc.filepath.Abs(gc.filepath.Dir(gc.outputFile))
	if err != nil {
		return nil, err
	}
	if gc.sourcePkg == "" {
		gc.sourcePkg = "./"
	}
	src, err := pkg.Load(gc.sourcePkg)
	if err != nil {
		return nil, err
	}
	body, from, err := specBody(gc, dir)
	if err != nil {
		return nil, err
	}
	return &generator.Options{
		InterfaceName:         gc.interfaceName,
		SourcePackage:         src.PkgPath,
		SourcePackageInstance: src,
		OutputFile:            gc.outputFile,
		HeaderTemplate:        "", // see the check of the header
		BodyTemplate:          body,
		Vars:                  gc.vars.toMap(),
		HeaderVars: map[string]interface{}{
			"DisableGoGenerate": gc.noGenerate,
			"OutputFileName":    specQuote(filepath.Base(gc.outputFile)),
			"VarsArgs":          varsToArgs(gc.vars),
			"Template":          from,
			"TemplateArg":       specQuote(from),
		},
		Funcs:       helperFuncs,
		LocalPrefix: gc.localPrefix,
	}, nil
}

func specRun(gc *GenerateCommand, args []string, stdout io.Writer) error {
	if err := gc.FlagSet().Parse(args); err != nil {
		return CommandLineError(err.Error())
	}
	if gc.outputFile == "" || gc.interfaceName == "" || gc.template == "" {
		return CommandLineError("")
	}
	o, err := gc.getOptions()
	if err != nil {
		return err
	}
	g, err := generator.NewGenerator(*o)
	if err != nil {
		return err
	}
	var out bytes.Buffer
	if err := g.Generate(&out); err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Dir(gc.outputFile), os.ModePerm); err != nil {
		return err
	}
	return gc.filepath.WriteFile(gc.outputFile, out.Bytes(), 0664)
}

func specNewGenerate(l remoteTemplateLoader) *GenerateCommand {
	gc := &GenerateCommand{}
	gc.loader = loader{os.ReadFile, l}
	gc.filepath = fs{filepath.Rel, filepath.Abs, filepath.Dir, os.WriteFile}
	var set flag.FlagSet
	set.StringVar(&gc.sourcePkg, "p", "", "")
	set.StringVar(&gc.interfaceName, "i", "", "")
	set.StringVar(&gc.template, "t", "", "")
	set.StringVar(&gc.outputFile, "o", "", "")
	set.StringVar(&gc.localPrefix, "l", "", "")
	set.Var(&gc.vars, "v", "")
	set.BoolVar(&gc.noGenerate, "g", false, "")
	gc.Flags = &set
	return gc
}

// Reference definitions of the template command.

func specTemplateRun(gc *TemplateCommand, args []string, w io.Writer) error {
	if len(args) > 0 && args[0] == "list" {
		return gc.list(w)
	}
	if len(args) > 0 && args[0] == "copy" {
		return gc.fetch(w, os.WriteFile, args[1:])
	}
	return CommandLineError("")
}

func specTemplateList(gc *TemplateCommand, w io.Writer) error {
	l, err := gc.loader.List()
	if err != nil {
		return err
	}
	if len(l) == 0 {
		return errSpec
	}
	_, err = fmt.Fprintln(w, "List of available remote templates:")
	if err != nil {
		return err
	}
	for i := range l {
		_, err = fmt.Fprintf(w, "  %s\n", l[i])
		if err != nil {
			return err
		}
	}
	return nil
}

func specTemplateFetch(gc *TemplateCommand, w io.Writer, write writeFileFunc, args []string) error {
	if len(args) < 2 {
		return CommandLineError("")
	}
	b, url, err := gc.loader.Load(args[0])
	if err != nil {
		return err
	}
	if err := write(args[1], b, 0777); err != nil {
		return err
	}
	_, err = fmt.Fprintf(w, "successfully copied from %s\n", url)
	return err
}

func specRegister(name string, c Command) {
	commands[name] = c
	set := c.FlagSet()
	if set == nil {
		return
	}
	set.Init("", flag.ContinueOnError)
	set.SetOutput(io.Discard)
}

func specGetCommand(name string) Command { return commands[name] }

func specShort(b BaseCommand) string { return b.Short }

func specUsageLine(b BaseCommand) string { return b.Usage }

func specFlagSet(b BaseCommand) *flag.FlagSet { return b.Flags }

func specHelpMessage(b BaseCommand, w io.Writer) error {
	_, err := io.WriteString(w, b.Help)
	return err
}

func specUsage(w io.Writer) error {
	return usageTemplate.Execute(w, struct {
		Commands map[string]Command
		Version  string
	}{commands, version})
}

func specNewTemplate(l remoteTemplateLoader) *TemplateCommand {
	return &TemplateCommand{loader: l}
}
