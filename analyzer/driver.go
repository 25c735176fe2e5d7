package main

import (
	"fmt"
	"sort"
	"strings"
)

// The synthetic driver package only instantiates generic functions so that go/ssa builds their bodies for concrete
// types; it is type-checked in memory and never built or run.

var driverImports = map[string]string{}
var driverLines []string

// use adds an instantiation such as conv.IntToInt[int8,int16].
func use(format string, a ...any) {
	driverLines = append(driverLines, "\tsink("+fmt.Sprintf(format, a...)+")")
}

func decl(s string) { driverDecls = append(driverDecls, s) }

var driverDecls []string

const mod = "github.com/bantling/micro/"

func imp(alias, path string) { driverImports[alias] = path }

func driverSource() string {
	var sb strings.Builder
	sb.WriteString("package zzverifdriver\n\nimport (\n")
	var ks []string
	for k := range driverImports {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&sb, "\t%s %q\n", k, driverImports[k])
	}
	sb.WriteString(")\n\n")
	sb.WriteString(strings.Join(driverDecls, "\n"))
	sb.WriteString("\nfunc sink(any) {}\n\nfunc use() {\n")
	sb.WriteString(strings.Join(driverLines, "\n"))
	sb.WriteString("\n}\n")
	return sb.String()
}
