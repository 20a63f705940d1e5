// Package vlog replaces package log in instrumented code: output is dropped,
// Panic panics, Fatal is a violation.
package vlog

import (
	"fmt"

	"verif/mc"
)

func Print(v ...any)            { mc.Note("log: %s", lazy{v}) }
func Println(v ...any)          { mc.Note("log: %s", lazy{v}) }
func Printf(f string, v ...any) { mc.Note("log: %s", lazyf{f, v}) }
func Output(int, string) error  { return nil }
func Panic(v ...any)            { panic(fmt.Sprint(v...)) }
func Panicln(v ...any)          { panic(fmt.Sprintln(v...)) }
func Panicf(f string, v ...any) { panic("log.Panicf: " + f) }
func Fatal(v ...any)            { mc.Fail("log.Fatal: %s", fmt.Sprint(v...)) }
func Fatalln(v ...any)          { mc.Fail("log.Fatal: %s", fmt.Sprint(v...)) }
func Fatalf(f string, v ...any) { mc.Fail("log.Fatal: %s", f) }

type lazy struct{ v []any }

func (l lazy) String() string { return fmt.Sprintf("%d values", len(l.v)) }

type lazyf struct {
	f string
	v []any
}

func (l lazyf) String() string { return l.f }
