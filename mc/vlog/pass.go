// Code generated from the API of package log: everything that is passed through unchanged.

package vlog

import "log"

const (
	LUTC          = log.LUTC
	Ldate         = log.Ldate
	Llongfile     = log.Llongfile
	Lmicroseconds = log.Lmicroseconds
	Lmsgprefix    = log.Lmsgprefix
	Lshortfile    = log.Lshortfile
	LstdFlags     = log.LstdFlags
	Ltime         = log.Ltime
)

type (
	Logger = log.Logger
)

var (
	Default   = log.Default
	Flags     = log.Flags
	New       = log.New
	Prefix    = log.Prefix
	SetFlags  = log.SetFlags
	SetOutput = log.SetOutput
	SetPrefix = log.SetPrefix
	Writer    = log.Writer
)
