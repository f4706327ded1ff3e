// Code generated by passgen. DO NOT EDIT.

package flag

import real "flag"

const ContinueOnError = real.ContinueOnError

var ErrHelp = real.ErrHelp

type ErrorHandling = real.ErrorHandling

const ExitOnError = real.ExitOnError

type Flag = real.Flag
type FlagSet = real.FlagSet
type Getter = real.Getter

const PanicOnError = real.PanicOnError

var UnquoteUsage = real.UnquoteUsage

type Value = real.Value
