// Code generated by shimgen. DO NOT EDIT.

package logger

import real "github.com/IfanTsai/go-lib/logger"

const DefaultLevel = real.DefaultLevel
const DefaultTimeLayout = real.DefaultTimeLayout

type Option = real.Option

var WithDebugLevel = real.WithDebugLevel
var WithErrorLevel = real.WithErrorLevel
var WithField = real.WithField
var WithInfoLevel = real.WithInfoLevel
var WithTimeLayout = real.WithTimeLayout
var WithWarnLevel = real.WithWarnLevel
