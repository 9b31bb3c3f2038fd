// Code generated by shimgen. DO NOT EDIT.

package viper

import real "github.com/spf13/viper"

var AddConfigPath = real.AddConfigPath
var AddRemoteProvider = real.AddRemoteProvider
var AddSecureRemoteProvider = real.AddSecureRemoteProvider
var AllKeys = real.AllKeys
var AllSettings = real.AllSettings
var AllowEmptyEnv = real.AllowEmptyEnv
var AutomaticEnv = real.AutomaticEnv
var BindEnv = real.BindEnv
var BindFlagValue = real.BindFlagValue
var BindFlagValues = real.BindFlagValues
var BindPFlag = real.BindPFlag
var BindPFlags = real.BindPFlags

type ConfigFileAlreadyExistsError = real.ConfigFileAlreadyExistsError
type ConfigFileNotFoundError = real.ConfigFileNotFoundError

var ConfigFileUsed = real.ConfigFileUsed

type ConfigMarshalError = real.ConfigMarshalError
type ConfigParseError = real.ConfigParseError

var Debug = real.Debug
var DebugTo = real.DebugTo
var DecodeHook = real.DecodeHook

type DecoderConfigOption = real.DecoderConfigOption

var EnvKeyReplacer = real.EnvKeyReplacer

type FlagValue = real.FlagValue
type FlagValueSet = real.FlagValueSet

var Get = real.Get
var GetBool = real.GetBool
var GetDuration = real.GetDuration
var GetFloat64 = real.GetFloat64
var GetInt = real.GetInt
var GetInt32 = real.GetInt32
var GetInt64 = real.GetInt64
var GetIntSlice = real.GetIntSlice
var GetSizeInBytes = real.GetSizeInBytes
var GetString = real.GetString
var GetStringMap = real.GetStringMap
var GetStringMapString = real.GetStringMapString
var GetStringMapStringSlice = real.GetStringMapStringSlice
var GetStringSlice = real.GetStringSlice
var GetTime = real.GetTime
var GetUint = real.GetUint
var GetUint16 = real.GetUint16
var GetUint32 = real.GetUint32
var GetUint64 = real.GetUint64
var GetViper = real.GetViper
var InConfig = real.InConfig
var IniLoadOptions = real.IniLoadOptions
var IsSet = real.IsSet
var KeyDelimiter = real.KeyDelimiter

type Logger = real.Logger

var MergeConfig = real.MergeConfig
var MergeConfigMap = real.MergeConfigMap
var MergeInConfig = real.MergeInConfig
var MustBindEnv = real.MustBindEnv

type Option = real.Option

var ReadConfig = real.ReadConfig
var ReadInConfig = real.ReadInConfig
var ReadRemoteConfig = real.ReadRemoteConfig
var RegisterAlias = real.RegisterAlias
var RemoteConfig = real.RemoteConfig

type RemoteConfigError = real.RemoteConfigError
type RemoteProvider = real.RemoteProvider
type RemoteResponse = real.RemoteResponse

var Reset = real.Reset
var SafeWriteConfig = real.SafeWriteConfig
var SafeWriteConfigAs = real.SafeWriteConfigAs
var Set = real.Set
var SetConfigFile = real.SetConfigFile
var SetConfigName = real.SetConfigName
var SetConfigPermissions = real.SetConfigPermissions
var SetConfigType = real.SetConfigType
var SetDefault = real.SetDefault
var SetEnvKeyReplacer = real.SetEnvKeyReplacer
var SetEnvPrefix = real.SetEnvPrefix
var SetFs = real.SetFs
var SetTypeByDefaultValue = real.SetTypeByDefaultValue

type StringReplacer = real.StringReplacer

var Sub = real.Sub
var SupportedExts = real.SupportedExts
var SupportedRemoteProviders = real.SupportedRemoteProviders
var Unmarshal = real.Unmarshal
var UnmarshalExact = real.UnmarshalExact
var UnmarshalKey = real.UnmarshalKey

type UnsupportedConfigError = real.UnsupportedConfigError
type UnsupportedRemoteProviderError = real.UnsupportedRemoteProviderError
type Viper = real.Viper

var WatchRemoteConfig = real.WatchRemoteConfig
var WriteConfig = real.WriteConfig
var WriteConfigAs = real.WriteConfigAs
