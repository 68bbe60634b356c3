package main

import "strings"

// baselineAPI lists the exported operations of the library that rules treat as
// units; everything else (unexported helpers, closures, new functions) is inlined.
var baselineAPI = map[string]bool{}

// inlineAlways lists exported helpers that are looked through like unexported ones.
const inlineAlways = "IsHex NewKeyword NewXrefEntry NewIndirectObject NewReference NewSecurityHandler"

func init() {
	for _, n := range strings.Fields(`
ASCII85Decode ASCIIHexDecode Action.Extract Array.GetArray Array.GetBool Array.GetBytes Array.GetDictionary Array.GetInt
Array.GetInt64 Array.GetName Array.GetNumber Array.GetObject Array.GetStream Array.GetString Array.String BytesToInt
CryptFilterAES.NewDecryptor CryptFilterNone.NewDecryptor CryptFilterRC4.NewDecryptor Debug DecodeStream DecryptorAES.Decrypt DecryptorRC4.Decrypt
DecryptorNone.Decrypt Dictionary.GetArray Dictionary.GetBool Dictionary.GetBytes Dictionary.GetDictionary Dictionary.GetInt
Dictionary.GetInt64 Dictionary.GetName Dictionary.GetNameTreeMap Dictionary.GetNumber Dictionary.GetObject
Dictionary.GetPageTree Dictionary.GetReference Dictionary.GetStream Dictionary.GetString Dictionary.ResolveKids
Dictionary.String File.Extract FlateDecode Font.Decode GetBits IndirectObject.Extract IndirectObject.String
Keyword.String LZWDecode Name.String NewFont NewOutput NewParser Number.String Output.Close Output.DumpFile Output.Error
Page.Extract Parse Parser.CurrentOffset Parser.GetObject Parser.Load Parser.ReadArray Parser.ReadCommand
Parser.ReadDictionary Parser.ReadHexString Parser.ReadInt Parser.ReadInt64 Parser.ReadKeyword Parser.ReadName
Parser.ReadNumber Parser.ReadObject Parser.ReadObjectHeader Parser.ReadStream Parser.ReadString Parser.Seek
Parser.SetPassword ReadInt ReadInt64 Reference.Resolve Reference.ResolveStream Reference.String ReversePredictor
RunLengthDecode SecurityHandler.Init SetBits String.String`) {
		baselineAPI[n] = true
	}
}
