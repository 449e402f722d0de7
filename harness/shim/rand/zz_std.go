// Code generated by tools/genshim; DO NOT EDIT.

package rand

import std "math/rand"

var ExpFloat64 = std.ExpFloat64
var Float32 = std.Float32
var Int31 = std.Int31
var Int63 = std.Int63
var NewZipf = std.NewZipf
var NormFloat64 = std.NormFloat64
var Read = std.Read

type Source64 = std.Source64

var Uint32 = std.Uint32
var Uint64 = std.Uint64

type Zipf = std.Zipf
