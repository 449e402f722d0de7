// Code generated by tools/genshim; DO NOT EDIT.

package rpc

import std "net/rpc"

var Accept = std.Accept

type ClientCodec = std.ClientCodec

const DefaultDebugPath = std.DefaultDebugPath
const DefaultRPCPath = std.DefaultRPCPath

var DefaultServer = std.DefaultServer
var HandleHTTP = std.HandleHTTP
var NewClientWithCodec = std.NewClientWithCodec
var Register = std.Register
var RegisterName = std.RegisterName

type Request = std.Request
type Response = std.Response

var ServeCodec = std.ServeCodec
var ServeConn = std.ServeConn
var ServeRequest = std.ServeRequest

type ServerCodec = std.ServerCodec
