// Code generated from the API of package net: everything that is passed through unchanged.

package vnet

import "net"

const (
	FlagBroadcast    = net.FlagBroadcast
	FlagLoopback     = net.FlagLoopback
	FlagMulticast    = net.FlagMulticast
	FlagPointToPoint = net.FlagPointToPoint
	FlagRunning      = net.FlagRunning
	FlagUp           = net.FlagUp
	IPv4len          = net.IPv4len
	IPv6len          = net.IPv6len
)

type (
	Addr                = net.Addr
	AddrError           = net.AddrError
	Buffers             = net.Buffers
	Conn                = net.Conn
	DNSConfigError      = net.DNSConfigError
	DNSError            = net.DNSError
	Error               = net.Error
	Flags               = net.Flags
	HardwareAddr        = net.HardwareAddr
	IP                  = net.IP
	IPAddr              = net.IPAddr
	IPConn              = net.IPConn
	IPMask              = net.IPMask
	IPNet               = net.IPNet
	Interface           = net.Interface
	InvalidAddrError    = net.InvalidAddrError
	Listener            = net.Listener
	MX                  = net.MX
	NS                  = net.NS
	OpError             = net.OpError
	PacketConn          = net.PacketConn
	ParseError          = net.ParseError
	Resolver            = net.Resolver
	SRV                 = net.SRV
	TCPAddr             = net.TCPAddr
	UDPAddr             = net.UDPAddr
	UDPConn             = net.UDPConn
	UnixAddr            = net.UnixAddr
	UnknownNetworkError = net.UnknownNetworkError
)

var (
	DefaultResolver            = net.DefaultResolver
	ErrClosed                  = net.ErrClosed
	ErrWriteToConnected        = net.ErrWriteToConnected
	IPv4allrouter              = net.IPv4allrouter
	IPv4allsys                 = net.IPv4allsys
	IPv4bcast                  = net.IPv4bcast
	IPv4zero                   = net.IPv4zero
	IPv6interfacelocalallnodes = net.IPv6interfacelocalallnodes
	IPv6linklocalallnodes      = net.IPv6linklocalallnodes
	IPv6linklocalallrouters    = net.IPv6linklocalallrouters
	IPv6loopback               = net.IPv6loopback
	IPv6unspecified            = net.IPv6unspecified
	IPv6zero                   = net.IPv6zero
	CIDRMask                   = net.CIDRMask
	IPv4                       = net.IPv4
	IPv4Mask                   = net.IPv4Mask
	InterfaceAddrs             = net.InterfaceAddrs
	InterfaceByIndex           = net.InterfaceByIndex
	InterfaceByName            = net.InterfaceByName
	Interfaces                 = net.Interfaces
	JoinHostPort               = net.JoinHostPort
	LookupAddr                 = net.LookupAddr
	LookupCNAME                = net.LookupCNAME
	LookupHost                 = net.LookupHost
	LookupIP                   = net.LookupIP
	LookupMX                   = net.LookupMX
	LookupNS                   = net.LookupNS
	LookupPort                 = net.LookupPort
	LookupSRV                  = net.LookupSRV
	LookupTXT                  = net.LookupTXT
	ParseCIDR                  = net.ParseCIDR
	ParseIP                    = net.ParseIP
	ParseMAC                   = net.ParseMAC
	ResolveIPAddr              = net.ResolveIPAddr
	ResolveTCPAddr             = net.ResolveTCPAddr
	ResolveUDPAddr             = net.ResolveUDPAddr
	ResolveUnixAddr            = net.ResolveUnixAddr
	SplitHostPort              = net.SplitHostPort
	TCPAddrFromAddrPort        = net.TCPAddrFromAddrPort
	UDPAddrFromAddrPort        = net.UDPAddrFromAddrPort
)
