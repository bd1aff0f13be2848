package server

import "net"

// NewTCPServerOn makes a server that accepts from the given listener.
func NewTCPServerOn(l net.Listener) *TCPServer {
	s := NewTCPServer()
	s.listener = l
	return s
}
