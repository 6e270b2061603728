// Package net is the simulated net.
package net

import (
	"context"
	std "net"
	"time"

	"github.com/iomz/gosstrak/verif/simrt"
)

func isTCP(network string) bool { return network == "tcp" || network == "tcp4" || network == "tcp6" }

func Dial(network, address string) (Conn, error) {
	if !isTCP(network) {
		return nil, std.UnknownNetworkError(network)
	}
	return simrt.Dial(address, 0)
}

func DialTimeout(network, address string, timeout time.Duration) (Conn, error) {
	if !isTCP(network) {
		return nil, std.UnknownNetworkError(network)
	}
	return simrt.Dial(address, int64(timeout))
}

// TCPConn and TCPListener are what Dial and Listen return.
type (
	TCPConn     = simrt.Conn
	TCPListener = simrt.Listener
)

func DialTCP(network string, laddr, raddr *TCPAddr) (*TCPConn, error) {
	if !isTCP(network) {
		return nil, std.UnknownNetworkError(network)
	}
	c, err := simrt.Dial(raddr.String(), 0)
	if err != nil {
		return nil, err
	}
	return c.(*TCPConn), nil
}

func Listen(network, address string) (Listener, error) {
	if !isTCP(network) {
		return nil, std.UnknownNetworkError(network)
	}
	l, err := simrt.Listen(address)
	if err != nil {
		return nil, err
	}
	return l, nil
}

func ListenTCP(network string, laddr *TCPAddr) (*TCPListener, error) {
	if !isTCP(network) {
		return nil, std.UnknownNetworkError(network)
	}
	return simrt.Listen(laddr.String())
}

func ResolveTCPAddr(network, address string) (*TCPAddr, error) {
	return std.ResolveTCPAddr(network, address)
}

// Dialer has the fields of net.Dialer that make sense here.
type Dialer struct {
	Timeout       time.Duration
	Deadline      time.Time
	LocalAddr     Addr
	DualStack     bool
	FallbackDelay time.Duration
	KeepAlive     time.Duration
	Cancel        <-chan struct{}
}

func (d *Dialer) Dial(network, address string) (Conn, error) {
	return DialTimeout(network, address, d.Timeout)
}

func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	t := d.Timeout
	if dl, ok := ctx.Deadline(); ok {
		left := time.Duration(simrt.MonoOf(dl) - simrt.NowNS())
		if left < 1 {
			left = 1
		}
		if t == 0 || left < t {
			t = left
		}
	}
	return DialTimeout(network, address, t)
}

// ListenConfig mirrors net.ListenConfig.
type ListenConfig struct{ KeepAlive time.Duration }

func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {
	return Listen(network, address)
}
