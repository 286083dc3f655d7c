package vmodel

import (
	"errors"
	"fmt"
	"net"
	"strconv"
)

type wrapError struct {
	msg string
	err error
}

func (e *wrapError) Error() string { return e.msg }
func (e *wrapError) Unwrap() error { return e.err }

type wrapErrors struct {
	msg  string
	errs []error
}

func (e *wrapErrors) Error() string   { return e.msg }
func (e *wrapErrors) Unwrap() []error { return e.errs }

type fmtError struct{ msg string }

func (e *fmtError) Error() string { return e.msg }

// Errorf is fmt.Errorf.
func Errorf(format string, a ...interface{}) error {
	var wrapped []error
	k := 0
	f := []byte(format)
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && (f[i] == '+' || f[i] == '-' || f[i] == '#' || f[i] == ' ' || f[i] >= '0' && f[i] <= '9' || f[i] == '.') {
			i++
		}
		if i >= len(f) || f[i] == '%' {
			continue
		}
		if f[i] == 'w' {
			f[i] = 'v'
			if k < len(a) {
				if e, ok := a[k].(error); ok && e != nil {
					wrapped = append(wrapped, e)
				}
			}
		}
		k++
	}
	msg := fmt.Sprintf(string(f), a...)
	switch len(wrapped) {
	case 0:
		return &fmtError{msg}
	case 1:
		return &wrapError{msg, wrapped[0]}
	}
	return &wrapErrors{msg, wrapped}
}

// ResolveTCPAddr is net.ResolveTCPAddr for literal addresses.
func ResolveTCPAddr(network, address string) (*net.TCPAddr, error) {
	host, port, err := net.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	p := 0
	if port != "" {
		p, err = strconv.Atoi(port)
		if err != nil {
			return nil, errors.New("unknown port tcp/" + port)
		}
	}
	if p < 0 || p > 65535 {
		return nil, errors.New("invalid port " + port)
	}
	if host == "" {
		return &net.TCPAddr{Port: p}, nil
	}
	if host == "localhost" {
		return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: p}, nil
	}
	ip := net.ParseIP(host)
	if ip == nil {
		return nil, errors.New("lookup " + host + ": no such host")
	}
	return &net.TCPAddr{IP: ip, Port: p}, nil
}
