package models

import (
	"fmt"

	"github.com/unsafe-risk/utilx/zzverif/sym"
)

// ---- errors.Is and errors.As without reflection

//sym:model errors.Is
func errorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	return is(err, target, sym.Comparable(target))
}

func is(err, target error, cmp bool) bool {
	for {
		if cmp && sym.Comparable(err) && err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, err := range x.Unwrap() {
				if err != nil && is(err, target, cmp) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

//sym:model errors.As
func errorsAs(err error, target any) bool {
	if err == nil {
		return false
	}
	return as(err, target)
}

func as(err error, target any) bool {
	for {
		if sym.AsTarget(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, err := range x.Unwrap() {
				if err != nil && as(err, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

// ---- fmt.Errorf: the text of fmt.Sprintf, %w as %v, and the wrapped operands

type fmtError struct{ msg string }

func (e *fmtError) Error() string { return e.msg }

type wrapError struct {
	msg string
	err error
}

func (e *wrapError) Error() string { return e.msg }
func (e *wrapError) Unwrap() error { return e.err }

type wrapErrors struct {
	msg  string
	errs []error
}

func (e *wrapErrors) Error() string   { return e.msg }
func (e *wrapErrors) Unwrap() []error { return e.errs }

//sym:model fmt.Errorf
func errorf(format string, a ...any) error {
	// the operand of each %w, verbs counted in order (no explicit indexes or stars)
	f := []byte(format)
	var errs []error
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		for i++; i < len(f) && (f[i] == '+' || f[i] == '-' || f[i] == '#' || f[i] == ' ' || f[i] == '.' || f[i] >= '0' && f[i] <= '9'); i++ {
		}
		if i == len(f) || f[i] == '%' {
			continue
		}
		if f[i] == 'w' {
			f[i] = 'v'
			if n < len(a) {
				if err, ok := a[n].(error); ok {
					errs = append(errs, err)
				}
			}
		}
		n++
	}
	msg := fmt.Sprintf(string(f), a...)
	switch len(errs) {
	case 0:
		return &fmtError{msg}
	case 1:
		return &wrapError{msg, errs[0]}
	}
	return &wrapErrors{msg, errs}
}
