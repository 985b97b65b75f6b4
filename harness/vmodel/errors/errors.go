// Package errors models errors.As without reflection.
package errors

import "github.com/sira-serverless-ir-arch/goirlib/zzverif/sym"

func As(err error, target any) bool {
	if err == nil {
		return false
	}
	if target == nil {
		panic("errors: target cannot be nil")
	}
	for {
		if sym.AsTarget(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, err := range x.Unwrap() {
				if err != nil && As(err, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func Is(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	return is(err, target, sym.Comparable(target))
}

func is(err, target error, comparable bool) bool {
	for {
		if comparable && err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, err := range x.Unwrap() {
				if is(err, target, comparable) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}
