// Package context models context.WithValue without reflection.
package context

import "context"

type valueCtx struct {
	context.Context
	key, val any
}

func (c *valueCtx) Value(key any) any {
	if c.key == key {
		return c.val
	}
	return c.Context.Value(key)
}

func WithValue(parent context.Context, key, val any) context.Context {
	return &valueCtx{parent, key, val}
}
