// Package lru is a stand-in for hashicorp/golang-lru/v2: a thread-safe,
// fixed-size cache with least-recently-used eviction.
package lru

import (
	"container/list"
	"errors"
	"sync"
)

type Cache[K comparable, V any] struct {
	mu    sync.Mutex
	size  int
	order *list.List
	index map[K]*list.Element
}
type pair[K comparable, V any] struct {
	k K
	v V
}

func New[K comparable, V any](size int) (*Cache[K, V], error) {
	if size <= 0 {
		return nil, errors.New("must provide a positive size")
	}
	return &Cache[K, V]{size: size, order: list.New(), index: map[K]*list.Element{}}, nil
}

func (c *Cache[K, V]) Get(k K) (v V, ok bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	e, ok := c.index[k]
	if !ok {
		return v, false
	}
	c.order.MoveToFront(e)
	return e.Value.(*pair[K, V]).v, true
}
func (c *Cache[K, V]) Contains(k K) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	_, ok := c.index[k]
	return ok
}
func (c *Cache[K, V]) Add(k K, v V) (evicted bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if e, ok := c.index[k]; ok {
		c.order.MoveToFront(e)
		e.Value.(*pair[K, V]).v = v
		return false
	}
	c.index[k] = c.order.PushFront(&pair[K, V]{k, v})
	if c.order.Len() > c.size {
		e := c.order.Back()
		delete(c.index, e.Value.(*pair[K, V]).k)
		c.order.Remove(e)
		return true
	}
	return false
}
func (c *Cache[K, V]) Keys() []K {
	c.mu.Lock()
	defer c.mu.Unlock()
	var res []K
	for e := c.order.Back(); e != nil; e = e.Prev() {
		res = append(res, e.Value.(*pair[K, V]).k)
	}
	return res
}
func (c *Cache[K, V]) Len() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.order.Len()
}
func (c *Cache[K, V]) Purge() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.order.Init()
	c.index = map[K]*list.Element{}
}
