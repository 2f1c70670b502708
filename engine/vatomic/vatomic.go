// Package vatomic is the controlled replacement of package sync/atomic: each operation
// is a scheduling point followed by the real operation.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/ti-mo/comfo/zzverif/vrt"
)

func p() { vrt.Point("atomic") }

type Int32 struct{ v atomic.Int32 }

func (a *Int32) Load() int32                    { p(); return a.v.Load() }
func (a *Int32) Store(n int32)                  { p(); a.v.Store(n) }
func (a *Int32) Add(n int32) int32              { p(); return a.v.Add(n) }
func (a *Int32) Swap(n int32) int32             { p(); return a.v.Swap(n) }
func (a *Int32) CompareAndSwap(o, n int32) bool { p(); return a.v.CompareAndSwap(o, n) }

type Int64 struct{ v atomic.Int64 }

func (a *Int64) Load() int64                    { p(); return a.v.Load() }
func (a *Int64) Store(n int64)                  { p(); a.v.Store(n) }
func (a *Int64) Add(n int64) int64              { p(); return a.v.Add(n) }
func (a *Int64) Swap(n int64) int64             { p(); return a.v.Swap(n) }
func (a *Int64) CompareAndSwap(o, n int64) bool { p(); return a.v.CompareAndSwap(o, n) }

type Uint32 struct{ v atomic.Uint32 }

func (a *Uint32) Load() uint32                    { p(); return a.v.Load() }
func (a *Uint32) Store(n uint32)                  { p(); a.v.Store(n) }
func (a *Uint32) Add(n uint32) uint32             { p(); return a.v.Add(n) }
func (a *Uint32) Swap(n uint32) uint32            { p(); return a.v.Swap(n) }
func (a *Uint32) CompareAndSwap(o, n uint32) bool { p(); return a.v.CompareAndSwap(o, n) }

type Uint64 struct{ v atomic.Uint64 }

func (a *Uint64) Load() uint64                    { p(); return a.v.Load() }
func (a *Uint64) Store(n uint64)                  { p(); a.v.Store(n) }
func (a *Uint64) Add(n uint64) uint64             { p(); return a.v.Add(n) }
func (a *Uint64) Swap(n uint64) uint64            { p(); return a.v.Swap(n) }
func (a *Uint64) CompareAndSwap(o, n uint64) bool { p(); return a.v.CompareAndSwap(o, n) }

type Bool struct{ v atomic.Bool }

func (a *Bool) Load() bool                    { p(); return a.v.Load() }
func (a *Bool) Store(n bool)                  { p(); a.v.Store(n) }
func (a *Bool) Swap(n bool) bool              { p(); return a.v.Swap(n) }
func (a *Bool) CompareAndSwap(o, n bool) bool { p(); return a.v.CompareAndSwap(o, n) }

type Value struct{ v atomic.Value }

func (a *Value) Load() any                    { p(); return a.v.Load() }
func (a *Value) Store(n any)                  { p(); a.v.Store(n) }
func (a *Value) Swap(n any) any               { p(); return a.v.Swap(n) }
func (a *Value) CompareAndSwap(o, n any) bool { p(); return a.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (a *Pointer[T]) Load() *T                    { p(); return a.v.Load() }
func (a *Pointer[T]) Store(n *T)                  { p(); a.v.Store(n) }
func (a *Pointer[T]) Swap(n *T) *T                { p(); return a.v.Swap(n) }
func (a *Pointer[T]) CompareAndSwap(o, n *T) bool { p(); return a.v.CompareAndSwap(o, n) }

type Uintptr struct{ v atomic.Uintptr }

func (a *Uintptr) Load() uintptr                    { p(); return a.v.Load() }
func (a *Uintptr) Store(n uintptr)                  { p(); a.v.Store(n) }
func (a *Uintptr) Add(n uintptr) uintptr            { p(); return a.v.Add(n) }
func (a *Uintptr) Swap(n uintptr) uintptr           { p(); return a.v.Swap(n) }
func (a *Uintptr) CompareAndSwap(o, n uintptr) bool { p(); return a.v.CompareAndSwap(o, n) }

func LoadInt32(a *int32) int32                         { p(); return atomic.LoadInt32(a) }
func LoadInt64(a *int64) int64                         { p(); return atomic.LoadInt64(a) }
func LoadUint32(a *uint32) uint32                      { p(); return atomic.LoadUint32(a) }
func LoadUint64(a *uint64) uint64                      { p(); return atomic.LoadUint64(a) }
func LoadPointer(a *unsafe.Pointer) unsafe.Pointer     { p(); return atomic.LoadPointer(a) }
func StoreInt32(a *int32, v int32)                     { p(); atomic.StoreInt32(a, v) }
func StoreInt64(a *int64, v int64)                     { p(); atomic.StoreInt64(a, v) }
func StoreUint32(a *uint32, v uint32)                  { p(); atomic.StoreUint32(a, v) }
func StoreUint64(a *uint64, v uint64)                  { p(); atomic.StoreUint64(a, v) }
func StorePointer(a *unsafe.Pointer, v unsafe.Pointer) { p(); atomic.StorePointer(a, v) }
func AddInt32(a *int32, d int32) int32                 { p(); return atomic.AddInt32(a, d) }
func AddInt64(a *int64, d int64) int64                 { p(); return atomic.AddInt64(a, d) }
func AddUint32(a *uint32, d uint32) uint32             { p(); return atomic.AddUint32(a, d) }
func AddUint64(a *uint64, d uint64) uint64             { p(); return atomic.AddUint64(a, d) }
func SwapInt32(a *int32, v int32) int32                { p(); return atomic.SwapInt32(a, v) }
func SwapInt64(a *int64, v int64) int64                { p(); return atomic.SwapInt64(a, v) }
func SwapUint32(a *uint32, v uint32) uint32            { p(); return atomic.SwapUint32(a, v) }
func SwapUint64(a *uint64, v uint64) uint64            { p(); return atomic.SwapUint64(a, v) }
func CompareAndSwapInt32(a *int32, o, n int32) bool    { p(); return atomic.CompareAndSwapInt32(a, o, n) }
func CompareAndSwapInt64(a *int64, o, n int64) bool    { p(); return atomic.CompareAndSwapInt64(a, o, n) }
func CompareAndSwapUint32(a *uint32, o, n uint32) bool {
	p()
	return atomic.CompareAndSwapUint32(a, o, n)
}
func CompareAndSwapUint64(a *uint64, o, n uint64) bool {
	p()
	return atomic.CompareAndSwapUint64(a, o, n)
}
func (a *Int32) And(n int32) int32              { p(); return a.v.And(n) }
func AndInt32(a *int32, n int32) int32          { p(); return atomic.AndInt32(a, n) }
func (a *Int32) Or(n int32) int32               { p(); return a.v.Or(n) }
func OrInt32(a *int32, n int32) int32           { p(); return atomic.OrInt32(a, n) }
func (a *Int64) And(n int64) int64              { p(); return a.v.And(n) }
func AndInt64(a *int64, n int64) int64          { p(); return atomic.AndInt64(a, n) }
func (a *Int64) Or(n int64) int64               { p(); return a.v.Or(n) }
func OrInt64(a *int64, n int64) int64           { p(); return atomic.OrInt64(a, n) }
func (a *Uint32) And(n uint32) uint32           { p(); return a.v.And(n) }
func AndUint32(a *uint32, n uint32) uint32      { p(); return atomic.AndUint32(a, n) }
func (a *Uint32) Or(n uint32) uint32            { p(); return a.v.Or(n) }
func OrUint32(a *uint32, n uint32) uint32       { p(); return atomic.OrUint32(a, n) }
func (a *Uint64) And(n uint64) uint64           { p(); return a.v.And(n) }
func AndUint64(a *uint64, n uint64) uint64      { p(); return atomic.AndUint64(a, n) }
func (a *Uint64) Or(n uint64) uint64            { p(); return a.v.Or(n) }
func OrUint64(a *uint64, n uint64) uint64       { p(); return atomic.OrUint64(a, n) }
func (a *Uintptr) And(n uintptr) uintptr        { p(); return a.v.And(n) }
func AndUintptr(a *uintptr, n uintptr) uintptr  { p(); return atomic.AndUintptr(a, n) }
func (a *Uintptr) Or(n uintptr) uintptr         { p(); return a.v.Or(n) }
func OrUintptr(a *uintptr, n uintptr) uintptr   { p(); return atomic.OrUintptr(a, n) }
func LoadUintptr(a *uintptr) uintptr            { p(); return atomic.LoadUintptr(a) }
func StoreUintptr(a *uintptr, v uintptr)        { p(); atomic.StoreUintptr(a, v) }
func AddUintptr(a *uintptr, d uintptr) uintptr  { p(); return atomic.AddUintptr(a, d) }
func SwapUintptr(a *uintptr, v uintptr) uintptr { p(); return atomic.SwapUintptr(a, v) }
func CompareAndSwapUintptr(a *uintptr, o, n uintptr) bool {
	p()
	return atomic.CompareAndSwapUintptr(a, o, n)
}
func SwapPointer(a *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	p()
	return atomic.SwapPointer(a, v)
}
func CompareAndSwapPointer(a *unsafe.Pointer, o, n unsafe.Pointer) bool {
	p()
	return atomic.CompareAndSwapPointer(a, o, n)
}
