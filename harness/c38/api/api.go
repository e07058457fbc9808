// Package api describes template instances for an element type, every element coded
// as an int (0 codes the zero value).
package api

import "gxv/lin"

// Node is a node of a list.
type Node interface{}

// List is a doubly or singly linked list; nil functions do not exist.
type List struct {
	Obj                     interface{}
	PushBack, PushFront     func(v int) Node
	PopBack, PopFront       func() (int, bool)
	PushAfter, PushBefore   func(v int, m Node) Node
	Remove                  func(n Node) bool
	MoveFront, MoveBack     func(n Node) bool
	MoveAfter, MoveBefore   func(n, m Node) bool
	Set                     func(n Node, v int) int
	Get                     func(n Node) int
	Reverse, Sort, Clear    func()
	Fwd, Bwd                func(max int) []int
	FrontVal, BackVal       func() (int, bool)
	Len                     func() int
	Valid                   func(n Node) bool
}

// Heap is a heap.
type Heap struct {
	Obj      interface{}
	Init     func(capacity, limit int, max bool)
	Push     func(int)
	Pop, Top func() (int, bool)
	Size     func() int
	Empty    func() bool
	Buffer   func() []int
	Check    func([]int) bool
	Make     func([]int) []int
	SortHeap func([]int) []int
	PushHeap func([]int, int) []int
	PopHeap  func([]int) ([]int, int, bool)
}

// Slice is a sort slice.
type Slice struct {
	Obj    interface{}
	Push   func(int) int
	Insert func(v, i int) int
	Remove func(i int) (int, bool)
	Pop    func() (int, bool)
	Get    func(i int) (int, bool)
	Len    func() int
	Buffer func() []int
	Sort   func()
	Less   func(i, j int) bool
}

// Tree is a tree node.
type Tree struct {
	Add    func(v, idx int) *Tree
	Remove func(idx int) (int, bool) // value of the removed child
	Sort   func()
	Num    func() int
	All    func() []int
	Fwd    func(max int) []int
	Bwd    func(max int) []int
}

// Set is everything instantiated for one element type.
type Set struct {
	Name                string
	Key                 func(v int) int // the order of the element type
	Greater             bool            // default order of slices and lists
	Vals                []int           // sample elements, increasing, with equal keys
	Queue, Deque, Stack func(capacity int) *lin.Impl
	Cmp                 func(greater bool, a, b int) bool
	CmpName             func(name string, a, b int) bool
	List, SList         func() *List
	Heap                func(capacity, limit int, max bool) *Heap
	Slice               func(capacity int) *Slice
	Tree                func() *Tree
}
