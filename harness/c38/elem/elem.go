// Package elem has element types that templates are instantiated with.
package elem

// Elem is ordered by K alone; it is neither comparable with == nor with <.
type Elem struct {
	K, Id int
	B     []byte
}

func (a Elem) Less(b Elem) bool { return a.K < b.K }

// Rec is used through a pointer.
type Rec struct {
	Key  string
	Id   int
	Less_ bool
}

// PRec is a pointer type with an order on Key alone.
type PRec = *Rec

func (a *Rec) Less(b *Rec) bool { return a.Key < b.Key }
