// Package cont: the containers. The search tree and the queue are pointer-linked (and the queue is the
// standard library's list), which is out of the verifier's reach: bounded checks against a plain slice.
package cont

import (
	"github.com/idoall/stockindicator/container/bst"
	"github.com/idoall/stockindicator/container/queue"
	. "github.com/idoall/stockindicator/zzverif/spec"
)

const Target = "container/bst"
const Props = "C03"

// client_Tree inserts v[i], or removes it where del[i]; after every step it reports smallest, largest, and whether something was removed.
func client_Tree(v []float64, del []bool) (least, most []float64, hit []bool) {
	t := bst.New()
	for i := range v {
		h := false
		if del[i] {
			h = t.Remove(v[i])
		} else {
			t.Insert(v[i])
		}
		a, b := 0.0, 0.0
		if t.Min() != nil {
			a = t.Min().(float64)
		}
		if t.Max() != nil {
			b = t.Max().(float64)
		}
		least, most, hit = append(least, a), append(most, b), append(hit, h)
	}
	return
}

//vcg:bounded
func client_Tree_pre(v []float64, del []bool) bool { return len(v) == len(del) }
func client_Tree_gen(r *Rand) ([]float64, []bool) {
	n := r.Intn(24)
	v, d := make([]float64, n), make([]bool, n)
	unit := []float64{1, 1, 1e-12, 1e9, 1.0 / 3}[r.Intn(5)]
	base := []float64{0, 0, 1, -5}[r.Intn(4)]
	for i := range v {
		v[i], d[i] = base+unit*float64(r.Intn(7)-3), r.Intn(5) < 2
	}
	return v, d
}
func client_Tree_post(v []float64, del []bool, least, most []float64, hit []bool) bool {
	var bag []float64
	for i := range v {
		h := false
		if !del[i] {
			bag = append(bag, v[i])
		} else {
			for k := range bag {
				if bag[k] == v[i] {
					bag, h = append(bag[:k], bag[k+1:]...), true
					break
				}
			}
		}
		a, b := 0.0, 0.0
		for k, x := range bag {
			if k == 0 || x < a {
				a = x
			}
			if k == 0 || x > b {
				b = x
			}
		}
		if least[i] != a || most[i] != b || hit[i] != h {
			return false
		}
	}
	return len(least) == len(v) && len(most) == len(v) && len(hit) == len(v)
}

// client_Queue puts v[i] in, or takes one out where del[i] and the queue holds one; it reports what came out and whether the queue is empty after each step.
func client_Queue(v []float64, del []bool) (out []float64, empty []bool) {
	q := queue.New()
	for i := range v {
		if !del[i] {
			q.Enqueue(v[i])
		} else if !q.Empty() {
			out = append(out, q.Dequeue().(float64))
		}
		empty = append(empty, q.Empty())
	}
	return
}

//vcg:bounded
//vcg:props C04
func client_Queue_pre(v []float64, del []bool) bool { return len(v) == len(del) }
func client_Queue_gen(r *Rand) ([]float64, []bool)  { return client_Tree_gen(r) }
func client_Queue_post(v []float64, del []bool, out []float64, empty []bool) bool {
	var in []float64
	n := 0
	for i := range v {
		if !del[i] {
			in = append(in, v[i])
		} else if n < len(in) {
			if n >= len(out) || out[n] != in[n] {
				return false
			}
			n++
		}
		if empty[i] != (n == len(in)) {
			return false
		}
	}
	return n == len(out) && len(empty) == len(v)
}
