def b(n,*e): return ('C40','bug',n,[('queue.go',)+x for x in e])
def s(n,*e): return ('C40','same',n,[('queue.go',)+x for x in e])
whole=open('/repo/queue.go').read()
body=whole[whole.index('import ('):]
M=[b('front of the list',('q.rep.PushBack(make','q.rep.PushFront(make')),
b('Init keeps the length',('	q.len = 0\n','')),
b('Init keeps the messages',('	q.rep.Init()\n','')),
b('Peek the last',('return i[0].(Msg), true','return i[len(i)-1].(Msg), true')),
b('removed with one left',('if len(i) == 0 {','if len(i) <= 1 {')),
b('part restarted when full',('if i == nil || len(i) == innerCap {\n		elem = q.rep.PushBack(make([]interface{}, 0, innerCap))\n		i = elem.Value.([]interface{})\n','if i == nil {\n		elem = q.rep.PushBack(make([]interface{}, 0, innerCap))\n		i = elem.Value.([]interface{})\n	}\n	if len(i) == innerCap {\n		i = i[:0]\n')),
b('Pop at the end of a part',('	if len(i) == 0 {\n		q.rep.Remove(elem)\n','	if len(i) == 0 {\n		q.rep.Remove(q.rep.Back())\n')),
b('length only of whole parts',('	q.len--\n	i := elem','	i := elem'),('		q.rep.Remove(elem)\n','		q.rep.Remove(elem)\n		q.len--\n')),
b('front after partial',('	return elem.Value.([]interface{})\n}\n','	if i := elem.Value.([]interface{}); len(i) < innerCap || elem.Next() == nil {\n		return i\n	}\n	return elem.Next().Value.([]interface{})\n}\n')),
b('Pop of the wrong end',('	i[0] = nil // remove ref to poped element\n	i = i[1:]\n','	i[len(i)-1] = nil\n	i = i[:len(i)-1]\n')),
s('by capacity',('len(i) == innerCap','len(i) == cap(i)')),
s('smaller parts',('innerCap = 512','innerCap = 64')),
s('no parts',(body,'''type Queue struct {
	msgs []Msg
}

func NewQueue() *Queue { return &Queue{} }

func (q *Queue) Len() int { return len(q.msgs) }

func (q *Queue) Init() { q.msgs = nil }

func (q *Queue) Push(val Msg) { q.msgs = append(q.msgs, val) }

func (q *Queue) Peek() (Msg, bool) {
	if len(q.msgs) == 0 {
		return Msg{}, false
	}
	return q.msgs[0], true
}

func (q *Queue) Pop() {
	if len(q.msgs) == 0 {
		panic("attempting to Pop on an empty Queue")
	}
	q.msgs[0] = Msg{}
	q.msgs = q.msgs[1:]
}
''')),
s('own list',(body,'''type qnode struct {
	msg  Msg
	next *qnode
}

type Queue struct {
	head, tail *qnode
}

func NewQueue() *Queue { return new(Queue) }

func (q *Queue) Len() int {
	n := 0
	for e := q.head; e != nil; e = e.next {
		n++
	}
	return n
}

func (q *Queue) Init() { *q = Queue{} }

func (q *Queue) Push(val Msg) {
	e := &qnode{msg: val}
	if q.tail == nil {
		q.head = e
	} else {
		q.tail.next = e
	}
	q.tail = e
}

func (q *Queue) Peek() (Msg, bool) {
	if q.head == nil {
		return Msg{}, false
	}
	return q.head.msg, true
}

func (q *Queue) Pop() {
	if q.head == nil {
		panic("attempting to Pop on an empty Queue")
	}
	q.head = q.head.next
	if q.head == nil {
		q.tail = nil
	}
}
''')),
s('messages without boxes',('container/list"\n)\n','container/list"\n)\n\ntype part struct{ msgs []Msg }\n'),(body[body.index('func (q *Queue) Push'):],'''func (q *Queue) Push(val Msg) {
	q.len++
	if e := q.rep.Back(); e != nil {
		if p := e.Value.(*part); len(p.msgs) < innerCap {
			p.msgs = append(p.msgs, val)
			return
		}
	}
	p := &part{msgs: make([]Msg, 0, innerCap)}
	p.msgs = append(p.msgs, val)
	q.rep.PushBack(p)
}

func (q *Queue) Peek() (Msg, bool) {
	p := q.front()
	if p == nil {
		return Msg{}, false
	}
	return p.msgs[0], true
}

func (q *Queue) Pop() {
	p := q.front()
	if p == nil {
		panic("attempting to Pop on an empty Queue")
	}
	q.len--
	p.msgs[0] = Msg{}
	p.msgs = p.msgs[1:]
	if len(p.msgs) == 0 {
		q.rep.Remove(q.rep.Front())
	}
}

func (q *Queue) front() *part {
	e := q.rep.Front()
	if e == nil {
		return nil
	}
	return e.Value.(*part)
}
''')),
s('ring',(body,'''const ringStart = 16

type Queue struct {
	buf   []Msg
	first int
	len   int
}

func NewQueue() *Queue { return &Queue{buf: make([]Msg, ringStart)} }

func (q *Queue) Len() int { return q.len }

func (q *Queue) Init() { q.buf, q.first, q.len = make([]Msg, ringStart), 0, 0 }

func (q *Queue) Push(val Msg) {
	if q.len == len(q.buf) {
		buf := make([]Msg, 2*len(q.buf))
		for i := 0; i < q.len; i++ {
			buf[i] = q.buf[(q.first+i)%len(q.buf)]
		}
		q.buf, q.first = buf, 0
	}
	q.buf[(q.first+q.len)%len(q.buf)] = val
	q.len++
}

func (q *Queue) Peek() (Msg, bool) {
	if q.len == 0 {
		return Msg{}, false
	}
	return q.buf[q.first], true
}

func (q *Queue) Pop() {
	if q.len == 0 {
		panic("attempting to Pop on an empty Queue")
	}
	q.buf[q.first] = Msg{}
	q.first = (q.first + 1) % len(q.buf)
	q.len--
}
''')),
]
