import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkseed import mkseed
only = sys.argv[1:]
def seed(id, *a, **k):
    if not only or id in only:
        mkseed(id, *a, **k)

seed('c41-off', 'C41', 'a PUSH socket with two connections of which one is lost',
 'the loss of one of two connections makes Send wait for another, although one is left',
 [('msgio.go', '''	if len(mw.ws) == 0 {
		mw.sem.disable()''', '''	if len(mw.ws) <= 1 {
		mw.sem.disable()''')], r'''
package zmq4

import (
	"context"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	push := NewPush(ctx, WithTimeout(time.Second))
	defer push.Close()
	var pulls []Socket
	for _, ep := range []string{"inproc://zz-c41-off-1", "inproc://zz-c41-off-2"} {
		pull := NewPull(ctx)
		defer pull.Close()
		if err := pull.Listen(ep); err != nil {
			t.Fatal(err)
		}
		if err := push.Dial(ep); err != nil {
			t.Fatal(err)
		}
		pulls = append(pulls, pull)
	}
	if err := push.Send(NewMsgString("first")); err != nil {
		t.Fatal(err)
	}
	if err := pulls[0].Close(); err != nil {
		t.Fatal(err)
	}
	// what is sent meanwhile may fail: the loss is noticed by a failing Send
	sck := push.(*pushSocket).sck
	for i := 0; i < 50; i++ {
		_ = push.Send(NewMsgString("probe"))
		sck.mu.RLock()
		n := len(sck.conns)
		sck.mu.RUnlock()
		if n == 1 {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	time.Sleep(200 * time.Millisecond)
	for i := 0; i < 3; i++ {
		if err := push.Send(NewMsgString("next")); err != nil {
			t.Fatalf("Send with one connection left: %v", err)
		}
	}
	seen := 0
	for seen < 3 {
		m, err := pulls[1].Recv()
		if err != nil {
			t.Fatal(err)
		}
		if string(m.Bytes()) == "next" {
			seen++
		}
	}
}
''')

seed('c41-router', 'C41', 'a ROUTER socket with three peers of which the first is lost',
 'the connections made after the one that is lost are forgotten by the writer: messages to their peers are dropped',
 [('router.go', '''		mw.ws = append(mw.ws[:cur], mw.ws[cur+1:]...)
''', '''		mw.ws = append(mw.ws[:cur], mw.ws[min(cur+2, len(mw.ws)):]...)
''')], r'''
package zmq4

import (
	"context"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	router := NewRouter(ctx)
	defer router.Close()
	if err := router.Listen("inproc://zz-c41-router"); err != nil {
		t.Fatal(err)
	}
	sck := router.(*routerSocket).sck
	count := func(want int) {
		for i := 0; i < 500; i++ {
			sck.mu.RLock()
			n := len(sck.conns)
			sck.mu.RUnlock()
			if n == want {
				return
			}
			time.Sleep(10 * time.Millisecond)
		}
		t.Fatalf("not %d connections", want)
	}
	var ds []Socket
	for i, id := range []string{"one", "two", "three"} {
		d := NewDealer(ctx, WithID(SocketIdentity(id)), WithTimeout(5*time.Second))
		defer d.Close()
		if err := d.Dial("inproc://zz-c41-router"); err != nil {
			t.Fatal(err)
		}
		count(i + 1)
		ds = append(ds, d)
	}
	if err := ds[0].Close(); err != nil {
		t.Fatal(err)
	}
	count(2)
	time.Sleep(100 * time.Millisecond)
	for i, id := range []string{"two", "three"} {
		if err := router.Send(NewMsgFrom([]byte(id), []byte("hello"))); err != nil {
			t.Fatal(err)
		}
		d := ds[i+1]
		ch := make(chan error, 1)
		go func() { _, err := d.Recv(); ch <- err }()
		select {
		case err := <-ch:
			if err != nil {
				t.Fatal(err)
			}
		case <-time.After(5 * time.Second):
			t.Fatalf("nothing came for %s", id)
		}
	}
}
''')

seed('c08-encrypt', 'C08', 'a message of several frames of which one that is not the last cannot be encrypted',
 'a frame that the security mechanism refuses is left out, and Send reports success',
 [('conn.go', '''		err := c.send(false, frame, flag)
		if err != nil {
			return fmt''', '''		err := c.send(false, frame, flag)
		if err != nil && i == nframes-1 {
			return fmt''')], r'''
package zmq4

import (
	"context"
	"errors"
	"io"
	"testing"
	"time"
)

type zzSec struct{ fail int }

func (*zzSec) Type() SecurityType              { return "ZZ" }
func (*zzSec) Handshake(c *Conn, s bool) error     { return nullSecurity{}.Handshake(c, s) }
func (*zzSec) Decrypt(w io.Writer, data []byte) (int, error) { return w.Write(data) }
func (s *zzSec) Encrypt(w io.Writer, data []byte) (int, error) {
	if string(data) == "bad" {
		return 0, errors.New("refused")
	}
	return w.Write(data)
}

func TestZZDemo(t *testing.T) {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	pull := NewPull(ctx, WithSecurity(&zzSec{}))
	defer pull.Close()
	if err := pull.Listen("inproc://zz-c08-encrypt"); err != nil {
		t.Fatal(err)
	}
	push := NewPush(ctx, WithSecurity(&zzSec{}))
	defer push.Close()
	if err := push.Dial("inproc://zz-c08-encrypt"); err != nil {
		t.Fatal(err)
	}
	if err := push.Send(NewMsgFrom([]byte("good"), []byte("fine"))); err != nil {
		t.Fatal(err)
	}
	if err := push.Send(NewMsgFrom([]byte("bad"), []byte("fine"))); err == nil {
		t.Fatal("Send reports success for a message that could not be sent")
	}
}
''')

seed('c40-back', 'C40', 'more than 512 messages in the queue, and all of the first 512 popped',
 'when the oldest part of the queue is empty the newest part is dropped instead',
 [('queue.go', '''		q.rep.Remove(elem)
''', '''		q.rep.Remove(q.rep.Back())
''')], r'''
package zmq4

import (
	"fmt"
	"testing"
)

func TestZZDemo(t *testing.T) {
	q := NewQueue()
	for i := 0; i < 1500; i++ {
		q.Push(NewMsgString(fmt.Sprint(i)))
	}
	for i := 0; i < 1500; i++ {
		m, ok := q.Peek()
		if !ok || string(m.Bytes()) != fmt.Sprint(i) {
			t.Fatalf("message %d is %v %q", i, ok, m.Frames)
		}
		q.Pop()
	}
	if q.Len() != 0 {
		t.Fatal(q.Len())
	}
}
''')
