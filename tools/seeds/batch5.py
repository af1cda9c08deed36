import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkseed import mkseed
only = sys.argv[1:]
def seed(id, *a, **k):
    if not only or id in only:
        mkseed(id, *a, **k)

seed('c23-reset', 'C23', 'a REQ socket with two connections: a request is out on one of them while the other is lost',
 'losing any connection forgets which one the request went to: the reply is never received',
 [('req.go', '''	if r.lastConn == c {
''', '''	if r.lastConn != nil {
''')], r'''
package zmq4

import (
	"context"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	req := NewReq(ctx)
	defer req.Close()
	var reps []Socket
	for _, ep := range []string{"inproc://zz-c23-reset-1", "inproc://zz-c23-reset-2"} {
		rep := NewRep(ctx)
		defer rep.Close()
		if err := rep.Listen(ep); err != nil {
			t.Fatal(err)
		}
		if err := req.Dial(ep); err != nil {
			t.Fatal(err)
		}
		reps = append(reps, rep)
	}
	if err := req.Send(NewMsgString("question")); err != nil {
		t.Fatal(err)
	}
	type got struct {
		i   int
		err error
	}
	c := make(chan got, 2)
	for i := range reps {
		go func() {
			_, err := reps[i].Recv()
			c <- got{i, err}
		}()
	}
	g := <-c
	if g.err != nil {
		t.Fatal(g.err)
	}
	reps[1-g.i].Close()
	sck := req.(*reqSocket).sck
	for i := 0; ; i++ {
		sck.mu.RLock()
		n := len(sck.conns)
		sck.mu.RUnlock()
		if n == 1 {
			break
		}
		if i > 100 {
			// the loss shows when something is sent or read
			for _, conn := range append([]*Conn(nil), sck.conns...) {
				if conn != req.(*reqSocket).sck.r.(*reqReader).state.Get() {
					sck.scheduleRmConn(conn)
				}
			}
			i = 0
		}
		if ctx.Err() != nil {
			t.Fatal("the lost connection is still there")
		}
		time.Sleep(10 * time.Millisecond)
	}
	time.Sleep(100 * time.Millisecond)
	if err := reps[g.i].Send(NewMsgString("answer")); err != nil {
		t.Fatal(err)
	}
	msg, err := req.Recv()
	if err != nil || string(msg.Bytes()) != "answer" {
		t.Fatalf("got %v, %v", msg, err)
	}
}
''')

seed('c23-strip', 'C23', 'a reply of several frames of which the first one is empty',
 'REQ removes all empty frames in front of a reply, not just the delimiter',
 [('req.go', '''	if len(msg.Frames) > 1 {
		msg.Frames''', '''	for first := true; len(msg.Frames) > 1 && (first || len(msg.Frames[0]) == 0); first = false {
		msg.Frames''')], r'''
package zmq4

import (
	"context"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	rep := NewRep(ctx)
	defer rep.Close()
	req := NewReq(ctx)
	defer req.Close()
	if err := rep.Listen("inproc://zz-c23-strip"); err != nil {
		t.Fatal(err)
	}
	if err := req.Dial("inproc://zz-c23-strip"); err != nil {
		t.Fatal(err)
	}
	if err := req.Send(NewMsgString("question")); err != nil {
		t.Fatal(err)
	}
	if _, err := rep.Recv(); err != nil {
		t.Fatal(err)
	}
	if err := rep.Send(NewMsgFromString([]string{"", "a", "b"})); err != nil {
		t.Fatal(err)
	}
	msg, err := req.Recv()
	if err != nil || len(msg.Frames) != 3 || len(msg.Frames[0]) != 0 || string(msg.Frames[1]) != "a" {
		t.Fatalf("got %v, %v", msg, err)
	}
}
''')

seed('c36-patience', 'C36', 'a ROUTER whose user does not receive for a while, with more messages under way than its queue holds',
 'a message that finds the queue full for too long is dropped, although its peer was told that it was sent',
 [('router.go', '''	"fmt"
	"net"
	"sync"
''', '''	"fmt"
	"net"
	"sync"
	"time"
'''), ('router.go', '''		case q.c <- msg:
		}
	}
''', '''		case q.c <- msg: // queued
		case <-time.After(300 * time.Millisecond): // nobody is interested
		}
	}
''')], r'''
package zmq4

import (
	"context"
	"fmt"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	router := NewRouter(ctx)
	defer router.Close()
	dealer := NewDealer(ctx, WithTimeout(20*time.Second))
	defer dealer.Close()
	if err := router.Listen("inproc://zz-c36-patience"); err != nil {
		t.Fatal(err)
	}
	if err := dealer.Dial("inproc://zz-c36-patience"); err != nil {
		t.Fatal(err)
	}
	const n = 30
	errs := make(chan error, 1)
	go func() {
		for i := 0; i < n; i++ {
			if err := dealer.Send(NewMsgString(fmt.Sprint(i))); err != nil {
				errs <- err
				return
			}
		}
		errs <- nil
	}()
	time.Sleep(1500 * time.Millisecond)
	got := make(chan string)
	go func() {
		for {
			msg, err := router.Recv()
			if err != nil {
				return
			}
			select {
			case got <- string(msg.Frames[1]):
			case <-ctx.Done():
				return
			}
		}
	}()
	for i := 0; i < n; i++ {
		select {
		case s := <-got:
			if s != fmt.Sprint(i) {
				t.Fatalf("message %q instead of %d", s, i)
			}
		case <-time.After(3 * time.Second):
			t.Fatalf("message %d does not arrive", i)
		}
	}
	if err := <-errs; err != nil {
		t.Fatal(err)
	}
}
''')

seed('c39-raise', 'C39', 'the high-water mark is set twice before the subscriber connects, the second time to less',
 'the mark can only be raised: a later, lower one has no effect',
 [('pub.go', '''	w.hwm.Store(int64(hwm))
''', '''	if v := int64(hwm); w.hwm.Load() == DefaultSendHwm || v > w.hwm.Load() {
		w.hwm.Store(v)
	}
''')], r'''
package zmq4

import (
	"context"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	pub := NewPub(ctx)
	defer pub.Close()
	for _, n := range []int{100, 2} {
		if err := pub.SetOption(OptionHWM, n); err != nil {
			t.Fatal(err)
		}
	}
	if err := pub.Listen("inproc://zz-c39-raise"); err != nil {
		t.Fatal(err)
	}
	sub := NewSub(ctx)
	defer sub.Close()
	if err := sub.Dial("inproc://zz-c39-raise"); err != nil {
		t.Fatal(err)
	}
	if err := sub.SetOption(OptionSubscribe, ""); err != nil {
		t.Fatal(err)
	}
	time.Sleep(300 * time.Millisecond)
	for i := 0; i < 200; i++ {
		if err := pub.Send(NewMsgString("m")); err != nil {
			t.Fatal(err)
		}
		time.Sleep(time.Millisecond)
	}
	got := make(chan bool)
	go func() {
		for {
			if _, err := sub.Recv(); err != nil {
				return
			}
			select {
			case got <- true:
			case <-ctx.Done():
				return
			}
		}
	}()
	n := 0
	for {
		select {
		case <-got:
			n++
			continue
		case <-time.After(time.Second):
		}
		break
	}
	// 2 in the publisher's queue, 10 in the subscriber's, a few under way
	if n < 2 || n > 40 {
		t.Fatalf("%d messages were kept", n)
	}
}
''')

seed('c13-pong', 'C13', 'a PING command is read while another goroutine is between the header and the body of a frame it sends',
 'the PONG that answers a PING is written without the lock that keeps messages together',
 [('conn.go', '''		msg.err = c.SendCmd(CmdPong, nil)
		if msg.err != nil {
''', '''		var pong []byte
		pong, msg.err = (&Cmd{Name: CmdPong}).marshalZMTP()
		if msg.err == nil {
			msg.err = c.send(true, pong, 0)
			c.checkIO(msg.err)
		}
		if msg.err != nil {
''')], r'''
package zmq4

import (
	"bytes"
	"io"
	"net"
	"sync"
	"testing"
	"time"
)

type zzConn struct {
	net.Conn
	mu      sync.Mutex
	in      *bytes.Reader
	out     bytes.Buffer
	n       int
	started chan bool
}

func (c *zzConn) Read(p []byte) (int, error) { return c.in.Read(p) }
func (c *zzConn) Close() error               { return nil }
func (c *zzConn) Write(p []byte) (int, error) {
	c.mu.Lock()
	c.n++
	first := c.n == 1
	c.out.Write(p)
	c.mu.Unlock()
	if first {
		close(c.started)
		time.Sleep(500 * time.Millisecond)
	}
	return len(p), nil
}

func TestZZDemo(t *testing.T) {
	rw := &zzConn{in: bytes.NewReader([]byte("\x04\x05\x04PING")), started: make(chan bool)}
	c := &Conn{typ: Pair, rw: rw, sec: nullSecurity{}}
	done := make(chan error, 1)
	go func() { done <- c.SendMsg(NewMsgString("hello")) }()
	<-rw.started
	if _, err := c.RecvMsg(); err != nil && err != io.EOF {
		t.Fatal(err)
	}
	if err := <-done; err != nil {
		t.Fatal(err)
	}
	if got, want := rw.out.String(), "\x00\x05hello\x04\x05\x04PONG"; got != want {
		t.Fatalf("wrote %q, want %q", got, want)
	}
}
''')

seed('c08-frames', 'C08', 'a message of several frames of which one that is not the last cannot be written, while the last one can',
 'an error of a frame that is not the last one is not reported',
 [('conn.go', '''		err := c.send(false, frame, flag)
		if err != nil {
			return fmt.Errorf("zmq4: error sending frame %d/%d: %w", i+1, nframes, err)
		}
	}
	return nil
}
''', '''		err := c.send(false, frame, flag)
		if err != nil {
			err = fmt.Errorf("zmq4: error sending frame %d/%d: %w", i+1, nframes, err)
		}
		if i == nframes-1 {
			return err
		}
	}
	return nil
}
''')], r'''
package zmq4

import (
	"errors"
	"net"
	"testing"
)

type zzConn struct {
	net.Conn
	n int
}

func (c *zzConn) Close() error { return nil }
func (c *zzConn) Write(p []byte) (int, error) {
	if c.n++; c.n == 1 {
		return 0, errors.New("no buffers")
	}
	return len(p), nil
}

func TestZZDemo(t *testing.T) {
	c := &Conn{typ: Pair, rw: &zzConn{}, sec: nullSecurity{}}
	if err := c.SendMsg(NewMsgFromString([]string{"one", "two"})); err == nil {
		t.Fatal("a message is sent without its first frame")
	}
}
''')

seed('c30-trim', 'C30', 'an identity that ends in a zero byte',
 'zero bytes at the end of a metadata value are lost when it is decoded',
 [('protocol.go', '''	prop.V = string(data[n : n+vlen])
''', '''	prop.V = strings.TrimRight(string(data[n:n+vlen]), "\\x00")
'''.replace('\\\\','\\'))], r'''
package zmq4

import "testing"

func TestZZDemo(t *testing.T) {
	for _, id := range []string{"plain", "", "a\x00b", "ends in zero\x00"} {
		raw, err := Metadata{sysSockType: "PAIR", sysSockID: id}.MarshalZMTP()
		if err != nil {
			t.Fatal(err)
		}
		got := Metadata{}
		if err := got.UnmarshalZMTP(raw); err != nil {
			t.Fatal(err)
		}
		if got[sysSockID] != id || got[sysSockType] != "PAIR" {
			t.Fatalf("%q became %q", id, got[sysSockID])
		}
	}
}
''')

seed('c33-case', 'C33', 'an endpoint whose scheme is written in capitals, or a transport registered under such a name',
 'schemes are looked up in lower case: names that are not registered are accepted, and some that are, are not found',
 [('transport.go', '''	v, ok := ts.db[name]
''', '''	v, ok := ts.db[strings.ToLower(name)]
'''), ('transport.go', '''	"sort"
''', '''	"sort"
	"strings"
''')], r'''
package zmq4

import (
	"context"
	"errors"
	"testing"

	"github.com/luxfi/zmq/v4/internal/inproc"
)

func TestZZDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	pull := NewPull(ctx)
	defer pull.Close()
	var ute UnknownTransportError
	if err := pull.Listen("INPROC://zz-c33-case"); !errors.As(err, &ute) {
		t.Fatalf("Listen returned %v", err)
	}
	if err := RegisterTransport("zzInproc", inproc.Transport{}); err != nil {
		t.Fatal(err)
	}
	if err := pull.Listen("zzInproc://zz-c33-case"); err != nil {
		t.Fatal(err)
	}
}
''')

seed('c25-refresh', 'C25', 'a deadline of an inproc connection that has passed is set again, and passes once more',
 'the timer of a renewed deadline closes the channel of the old one, which is closed already',
 [('internal/inproc/conn.go', '''		if closed {
			d.cancel = make(chan struct{})
		}
		d.timer = time.AfterFunc(dur, func() {
			close(d.cancel)
		})
''', '''		cancel := d.cancel
		if closed {
			d.cancel = make(chan struct{})
		}
		d.timer = time.AfterFunc(dur, func() {
			if !isClosedChan(cancel) {
				close(cancel)
			}
		})
''')], r'''
package inproc

import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	l, err := Listen("zz-c25-refresh")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	c, err := Dial("zz-c25-refresh")
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	for i := 0; i < 2; i++ {
		if err := c.SetReadDeadline(time.Now().Add(50 * time.Millisecond)); err != nil {
			t.Fatal(err)
		}
		done := make(chan error, 1)
		go func() {
			_, err := c.Read(make([]byte, 1))
			done <- err
		}()
		select {
		case err := <-done:
			if err == nil {
				t.Fatal("nothing was written")
			}
		case <-time.After(5 * time.Second):
			t.Fatalf("Read goes on after deadline %d", i+1)
		}
	}
}
''', pkg='internal/inproc')

seed('c09-multi', 'C09', 'SendMulti on a socket without a connection, or with a peer that does not read',
 'SendMulti does not end with the timeout of the socket',
 [('socket.go', '''	msg.multipart = true
	ctx, cancel := context.WithTimeout(sck.ctx, sck.Timeout())
''', '''	msg.multipart = true
	ctx, cancel := context.WithCancel(sck.ctx)
''')], r'''
package zmq4

import (
	"context"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	push := NewPush(ctx, WithTimeout(200*time.Millisecond))
	defer push.Close()
	done := make(chan error, 1)
	go func() { done <- push.SendMulti(NewMsgFromString([]string{"a", "b"})) }()
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("sent to nobody")
		}
	case <-time.After(5 * time.Second):
		t.Fatal("SendMulti waits")
	}
}
''')

seed('c21-prefix', 'C21', 'two subscriptions of which one is a prefix of the other, the shorter one is cancelled, and then a publisher connects',
 'cancelling a subscription also forgets all longer ones: publishers that connect later are not told of them',
 [('sub.go', '''		delete(sub.topics, topic)
''', '''		for t := range sub.topics {
			if topic != "" && len(t) >= len(topic) && t[:len(topic)] == topic || t == topic {
				delete(sub.topics, t)
			}
		}
''')], r'''
package zmq4

import (
	"context"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	sub := NewSub(ctx)
	defer sub.Close()
	for _, o := range [][2]string{{OptionSubscribe, "a"}, {OptionSubscribe, "ab"}, {OptionUnsubscribe, "a"}} {
		_ = sub.SetOption(o[0], o[1])
	}
	pub := NewPub(ctx)
	defer pub.Close()
	if err := pub.Listen("inproc://zz-c21-prefix"); err != nil {
		t.Fatal(err)
	}
	if err := sub.Dial("inproc://zz-c21-prefix"); err != nil {
		t.Fatal(err)
	}
	go func() {
		for ctx.Err() == nil {
			_ = pub.Send(NewMsgString("abc"))
			time.Sleep(20 * time.Millisecond)
		}
	}()
	got := make(chan error, 1)
	go func() {
		_, err := sub.Recv()
		got <- err
	}()
	select {
	case err := <-got:
		if err != nil {
			t.Fatal(err)
		}
	case <-time.After(3 * time.Second):
		t.Fatal("nothing arrives for the longer subscription")
	}
}
''')
