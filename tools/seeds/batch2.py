import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkseed import mkseed
only = sys.argv[1:]
def seed(id, *a, **k):
    if not only or id in only:
        mkseed(id, *a, **k)

seed('c17-lost', 'C17', 'a second connection breaks while the reaper is removing the first one',
 'the reaper empties the list of closed connections after it has dealt with its copy: registrations that arrive meanwhile are forgotten and the dead connection stays in the socket',
 [('socket.go', '''		cc := append([]*Conn{}, sck.closedConns...) // clone
		sck.closedConns = sck.closedConns[:0]
''', '''		cc := append([]*Conn{}, sck.closedConns...) // clone
'''), ('socket.go', '''			c.Close()
		}
		sck.reaperCond.L.Lock()
	}
''', '''			c.Close()
		}
		sck.reaperCond.L.Lock()
		sck.closedConns = sck.closedConns[:0]
	}
''')], r'''
package zmq4

import (
	"context"
	"net"
	"testing"
	"time"
)

func zzConn(t *testing.T) *Conn {
	a, b := net.Pipe()
	t.Cleanup(func() { a.Close(); b.Close() })
	return &Conn{typ: Dealer, rw: a, sec: nullSecurity{}}
}

func TestZZDemo(t *testing.T) {
	sck := newSocket(context.Background(), Dealer)
	defer sck.Close()
	c1, c2 := zzConn(t), zzConn(t)
	sck.mu.Lock()
	sck.conns = append(sck.conns, c1, c2)
	sck.mu.Unlock()
	sck.startReaper()

	sck.mu.Lock() // the reaper waits here while it removes c1
	sck.scheduleRmConn(c1)
	time.Sleep(200 * time.Millisecond)
	sck.scheduleRmConn(c2)
	time.Sleep(100 * time.Millisecond)
	sck.mu.Unlock()

	for i := 0; i < 50; i++ {
		sck.mu.RLock()
		n := len(sck.conns)
		sck.mu.RUnlock()
		if n == 0 {
			return
		}
		time.Sleep(40 * time.Millisecond)
	}
	t.Fatal("a dead connection stays in the socket")
}
''')

seed('c18-retries', 'C18', 'a socket with unlimited dial retries but without automatic reconnection loses a connection',
 'a socket without automatic reconnection reconnects when its number of dial retries is unlimited',
 [('socket.go', '''		if sck.autoReconnect {
''', '''		if sck.autoReconnect || sck.maxRetries == -1 {
''')], r'''
package zmq4

import (
	"context"
	"net"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	accepted := make(chan *Conn, 10)
	go func() {
		for {
			raw, err := l.Accept()
			if err != nil {
				return
			}
			c, err := Open(raw, nullSecurity{}, Router, SocketIdentity("server"), true, nil)
			if err != nil {
				raw.Close()
				continue
			}
			accepted <- c
		}
	}()
	for _, re := range []bool{true, false} {
		s := NewDealer(context.Background(), WithAutomaticReconnect(re), WithDialerMaxRetries(-1))
		if err := s.Dial("tcp://" + l.Addr().String()); err != nil {
			t.Fatal(err)
		}
		c := <-accepted
		c.Close()
		select {
		case c := <-accepted:
			if !re {
				t.Errorf("reconnected without being asked to")
			}
			c.Close()
		case <-time.After(2 * time.Second):
			if re {
				t.Errorf("did not reconnect")
			}
		}
		s.Close()
	}
}
''')

seed('c12-size', 'C12', 'a security mechanism whose encrypted data is longer than the plain data',
 'the header announces the length of the data before encryption',
 [('conn.go', '''	// Long flag
	size := len(body)
	isLong := size > 255
''', '''	// Long flag
	isLong := size > 255
'''), ('conn.go', '''func (c *Conn) send(isCommand bool, body []byte, flag byte) error {
''', '''func (c *Conn) send(isCommand bool, body []byte, flag byte) error {
	size := len(body)
''')], r'''
package zmq4

import (
	"context"
	"io"
	"testing"
	"time"
)

type zzSec struct{ nullSecurity }

func (zzSec) Type() SecurityType { return "ZZ" }
func (zzSec) Encrypt(w io.Writer, data []byte) (int, error) {
	return w.Write(append([]byte("tag:"), data...))
}
func (zzSec) Decrypt(w io.Writer, data []byte) (int, error) {
	if len(data) < 4 {
		return 0, io.ErrUnexpectedEOF
	}
	return w.Write(data[4:])
}

func TestZZDemo(t *testing.T) {
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	a := NewPair(ctx, WithSecurity(zzSec{}))
	defer a.Close()
	b := NewPair(ctx, WithSecurity(zzSec{}), WithDialerMaxRetries(1))
	defer b.Close()
	if err := a.Listen("inproc://zz-c12-size"); err != nil {
		t.Fatal(err)
	}
	if err := b.Dial("inproc://zz-c12-size"); err != nil {
		t.Fatal(err)
	}
	if err := b.Send(NewMsgFromString([]string{"hello", "world"})); err != nil {
		t.Fatal(err)
	}
	msg, err := a.Recv()
	if err != nil || len(msg.Frames) != 2 || string(msg.Frames[0]) != "hello" || string(msg.Frames[1]) != "world" {
		t.Fatalf("received %v, %v", msg, err)
	}
}
''')

seed('c16-temporary', 'C16', 'a read fails with a network error that calls itself temporary but is no timeout',
 'network errors that are temporary, but no timeouts, no longer mark the connection closed',
 [('conn.go', '''	if errors.As(err, &e); e != nil && !e.Timeout() {
''', '''	if errors.As(err, &e); e != nil && !e.Timeout() && !e.Temporary() {
''')], r'''
package zmq4

import (
	"net"
	"testing"
)

type zzErr struct{}

func (zzErr) Error() string   { return "connection reset" }
func (zzErr) Timeout() bool   { return false }
func (zzErr) Temporary() bool { return true }

type zzRW struct{ net.Conn }

func (zzRW) Read(p []byte) (int, error) { return 0, zzErr{} }
func (zzRW) Close() error               { return nil }

func TestZZDemo(t *testing.T) {
	n := 0
	c := &Conn{typ: Dealer, rw: zzRW{}, sec: nullSecurity{}, onCloseErrorCB: func(*Conn) { n++ }}
	_, err := c.RecvMsg()
	if err == nil || !c.Closed() || n != 1 {
		t.Fatalf("err=%v closed=%v callbacks=%d", err, c.Closed(), n)
	}
}
''')

seed('c19-unsub', 'C19', 'a subscriber of several topics cancels one that is a prefix of another',
 'an unsubscription also removes the topics that start with the one cancelled',
 [('conn.go', '''	case 0:
		delete(conn.topics, k)
''', '''	case 0:
		for t := range conn.topics {
			if strings.HasPrefix(t, k) {
				delete(conn.topics, t)
			}
		}
''')], r'''
package zmq4

import (
	"context"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	ctx, cancel := context.WithTimeout(context.Background(), 8*time.Second)
	defer cancel()
	pub := NewPub(ctx)
	defer pub.Close()
	sub := NewSub(ctx)
	defer sub.Close()
	if err := pub.Listen("inproc://zz-c19-unsub"); err != nil {
		t.Fatal(err)
	}
	if err := sub.Dial("inproc://zz-c19-unsub"); err != nil {
		t.Fatal(err)
	}
	for _, x := range []string{"weather", "weather.paris"} {
		if err := sub.SetOption(OptionSubscribe, x); err != nil {
			t.Fatal(err)
		}
	}
	if err := sub.SetOption(OptionUnsubscribe, "weather"); err != nil {
		t.Fatal(err)
	}
	time.Sleep(300 * time.Millisecond)
	got := make(chan Msg, 1)
	go func() {
		if m, err := sub.Recv(); err == nil {
			got <- m
		}
	}()
	if err := pub.Send(NewMsgString("weather.paris: sun")); err != nil {
		t.Fatal(err)
	}
	select {
	case <-got:
	case <-time.After(2 * time.Second):
		t.Fatal("a message of a topic still subscribed to was not delivered")
	}
}
''')

seed('c20-full', 'C20', 'one subscriber stops reading until its queue is full while another one reads',
 'publishing stops at the first subscriber whose queue is full: those that come later miss the message',
 [('pub.go', '''		case channel <- msg: // proceeds to default case if the channel is full (msg will be discarded)
		default:
		}
''', '''		case channel <- msg: // proceeds to default case if the channel is full (msg will be discarded)
		default:
			return nil
		}
''')], r'''
package zmq4

import (
	"context"
	"net"
	"strings"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	pub := NewPub(ctx)
	defer pub.Close()
	if err := pub.SetOption(OptionHWM, 1); err != nil {
		t.Fatal(err)
	}
	if err := pub.Listen("tcp://127.0.0.1:0"); err != nil {
		t.Fatal(err)
	}
	addr := pub.Addr().String()
	// subscribers that never read
	for i := 0; i < 3; i++ {
		raw, err := net.Dial("tcp", addr)
		if err != nil {
			t.Fatal(err)
		}
		defer raw.Close()
		stuck, err := Open(raw, nullSecurity{}, Sub, SocketIdentity("stuck"), false, nil)
		if err != nil {
			t.Fatal(err)
		}
		if err := stuck.SendMsg(NewMsg([]byte{1})); err != nil {
			t.Fatal(err)
		}
	}
	time.Sleep(200 * time.Millisecond)
	big := strings.Repeat("x", 4<<20)
	for i := 0; i < 8; i++ {
		if err := pub.Send(NewMsgString(big)); err != nil {
			t.Fatal(err)
		}
		time.Sleep(50 * time.Millisecond)
	}

	sub := NewSub(ctx)
	defer sub.Close()
	if err := sub.SetOption(OptionSubscribe, "t"); err != nil {
		t.Fatal(err)
	}
	if err := sub.Dial("tcp://" + addr); err != nil {
		t.Fatal(err)
	}
	time.Sleep(300 * time.Millisecond)
	got := make(chan Msg, 100)
	go func() {
		for {
			m, err := sub.Recv()
			if err != nil {
				return
			}
			got <- m
		}
	}()
	for i := 0; i < 30; i++ {
		if err := pub.Send(NewMsgString("t")); err != nil {
			t.Fatal(err)
		}
		select {
		case <-got:
		case <-time.After(3 * time.Second):
			t.Fatalf("message %d was not delivered", i)
		}
	}
}
''')

seed('c21-bind', 'C21', 'a SUB socket that listens is subscribed before a publisher connects to it',
 'a SUB socket that listens does not tell the publishers that connect to it of its subscriptions',
 [('socket.go', '''	if sck.subTopics != nil {
		topics = sck.subTopics()
''', '''	if sck.subTopics != nil && sck.listener == nil {
		topics = sck.subTopics()
''')], r'''
package zmq4

import (
	"context"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	ctx, cancel := context.WithTimeout(context.Background(), 8*time.Second)
	defer cancel()
	sub := NewSub(ctx)
	defer sub.Close()
	if err := sub.SetOption(OptionSubscribe, "a"); err != nil {
		t.Fatal(err)
	}
	if err := sub.Listen("inproc://zz-c21-bind"); err != nil {
		t.Fatal(err)
	}
	pub := NewPub(ctx)
	defer pub.Close()
	if err := pub.Dial("inproc://zz-c21-bind"); err != nil {
		t.Fatal(err)
	}
	got := make(chan Msg, 100)
	go func() {
		for {
			m, err := sub.Recv()
			if err != nil {
				return
			}
			got <- m
		}
	}()
	for i := 0; i < 20; i++ {
		if err := pub.Send(NewMsgString("abc")); err != nil {
			t.Fatal(err)
		}
		select {
		case <-got:
			return
		case <-time.After(150 * time.Millisecond):
		}
	}
	t.Fatal("the publisher was not told of the subscription")
}
''')

seed('c22-prefix', 'C22', 'two peers of a ROUTER where the identity of one is the start of the identity of the other',
 'ROUTER sends to every connection whose identity starts with the first frame',
 [('router.go', '''		if !bytes.Equal(pid, id) {
''', '''		if !bytes.HasPrefix(pid, id) {
''')], r'''
package zmq4

import (
	"context"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	ctx, cancel := context.WithTimeout(context.Background(), 8*time.Second)
	defer cancel()
	r := NewRouter(ctx)
	defer r.Close()
	if err := r.Listen("inproc://zz-c22-prefix"); err != nil {
		t.Fatal(err)
	}
	got := make(chan string, 10)
	for _, id := range []string{"node-1", "node-10"} {
		id := id
		d := NewDealer(ctx, WithID(SocketIdentity(id)))
		defer d.Close()
		if err := d.Dial("inproc://zz-c22-prefix"); err != nil {
			t.Fatal(err)
		}
		if err := d.Send(NewMsgString("hello")); err != nil {
			t.Fatal(err)
		}
		if _, err := r.Recv(); err != nil {
			t.Fatal(err)
		}
		go func() {
			for {
				if _, err := d.Recv(); err != nil {
					return
				}
				got <- id
			}
		}()
	}
	if err := r.Send(NewMsgFromString([]string{"node-1", "secret"})); err != nil {
		t.Fatal(err)
	}
	for end := time.After(time.Second); ; {
		select {
		case id := <-got:
			if id != "node-1" {
				t.Fatalf("%s received a message for node-1", id)
			}
		case <-end:
			return
		}
	}
}
''')

seed('c23-lastempty', 'C23', 'a request with an empty frame among its own frames',
 'REP splits a request at its last empty frame instead of its first: the frames of the request before it become part of the envelope',
 [('rep.go', '''			msg = NewMsgFrom(envelope.Frames[i+1:]...)
		}
		break
	}
''', '''			msg = NewMsgFrom(envelope.Frames[i+1:]...)
		}
	}
''')], r'''
package zmq4

import (
	"context"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	ctx, cancel := context.WithTimeout(context.Background(), 8*time.Second)
	defer cancel()
	rep := NewRep(ctx)
	defer rep.Close()
	req := NewReq(ctx)
	defer req.Close()
	if err := rep.Listen("inproc://zz-c23-lastempty"); err != nil {
		t.Fatal(err)
	}
	if err := req.Dial("inproc://zz-c23-lastempty"); err != nil {
		t.Fatal(err)
	}
	if err := req.Send(NewMsgFromString([]string{"put", "", "value"})); err != nil {
		t.Fatal(err)
	}
	msg, err := rep.Recv()
	if err != nil || len(msg.Frames) != 3 || string(msg.Frames[0]) != "put" {
		t.Fatalf("received %v, %v", msg, err)
	}
}
''')

seed('c05-first', 'C05', 'closing one of several connections fails',
 'Close of a socket stops closing its connections at the first one whose Close fails',
 [('socket.go', '''		if e != nil && err == nil && !errors.Is(e, net.ErrClosed) {
			err = e
		}
''', '''		if e != nil && err == nil && !errors.Is(e, net.ErrClosed) {
			err = e
			break
		}
''')], r'''
package zmq4

import (
	"context"
	"errors"
	"net"
	"testing"
	"time"

	"github.com/luxfi/zmq/v4/transport"
)

type zzTrans struct{}

type zzRW struct{ net.Conn }

func (c zzRW) Close() error {
	c.Conn.Close()
	return errors.New("close failed")
}

func (zzTrans) Dial(ctx context.Context, dialer transport.Dialer, addr string) (net.Conn, error) {
	c, err := net.Dial("tcp", addr)
	if err != nil {
		return nil, err
	}
	return zzRW{c}, nil
}

func (zzTrans) Listen(ctx context.Context, addr string) (net.Listener, error) {
	return nil, errors.New("no")
}

func (zzTrans) Addr(ep string) (string, error) { return ep, nil }

func TestZZDemo(t *testing.T) {
	if err := RegisterTransport("zzfail", zzTrans{}); err != nil {
		t.Fatal(err)
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	peers := make(chan *Conn, 10)
	go func() {
		for {
			raw, err := l.Accept()
			if err != nil {
				return
			}
			c, err := Open(raw, nullSecurity{}, Router, SocketIdentity("server"), true, nil)
			if err != nil {
				raw.Close()
				continue
			}
			peers <- c
		}
	}()
	s := NewDealer(context.Background(), WithAutomaticReconnect(false))
	for i := 0; i < 3; i++ {
		if err := s.Dial("zzfail://" + l.Addr().String()); err != nil {
			t.Fatal(err)
		}
	}
	s.Close()
	for i := 0; i < 3; i++ {
		c := <-peers
		c.rw.SetReadDeadline(time.Now().Add(3 * time.Second))
		var b [1]byte
		_, err := c.rw.Read(b[:])
		var ne net.Error
		if errors.As(err, &ne) && ne.Timeout() {
			t.Errorf("connection %d is still open after Close", i)
		}
		c.Close()
	}
}
''')

seed('c07-lost', 'C07', 'the peer goes away while Recv waits',
 'Recv returns no error, and no message, when what was queued is the report that a connection broke',
 [('msgio.go', '''	case *msg = <-q.c:
	}
	return msg.err
}
''', '''	case *msg = <-q.c:
	}
	return ctx.Err()
}
''')], r'''
package zmq4

import (
	"context"
	"net"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	s := NewPull(ctx)
	defer s.Close()
	if err := s.Listen("tcp://127.0.0.1:0"); err != nil {
		t.Fatal(err)
	}
	raw, err := net.Dial("tcp", s.Addr().String())
	if err != nil {
		t.Fatal(err)
	}
	c, err := Open(raw, nullSecurity{}, Push, SocketIdentity("peer"), false, nil)
	if err != nil {
		t.Fatal(err)
	}
	// half a frame
	if _, err := raw.Write([]byte{0, 10, 'a', 'b'}); err != nil {
		t.Fatal(err)
	}
	c.Close()
	msg, err := s.Recv()
	if err == nil {
		t.Fatalf("Recv returned %v and no error", msg)
	}
}
''')

seed('c10-empty', 'C10', 'a subscriber sends a message with one empty frame to a PUB socket',
 'an empty message from a subscriber crashes the publisher',
 [('pub.go', '''	if len(frame) == 0 {
		return false
	}
''', '')], r'''
package zmq4

import (
	"context"
	"net"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	pub := NewPub(context.Background())
	defer pub.Close()
	if err := pub.Listen("tcp://127.0.0.1:0"); err != nil {
		t.Fatal(err)
	}
	raw, err := net.Dial("tcp", pub.Addr().String())
	if err != nil {
		t.Fatal(err)
	}
	defer raw.Close()
	c, err := Open(raw, nullSecurity{}, Sub, SocketIdentity("peer"), false, nil)
	if err != nil {
		t.Fatal(err)
	}
	if err := c.SendMsg(NewMsg(nil)); err != nil {
		t.Fatal(err)
	}
	time.Sleep(300 * time.Millisecond)
}
''')

seed('c31-report', 'C31', 'both directions of a proxy fail',
 'the second direction of a proxy that stops can never report its error: its goroutine stays',
 [('proxy.go', '	errChan := make(chan error, 2)\n', '	errChan := make(chan error)\n')], r'''
package zmq4

import (
	"errors"
	"runtime"
	"strings"
	"testing"
	"time"
)

type zzSock struct {
	Socket
}

func (zzSock) Recv() (Msg, error) {
	return Msg{}, errors.New("broken")
}
func (zzSock) Send(Msg) error { return nil }

func TestZZDemo(t *testing.T) {
	if err := Proxy(zzSock{}, zzSock{}); err == nil {
		t.Fatal("no error")
	}
	for i := 0; ; i++ {
		buf := make([]byte, 1<<20)
		if n := strings.Count(string(buf[:runtime.Stack(buf, true)]), "v4.Proxy"); n == 0 {
			return
		} else if i > 40 {
			t.Fatalf("%d mentions of Proxy among the goroutines that remain", n)
		}
		time.Sleep(50 * time.Millisecond)
	}
}
''')

seed('c34-late', 'C34', 'the context of a group ends while one of its functions still runs',
 'a function of a group that outlives the context can never hand in its result: its goroutine stays',
 [('internal/errgroup/errgroup.go', '		ch := make(chan error, 1)\n', '		ch := make(chan error)\n')], r'''
package errgroup

import (
	"context"
	"runtime"
	"strings"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	grp, _ := WithContext(ctx)
	stop := make(chan struct{})
	grp.Go(func() error {
		<-stop
		return nil
	})
	time.Sleep(50 * time.Millisecond)
	cancel()
	if err := grp.Wait(); err == nil {
		t.Fatal("no error")
	}
	close(stop)
	for i := 0; ; i++ {
		buf := make([]byte, 1<<20)
		if n := strings.Count(string(buf[:runtime.Stack(buf, true)]), "(*Group).wrap"); n == 0 {
			return
		} else if i > 40 {
			t.Fatalf("a goroutine of the group remains")
		}
		time.Sleep(50 * time.Millisecond)
	}
}
''', pkg='internal/errgroup')

seed('c26-twice', 'C26', 'a listener is closed a second time after the address was taken by another one',
 'closing a listener twice frees the address although another listener uses it by then',
 [('internal/inproc/inproc.go', '''	if l.closed {
		return nil
	}
	var err error
''', '''	var err error
''')], r'''
package inproc

import "testing"

func TestZZDemo(t *testing.T) {
	a, err := Listen("zz-twice")
	if err != nil {
		t.Fatal(err)
	}
	a.Close()
	b, err := Listen("zz-twice")
	if err != nil {
		t.Fatal(err)
	}
	defer b.Close()
	a.Close()
	c, err := Dial("zz-twice")
	if err != nil {
		t.Fatalf("nobody listens any more: %v", err)
	}
	c.Close()
}
''', pkg='internal/inproc')

seed('c06-multi', 'C06', 'SendMulti on a PUB socket that was closed',
 'SendMulti does not look whether the socket was closed: a PUB socket reports success',
 [('socket.go', '''func (sck *socket) SendMulti(msg Msg) error {
	sck.mu.RLock()
	if sck.isClosed {
		sck.mu.RUnlock()
		return fmt.Errorf("zmq4: socket is closed")
	}
	sck.mu.RUnlock()

''', '''func (sck *socket) SendMulti(msg Msg) error {
''')], r'''
package zmq4

import (
	"context"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for _, s := range []Socket{NewPub(context.Background()), NewXPub(context.Background()), NewDealer(context.Background())} {
		s.Close()
		if err := s.SendMulti(NewMsgFromString([]string{"a", "b"})); err == nil {
			t.Errorf("%s: SendMulti on a closed socket succeeded", s.Type())
		}
	}
}
''')

seed('c14-untyped', 'C14', 'a peer that announces no socket type',
 'a peer that does not announce a socket type is taken for compatible',
 [('conn.go', '''	if !peer.IsCompatible(conn.typ) {
''', '''	if peer != "" && !peer.IsCompatible(conn.typ) {
''')], r'''
package zmq4

import (
	"net"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	a, b := net.Pipe()
	defer a.Close()
	defer b.Close()
	dl := time.Now().Add(5 * time.Second)
	a.SetDeadline(dl)
	b.SetDeadline(dl)
	go func() {
		g := make([]byte, 64)
		g[0], g[9], g[10] = 0xff, 0x7f, 3
		copy(g[12:], "NULL")
		go func() {
			b.Write(g)
			b.Write(append([]byte{4, 6, 5}, "READY"...))
		}()
		buf := make([]byte, 4096)
		for {
			if _, err := b.Read(buf); err != nil {
				return
			}
		}
	}()
	_, err := Open(a, nullSecurity{}, Rep, SocketIdentity("me"), true, nil)
	if err == nil {
		t.Fatal("a peer without a socket type was accepted")
	}
}
''')

seed('c15-anycmd', 'C15', 'a peer that sends another command than READY in the NULL handshake',
 'the NULL handshake takes any command but ERROR for READY',
 [('security/null/null.go', '''	if cmd.Name != zmq4.CmdReady {
''', '''	if cmd.Name == zmq4.CmdError {
''')], r'''
package null

import (
	"net"
	"testing"
	"time"

	"github.com/luxfi/zmq/v4"
)

func TestZZDemo(t *testing.T) {
	a, b := net.Pipe()
	defer a.Close()
	defer b.Close()
	dl := time.Now().Add(5 * time.Second)
	a.SetDeadline(dl)
	b.SetDeadline(dl)
	go func() {
		g := make([]byte, 64)
		g[0], g[9], g[10] = 0xff, 0x7f, 3
		copy(g[12:], "NULL")
		body := append([]byte{4}, "PING"...)
		body = append(body, 11)
		body = append(body, "Socket-Type"...)
		body = append(body, 0, 0, 0, 3)
		body = append(body, "REQ"...)
		go func() {
			b.Write(g)
			b.Write(append([]byte{4, byte(len(body))}, body...))
		}()
		buf := make([]byte, 4096)
		for {
			if _, err := b.Read(buf); err != nil {
				return
			}
		}
	}()
	_, err := zmq4.Open(a, Security(), zmq4.Rep, zmq4.SocketIdentity("me"), true, nil)
	if err == nil {
		t.Fatal("a handshake without READY succeeded")
	}
}
''', pkg='security/null')
