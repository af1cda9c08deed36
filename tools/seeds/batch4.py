import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkseed import mkseed
only = sys.argv[1:]
def seed(id, *a, **k):
    if not only or id in only:
        mkseed(id, *a, **k)

N = 'networking/transport.go'
COMMON = r'''
package networking

import (
	"context"
	"net"
	"testing"
	"time"
)

// zzPort is a base port: it and the one 1000 above are free.
func zzPort(t *testing.T) int {
	for i := 0; i < 200; i++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			t.Fatal(err)
		}
		p := l.Addr().(*net.TCPAddr).Port
		l.Close()
		if p > 60000 {
			continue
		}
		m, err := net.Listen("tcp", "127.0.0.1:"+itoa(p+1000))
		if err != nil {
			continue
		}
		m.Close()
		return p
	}
	t.Fatal("no ports")
	return 0
}

func itoa(n int) string {
	s := ""
	for ; n > 0; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return s
}
'''
seed('c32-pool', 'C32', 'two messages one after the other, the second without a field that the first has, and the first one handled before the second arrives',
 'messages are decoded into recycled Message values, which are not cleared: what the JSON text of a message omits is left over from an earlier message',
 [(N, '''	var message Message
	if err := json.Unmarshal(data, &message); err != nil {
''', '''	message, _ := messagePool.Get().(*Message)
	if err := json.Unmarshal(data, message); err != nil {
		messagePool.Put(message)
'''), (N, '''		go handler(&message)
''', '''		go func() {
			handler(message)
			messagePool.Put(message)
		}()
'''), (N, '''// processMessage handles''', '''// messagePool recycles messages that were handled.
var messagePool = sync.Pool{New: func() any { return new(Message) }}

// processMessage handles''')], COMMON + r'''
func TestZZDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	p := zzPort(t)
	a := New(ctx, DefaultConfig("a", p))
	if err := a.Start(); err != nil {
		t.Fatal(err)
	}
	defer a.Stop()
	b := New(ctx, DefaultConfig("b", zzPort(t)))
	defer b.Stop()
	got := make(chan Message, 64)
	a.RegisterHandler("x", func(m *Message) { got <- *m })
	if err := b.ConnectPeer("a", p); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 40; i++ {
		m := &Message{Type: "x"}
		if i%2 == 0 {
			m.Height = 7
		}
		if err := b.Send("a", m); err != nil {
			t.Fatal(err)
		}
		select {
		case r := <-got:
			if r.Height != m.Height {
				t.Fatalf("message %d arrives with height %d, it was sent with %d", i, r.Height, m.Height)
			}
		case <-time.After(10 * time.Second):
			t.Fatal("nothing arrives")
		}
		time.Sleep(5 * time.Millisecond)
	}
}
''', pkg='networking')

seed('c32-own', 'C32', 'a node that is connected to itself, and sends itself a direct message',
 'every message that comes from the node itself is ignored, also those that it sent to itself directly',
 [(N, '''	// Skip our own broadcasts
	if message.From == t.nodeID && message.To == "" {
		return
	}

	t.msgReceived.Add(1)
''', '''	// Skip what we have sent ourselves
	if message.From == t.nodeID {
		return
	}

	t.msgReceived.Add(1)
''')], COMMON + r'''
func TestZZDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	p := zzPort(t)
	a := New(ctx, DefaultConfig("a", p))
	if err := a.Start(); err != nil {
		t.Fatal(err)
	}
	defer a.Stop()
	got := make(chan *Message, 4)
	a.RegisterHandler("x", func(m *Message) { got <- m })
	if err := a.ConnectPeer("a", p); err != nil {
		t.Fatal(err)
	}
	if err := a.Send("a", &Message{Type: "x"}); err != nil {
		t.Fatal(err)
	}
	select {
	case <-got:
	case <-time.After(5 * time.Second):
		t.Fatal("the message to itself is not handled")
	}
}
''', pkg='networking')

seed('c32-lookup', 'C32', 'UnregisterHandler between the arrival of a message and the start of the goroutine that handles it',
 'whether there is a handler is looked up first, the handler itself only in its goroutine: if it was unregistered meanwhile, nil is called',
 [(N, '''	handler, ok := t.handlers[message.Type]
	t.mu.RUnlock()

	if ok && handler != nil {
		// Call handler in goroutine to avoid blocking
		go handler(&message)
	}
''', '''	ok := t.handlers[message.Type] != nil
	t.mu.RUnlock()

	if ok {
		// Call handler in goroutine to avoid blocking
		go func() {
			t.mu.RLock()
			handler := t.handlers[message.Type]
			t.mu.RUnlock()
			handler(&message)
		}()
	}
''')], r'''
package networking

import (
	"context"
	"runtime"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	a := New(ctx, DefaultConfig("a", 40000))
	defer a.Stop()
	for i := 0; i < 50; i++ {
		got := make(chan bool, 1)
		a.RegisterHandler("x", func(m *Message) { got <- true })
		a.processMessage([]byte(`{"type":"x","from":"b"}`))
		a.UnregisterHandler("x")
		select {
		case <-got:
		case <-time.After(10 * time.Second):
			t.Fatal("not handled")
		}
	}
}
''', pkg='networking')
