import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkseed import mkseed
only = sys.argv[1:]
def seed(id, *a, **k):
    if not only or id in only:
        mkseed(id, *a, **k)

seed('c24-reply', 'C24', 'a REP user that still looks at a request of two or more frames after it replied',
 'the reply is appended to the envelope in place: the envelope is the beginning of the very list the request handed to the user lives in, so the frames of the request turn into those of the reply',
 [('rep.go', '''	var frames = make([][]byte, 0, len(r.preamble)+len(r.msg.Frames))
	frames = append(frames, r.preamble...)
	frames = append(frames, r.msg.Frames...)
	return NewMsgFrom(frames...)
''', '''	// the envelope goes first, the reply follows
	return NewMsgFrom(append(r.preamble, r.msg.Frames...)...)
''')], r'''
package zmq4

import (
	"context"
	"testing"
)

func TestZZDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	rep := NewRep(ctx)
	defer rep.Close()
	req := NewReq(ctx)
	defer req.Close()
	if err := rep.Listen("inproc://zz-c24-reply"); err != nil {
		t.Fatal(err)
	}
	if err := req.Dial("inproc://zz-c24-reply"); err != nil {
		t.Fatal(err)
	}
	if err := req.Send(NewMsgFrom([]byte("one"), []byte("two"))); err != nil {
		t.Fatal(err)
	}
	got, err := rep.Recv()
	if err != nil {
		t.Fatal(err)
	}
	if err := rep.Send(NewMsgFrom([]byte("REPLY"))); err != nil {
		t.Fatal(err)
	}
	if _, err := req.Recv(); err != nil {
		t.Fatal(err)
	}
	if len(got.Frames) != 2 || string(got.Frames[0]) != "one" || string(got.Frames[1]) != "two" {
		t.Fatalf("the received request changed: %v", got)
	}
}
''')

seed('c24-shift', 'C24', 'a REQ user whose list of frames has room behind the message (it sends a part of a longer list)',
 'the empty delimiter is put in front by growing the list in place: what follows the message in the list of the caller is overwritten, and the message itself is shifted',
 [('req.go', '''	msg.Frames = append([][]byte{nil}, msg.Frames...)
''', '''	msg.Frames = append(msg.Frames, nil)
	copy(msg.Frames[1:], msg.Frames)
	msg.Frames[0] = nil
''')], r'''
package zmq4

import (
	"context"
	"testing"
)

func TestZZDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	rep := NewRep(ctx)
	defer rep.Close()
	req := NewReq(ctx)
	defer req.Close()
	if err := rep.Listen("inproc://zz-c24-shift"); err != nil {
		t.Fatal(err)
	}
	if err := req.Dial("inproc://zz-c24-shift"); err != nil {
		t.Fatal(err)
	}
	all := [][]byte{[]byte("first"), []byte("second"), []byte("third")}
	if err := req.Send(NewMsgFrom(all[:1]...)); err != nil {
		t.Fatal(err)
	}
	got, err := rep.Recv()
	if err != nil {
		t.Fatal(err)
	}
	if len(got.Frames) != 1 || string(got.Frames[0]) != "first" {
		t.Fatalf("got %v", got)
	}
	for i, want := range []string{"first", "second", "third"} {
		if string(all[i]) != want {
			t.Fatalf("frame %d of the caller's list is now %q", i, all[i])
		}
	}
}
''')

seed('c24-buffer', 'C24', 'a message of several frames received under PLAIN security',
 'one decryption buffer serves all frames of a message: each further frame is written over those received before it',
 [('conn.go', '''		hasMore = true
		isCmd   = false
	)
''', '''		hasMore = true
		isCmd   = false
		buf     = new(bytes.Buffer)
	)
'''), ('conn.go', '''		buf := new(bytes.Buffer)
		if _, msg.err = c.sec.Decrypt''', '''		buf.Reset()
		if _, msg.err = c.sec.Decrypt''')], r'''
package zmq4_test

import (
	"context"
	"testing"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/security/plain"
)

func TestZZDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	pull := zmq4.NewPull(ctx, zmq4.WithSecurity(plain.Security("u", "p")))
	defer pull.Close()
	push := zmq4.NewPush(ctx, zmq4.WithSecurity(plain.Security("u", "p")))
	defer push.Close()
	if err := pull.Listen("inproc://zz-c24-buffer"); err != nil {
		t.Fatal(err)
	}
	if err := push.Dial("inproc://zz-c24-buffer"); err != nil {
		t.Fatal(err)
	}
	if err := push.Send(zmq4.NewMsgFrom([]byte("aaaa"), []byte("bb"), []byte("c"))); err != nil {
		t.Fatal(err)
	}
	got, err := pull.Recv()
	if err != nil {
		t.Fatal(err)
	}
	if len(got.Frames) != 3 || string(got.Frames[0]) != "aaaa" || string(got.Frames[1]) != "bb" || string(got.Frames[2]) != "c" {
		t.Fatalf("got %v", got)
	}
}
''')
