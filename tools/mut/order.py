def b(n,*e): return ('C36','bug',n,list(e))
def s(n,*e): return ('C36','same',n,list(e))
MS,RT,PB,SK='msgio.go','router.go','pub.go','socket.go'
L='''	for {
		msg := r.readMsg()
		select {
		case <-ctx.Done():
			return
		case q.c <- msg:
			if msg.err != nil {
				return
			}
		}
	}
'''
RL='''		select {
		case <-ctx.Done():
			return
		case q.c <- msg:
		}
	}
}

type routerMWriter struct {'''
PL='''		select {
		case <-ctx.Done():
			return
		case q.c <- msg:
		}
	}
}

func (q *pubQReader) topic'''
SEND='''	ctx, cancel := context.WithTimeout(sck.ctx, sck.Timeout())
	defer cancel()
	return sck.w.write(ctx, msg)
}

// SendMulti'''
GRP='''	grp, _ := errgrp.WithContext(ctx)
	for i := range ws {
		ww := ws[i]
		grp.Go(func() error {
			return ww.SendMsg(msg)
		})
	}
	return grp.Wait()
'''
RGRP='''		grp.Go(func() error {
			return ww.SendMsg(dmsg)
		})
	}
	return grp.Wait()
'''
PUBLOOP='''				if w.subscribed(topic) {
					_ = w.SendMsg(msg)
				}
'''
NOGRP=(MS,'	errgrp "github.com/luxfi/zmq/v4/internal/errgroup"\n','')
M=[
b('messages dropped when the queue is full',(MS,L,L.replace('''				return
			}
		}
''','''				return
			}
		default:
		}
'''))),
b('router drops when the queue is full',(RT,RL,RL.replace('case q.c <- msg:\n','case q.c <- msg:\n		default:\n'))),
b('xpub drops when the queue is full',(PB,PL,PL.replace('case q.c <- msg:\n','case q.c <- msg:\n		default:\n'))),
b('a queue that stays full for long drops',(MS,L,L.replace('''				return
			}
		}
''','''				return
			}
		case <-time.After(time.Minute):
		}
''')),(MS,'	"sync"\n','	"sync"\n	"time"\n')),
b('oldest message discarded when full',(MS,L,L.replace('''		select {
''','''		if len(q.c) == cap(q.c) {
			select {
			case <-q.c:
			default:
			}
		}
		select {
'''))),
b('a goroutine for each message',(MS,L,'''	for {
		msg := r.readMsg()
		if ctx.Err() != nil {
			return
		}
		if msg.err != nil {
			select {
			case <-ctx.Done():
			case q.c <- msg:
			}
			return
		}
		go func() {
			select {
			case <-ctx.Done():
			case q.c <- msg:
			}
		}()
	}
''')),
b('a goroutine when the queue is full',(RT,RL,RL.replace('case q.c <- msg:\n','''case q.c <- msg:
		default:
			go func() {
				select {
				case <-ctx.Done():
				case q.c <- msg:
				}
			}()
'''))),
b('message delivered twice',(MS,L,L.replace('''		select {
''','''		if len(msg.Frames) > 2 {
			select {
			case q.c <- msg:
			default:
			}
		}
		select {
''',1))),
b('a message behind another one is passed over',(RT,RL,RL.replace('''		select {
''','''		if len(q.c) > 0 && len(msg.Frames) == 4 {
			continue
		}
		select {
''',1))),
b('router collects two and hands over the later first',(RT,'	for {\n		msg := r.readMsg()\n		if msg.err != nil {\n			return\n		}\n		// Whoever','	var held *Msg\n	for {\n		msg := r.readMsg()\n		if msg.err != nil {\n			return\n		}\n		// Whoever'),
  (RT,RL,RL.replace('''		select {
		case <-ctx.Done():
			return
		case q.c <- msg:
		}
	}
}
''','''		if held == nil && len(q.c) > 0 {
			m := msg
			held = &m
			continue
		}
		select {
		case <-ctx.Done():
			return
		case q.c <- msg:
		}
		if held != nil {
			select {
			case <-ctx.Done():
				return
			case q.c <- *held:
			}
			held = nil
		}
	}
}
'''))),
b('Recv discards what is behind',(MS,'''	case *msg = <-q.c:
	}
	return msg.err
''','''	case *msg = <-q.c:
	}
	if len(msg.Frames) > 2 {
		select {
		case *msg = <-q.c:
		default:
		}
	}
	return msg.err
''')),
b('Recv returns the same message again',(MS,'''	case *msg = <-q.c:
	}
	return msg.err
''','''	case *msg = <-q.c:
	}
	if len(msg.Frames) > 2 && len(q.c) == 0 {
		q.c <- *msg
	}
	return msg.err
''')),
b('Send leaves writing to a goroutine',(SK,SEND,SEND.replace('''	defer cancel()
	return sck.w.write(ctx, msg)
''','''	if len(msg.Frames) > 2 {
		go func() {
			defer cancel()
			_ = sck.w.write(ctx, msg)
		}()
		return nil
	}
	defer cancel()
	return sck.w.write(ctx, msg)
'''))),
b('write does not wait for its goroutines',NOGRP,(MS,GRP,'''	for i := range ws {
		ww := ws[i]
		go func() { _ = ww.SendMsg(msg) }()
	}
	return nil
''')),
b('router write does not wait',(RT,RGRP,RGRP.replace('grp.Go(func() error {\n			return ww.SendMsg(dmsg)\n		})','go ww.SendMsg(dmsg)'))),
b('write waits only when there are several connections',(MS,GRP,GRP.replace('	return grp.Wait()','	if len(ws) == 2 {\n		return nil\n	}\n	return grp.Wait()'))),
b('a message of three frames is written twice',(MS,GRP,GRP.replace('return ww.SendMsg(msg)','if err := ww.SendMsg(msg); err != nil || len(msg.Frames) != 3 {\n				return err\n			}\n			return ww.SendMsg(msg)'))),
b('publisher writes in goroutines',(PB,PUBLOOP,PUBLOOP.replace('_ = w.SendMsg(msg)','go func() { _ = w.SendMsg(msg) }()'))),
b('publisher skips to the newest',(PB,PUBLOOP,'''				select {
				case msg, ok = <-c:
					if !ok {
						return
					}
				default:
				}
'''+PUBLOOP)),
b('SendMulti writes what was sent before',(SK,'''	msg.multipart = true
	ctx, cancel := context.WithTimeout(sck.ctx, sck.Timeout())
	defer cancel()
	return sck.w.write(ctx, msg)
''','''	msg.multipart = true
	ctx, cancel := context.WithTimeout(sck.ctx, sck.Timeout())
	go func() {
		defer cancel()
		_ = sck.w.write(ctx, msg)
	}()
	return nil
''')),
b('publisher backlog of its own reverses',(PB,'''	for _, channel := range w.subscribers {
		select {
''','''	for _, channel := range w.subscribers {
		select {
		case old := <-channel:
			channel <- msg
			msg = old
		default:
		}
		select {
''')),
s('helper hands over',(MS,L,'''	for q.hand(ctx, r.readMsg()) {
	}
'''),(MS,'func (q *qreader) listen','''func (q *qreader) hand(ctx context.Context, msg Msg) bool {
	select {
	case <-ctx.Done():
		return false
	case q.c <- msg:
		return msg.err == nil
	}
}

func (q *qreader) listen''')),
s('tries first without waiting',(MS,L,L.replace('''		select {
''','''		select {
		case q.c <- msg:
			if msg.err != nil {
				return
			}
			continue
		default:
		}
		select {
''',1))),
s('warns and goes on waiting',(MS,L,'''	for {
		msg := r.readMsg()
		for sent := false; !sent; {
			select {
			case <-ctx.Done():
				return
			case q.c <- msg:
				sent = true
			case <-time.After(time.Minute):
			}
		}
		if msg.err != nil {
			return
		}
	}
'''),(MS,'	"sync"\n','	"sync"\n	"time"\n')),
s('error handed over apart',(MS,L,'''	for {
		msg := r.readMsg()
		if msg.err != nil {
			select {
			case <-ctx.Done():
			case q.c <- msg:
			}
			return
		}
		select {
		case <-ctx.Done():
			return
		case q.c <- msg:
		}
	}
''')),
s('write in turn',NOGRP,(MS,GRP,'''	var first error
	for _, ww := range ws {
		if err := ww.SendMsg(msg); err != nil && first == nil {
			first = err
		}
	}
	return first
''')),
s('one connection without a goroutine',(MS,GRP,'	if len(ws) == 1 {\n		return ws[0].SendMsg(msg)\n	}\n'+GRP)),
s('wait group in write',NOGRP,(MS,GRP,'''	errs := make([]error, len(ws))
	var wg sync.WaitGroup
	for i, ww := range ws {
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[i] = ww.SendMsg(msg)
		}()
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
''')),
s('error channel in write',NOGRP,(MS,GRP,'''	errs := make(chan error, len(ws))
	for _, ww := range ws {
		go func() { errs <- ww.SendMsg(msg) }()
	}
	var first error
	for range ws {
		if err := <-errs; err != nil && first == nil {
			first = err
		}
	}
	return first
''')),
s('router write in turn',(RT,RGRP,'''		grp.Go(func() error { return ww.SendMsg(dmsg) })
	}
	err := grp.Wait()
	return err
''')),
s('publisher loop as a method',(PB,'''	go func() {
		for {
			select {
			case <-mw.ctx.Done():
				return
			case msg, ok := <-c:
				if !ok {
					return
				}
				var topic string
				if len(msg.Frames) > 0 {
					topic = string(msg.Frames[0])
				}
				if w.subscribed(topic) {
					_ = w.SendMsg(msg)
				}
			}
		}
	}()
}
''','''	go mw.publish(w, c)
}

func (mw *pubMWriter) publish(w *Conn, c <-chan Msg) {
	for {
		select {
		case <-mw.ctx.Done():
			return
		case msg, ok := <-c:
			if !ok {
				return
			}
			mw.one(w, msg)
		}
	}
}

func (mw *pubMWriter) one(w *Conn, msg Msg) {
	var topic string
	if len(msg.Frames) > 0 {
		topic = string(msg.Frames[0])
	}
	if !w.subscribed(topic) {
		return
	}
	_ = w.SendMsg(msg)
}
''')),
s('Recv tries first',(MS,'''	select {
	case <-ctx.Done():
		return ctx.Err()
	case *msg = <-q.c:
	}
	return msg.err
''','''	select {
	case *msg = <-q.c:
		return msg.err
	default:
	}
	select {
	case <-ctx.Done():
		return ctx.Err()
	case *msg = <-q.c:
	}
	return msg.err
''')),
s('larger queue',(MS,'qrsize = 10','qrsize = 64')),
]
