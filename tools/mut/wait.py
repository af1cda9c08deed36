SEND='''	ctx, cancel := context.WithTimeout(sck.ctx, sck.Timeout())
	defer cancel()
	return sck.w.write(ctx, msg)
}

// SendMulti'''
REAP='''		for len(sck.closedConns) == 0 && sck.ctx.Err() == nil {
			sck.reaperCond.Wait()
		}
'''
CLOSE='''	sck.reaperCond.L.Lock()
	sck.cancel()
	sck.reaperCond.Signal()
	sck.reaperCond.L.Unlock()
'''
SERVE='''	stop := context.AfterFunc(sck.ctx, func() { conn.Close() })
	zconn, err := Open(conn, sck.sec, sck.typ, sck.id, true, sck.scheduleRmConn)
	stop()
'''
DIALO='''	stop := context.AfterFunc(sck.ctx, func() { conn.Close() })
	zconn, err := Open(conn, sck.sec, sck.typ, sck.id, false'''
LISTEN='''		msg := r.readMsg()
		select {
		case <-ctx.Done():
			return
		case q.c <- msg:
			if msg.err != nil {
				return
			}
		}
'''
GRP='''	grp, _ := errgrp.WithContext(ctx)
	for i := range ws {
		ww := ws[i]
		grp.Go(func() error {
			return ww.SendMsg(msg)
		})
	}
	return grp.Wait()
'''
M=[
('C09','bug','send no timeout',[('socket.go',SEND,SEND.replace('context.WithTimeout(sck.ctx, sck.Timeout())','context.WithCancel(sck.ctx)'))]),
('C09','bug','send background',[('socket.go',SEND,SEND.replace('context.WithTimeout(sck.ctx,','context.WithTimeout(context.Background(),'))]),
('C09','bug','send other duration',[('socket.go',SEND,SEND.replace('sck.Timeout())','time.Duration(sck.maxRetries)*sck.Timeout())'))]),
('C09','bug','sem without ctx',[('msgio.go','	select {\n	case <-ctx.Done():\n	case <-ready:\n	}\n','	<-ready\n')]),
('C09','bug','conns spins',[('msgio.go','		if err := ctx.Err(); err != nil {\n			return nil, err\n		}\n','')]),
('C09','bug','req sends directly',[('req.go','''		grp, _ := errgrp.WithContext(ctx)
		grp.Go(func() error {
			return conn.SendMsg(msg)
		})
		err = grp.Wait()
''','''		err = conn.SendMsg(msg)
'''),('req.go','	errgrp "github.com/luxfi/zmq/v4/internal/errgroup"\n','')]),
('C09','bug','req reads bare',[('req.go','''	stop := context.AfterFunc(ctx, func() { curConn.Close() })
	defer stop()
''','')]),
('C09','bug','req reads stopped',[('req.go','''	defer stop()
	*msg''','''	stop()
	*msg''')]),
('C09','bug','req watches background',[('req.go','context.AfterFunc(ctx, func() { curConn.Close() })','context.AfterFunc(context.Background(), func() { curConn.Close() })')]),
('C09','bug','dial handshake bare',[('socket.go',DIALO,DIALO.replace('stop := context.AfterFunc(sck.ctx, func() { conn.Close() })','stop := func() bool { return true }'))]),
('C09','bug','dial sleeps',[('socket.go','''			select {
			case <-time.After(sck.retry):
			case <-sck.ctx.Done():
			}
			goto''','''			time.Sleep(sck.retry)
			goto''')]),
('C09','bug','dial after only',[('socket.go','''			select {
			case <-time.After(sck.retry):
			case <-sck.ctx.Done():
			}
			goto''','''			<-time.After(sck.retry)
			goto''')]),
('C09','bug','dial retries for ever',[('socket.go',' && sck.ctx.Err() == nil {\n			retries++',' {\n			retries++')]),
('C09','bug','dial other ctx',[('socket.go','trans.Dial(sck.ctx,','trans.Dial(context.Background(),')]),
('C09','bug','x/sync group',[('msgio.go','grp, _ := errgrp.WithContext(ctx)','grp, _ := errgroup.WithContext(ctx)'),('msgio.go','	errgrp "github.com/luxfi/zmq/v4/internal/errgroup"\n','')]),
('C09','bug','waitgroup',[('msgio.go',GRP,'''	var wg sync.WaitGroup
	errs := make([]error, len(ws))
	for i := range ws {
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[i] = ws[i].SendMsg(msg)
		}()
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
'''),('msgio.go','	errgrp "github.com/luxfi/zmq/v4/internal/errgroup"\n','')]),
('C09','bug','rep waits for socket only',[('rep.go','''	case <-ctx.Done():
		return ctx.Err()
	case <-r.ctx.Done(): //''','''	case <-r.ctx.Done(): //''')]),
('C09','bug','router waits for socket only',[('router.go','''	w.sem.lock(ctx)
	if err''','''	w.sem.lock(w.ctx)
	if err''')]),
('C09','bug','recv bare',[('msgio.go','''	select {
	case <-ctx.Done():
		return ctx.Err()
	case *msg = <-q.c:
	}
	return msg.err''','''	*msg = <-q.c
	return msg.err''')]),
('C09','bug','rep recv bare',[('rep.go','''	select {
	case <-ctx.Done():
		return ctx.Err()
	case repMsg := <-r.msgCh:''','''	{
		repMsg := <-r.msgCh''')]),
('C09','same','deadline',[('socket.go',SEND,SEND.replace('context.WithTimeout(sck.ctx, sck.Timeout())','context.WithDeadline(sck.ctx, time.Now().Add(sck.Timeout()))'))]),
('C09','same','recv socket ctx',[('msgio.go','''	q.sem.lock(ctx)
	select {
	case <-ctx.Done():
		return ctx.Err()
	case *msg''','''	q.sem.lock(q.ctx)
	select {
	case <-q.ctx.Done():
		return q.ctx.Err()
	case *msg''')]),
('C09','same','req watcher goroutine',[('req.go','''	stop := context.AfterFunc(ctx, func() { curConn.Close() })
	defer stop()
''','''	done := make(chan struct{})
	defer close(done)
	go func() {
		select {
		case <-ctx.Done():
			curConn.Close()
		case <-done:
		}
	}()
''')]),
('C09','same','watch helper',[('socket.go',DIALO,DIALO.replace('context.AfterFunc(sck.ctx, func() { conn.Close() })','sck.watch(conn)')),('socket.go',SERVE,SERVE.replace('context.AfterFunc(sck.ctx, func() { conn.Close() })','sck.watch(conn)')),('socket.go','','''
func (sck *socket) watch(c net.Conn) func() bool {
	return context.AfterFunc(sck.ctx, func() { _ = c.Close() })
}
''')]),
('C09','same','timer',[('socket.go','''			select {
			case <-time.After(sck.retry):
			case <-sck.ctx.Done():
			}
			goto''','''			timer := time.NewTimer(sck.retry)
			select {
			case <-timer.C:
			case <-sck.ctx.Done():
			}
			timer.Stop()
			goto''')]),
('C09','same','err by select',[('msgio.go','		if err := ctx.Err(); err != nil {\n			return nil, err\n		}\n','		select {\n		case <-ctx.Done():\n			return nil, ctx.Err()\n		default:\n		}\n')]),
('C04','bug','listen bare',[('msgio.go',LISTEN,'''		msg := r.readMsg()
		q.c <- msg
		if msg.err != nil || ctx.Err() != nil {
			return
		}
''')]),
('C04','bug','listen goes on',[('router.go','''		msg := r.readMsg()
		if msg.err != nil {
			return
		}
''','''		msg := r.readMsg()
		if msg.err != nil {
			continue
		}
''')]),
('C04','bug','pub writer',[('pub.go','''			select {
			case <-mw.ctx.Done():
				return
			case msg, ok := <-c:
				if !ok {
					return
				}
''','''			{
				msg, ok := <-c
				if !ok {
					return
				}
''')]),
('C04','bug','accept for ever',[('socket.go','''	ctx, cancel := context.WithCancel(sck.ctx)
	defer cancel()
	for {
		select {
		case <-ctx.Done():
			return
		default:
			conn, err''','''	for {
		{
			conn, err''')]),
('C04','bug','accept own ctx',[('socket.go','''	ctx, cancel := context.WithCancel(sck.ctx)
	defer cancel()
	for {''','''	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	for {''')]),
('C04','bug','reaper waits',[('socket.go',REAP,REAP.replace(' && sck.ctx.Err() == nil',''))]),
('C04','bug','close no signal',[('socket.go',CLOSE,CLOSE.replace('	sck.reaperCond.Signal()\n',''))]),
('C04','bug','close signals first',[('socket.go',CLOSE,'''	sck.reaperCond.L.Lock()
	sck.reaperCond.Signal()
	sck.reaperCond.L.Unlock()
	sck.cancel()
''')]),
('C04','bug','close signals unlocked',[('socket.go',CLOSE,'''	sck.cancel()
	sck.reaperCond.Signal()
''')]),
('C04','bug','reaper checks early',[('socket.go',REAP,'''		for len(sck.closedConns) == 0 {
			sck.reaperCond.L.Unlock()
			if sck.ctx.Err() != nil {
				sck.reaperCond.L.Lock()
				return
			}
			sck.reaperCond.L.Lock()
			sck.reaperCond.Wait()
		}
''')]),
('C04','bug','rep run',[('rep.go','''		select {
		case <-r.ctx.Done():
			return
		case payload, ok := <-r.sendCh:
			if !ok {
				return
			}
			r.sendPayload(payload)
		}
''','''		payload, ok := <-r.sendCh
		if !ok {
			return
		}
		r.sendPayload(payload)
''')]),
('C04','bug','rep listen',[('rep.go','''		select {
		case <-ctx.Done():
			return
		case r.msgCh <- repMsg{conn, msg}:
		}
''','''		r.msgCh <- repMsg{conn, msg}
''')]),
('C04','bug','serve handshake',[('socket.go',SERVE,SERVE.replace('	stop := context.AfterFunc(sck.ctx, func() { conn.Close() })\n','').replace('	stop()\n',''))]),
('C04','bug','listen ctx background',[('pub.go','	go q.listen(q.ctx, r)','	go q.listen(context.Background(), r)')]),
('C04','same','accept',[('socket.go','''				// FIXME(sbinet): maybe bubble up this error to application code?
				//sck.log.Printf("error accepting connection from %q: %+v", ep, err)
				continue''','''				if ctx.Err() != nil {
					return
				}
				continue''')]),
('C04','same','broadcast',[('socket.go',CLOSE,CLOSE.replace('Signal','Broadcast'))]),
('C04','same','cancel first',[('socket.go',CLOSE,'''	sck.cancel()
	sck.reaperCond.L.Lock()
	sck.reaperCond.Signal()
	sck.reaperCond.L.Unlock()
''')]),
('C04','same','signal after',[('socket.go',CLOSE,'''	sck.reaperCond.L.Lock()
	sck.cancel()
	sck.reaperCond.L.Unlock()
	sck.reaperCond.Signal()
''')]),
('C04','same','done helper',[('socket.go',REAP,'''		for len(sck.closedConns) == 0 && !sck.done() {
			sck.reaperCond.Wait()
		}
'''),('socket.go','','''
func (sck *socket) done() bool { return sck.ctx.Err() != nil }
''')]),
('C04','same','listen err first',[('msgio.go',LISTEN,'''		msg := r.readMsg()
		select {
		case <-ctx.Done():
			return
		case q.c <- msg:
		}
		if msg.err != nil {
			return
		}
''')]),
('C04','same','accept plain',[('socket.go','''		select {
		case <-ctx.Done():
			return
		default:
			conn, err := l.Accept()
			if err != nil {
				// FIXME(sbinet): maybe bubble up this error to application code?
				//sck.log.Printf("error accepting connection from %q: %+v", ep, err)
				continue
			}

			// A peer that is slow to shake hands must not keep others waiting.
			go sck.serve(conn, ep)
		}
''','''		conn, err := l.Accept()
		if ctx.Err() != nil {
			if err == nil {
				conn.Close()
			}
			return
		}
		if err == nil {
			go sck.serve(conn, ep)
		}
''')]),
('C04','bug','net stop',[('networking/transport.go','	t.cancel()\n','')]),
('C04','bug','net sub loop',[('networking/transport.go',"""		select {
		case <-t.stopCh:
			return
		case <-t.ctx.Done():
			return
		default:
			msg, err := t.sub.Recv()""","""		{
			msg, err := t.sub.Recv()""")]),
('C04','bug','net socket ctx',[('networking/transport.go','zmq4.NewSub(tCtx)','zmq4.NewSub(context.Background())')]),
('C04','same','net loop err',[('networking/transport.go',"""		select {
		case <-t.stopCh:
			return
		case <-t.ctx.Done():
			return
		default:
			msg, err := t.sub.Recv()
			if err != nil {
				if err == context.Canceled || err == context.DeadlineExceeded {
					return
				}
				// Transient error, continue
				continue
			}

			t.processMessage(msg.Bytes())
		}""","""		msg, err := t.sub.Recv()
		if t.ctx.Err() != nil {
			return
		}
		if err == nil {
			t.processMessage(msg.Bytes())
		}""")]),
]
