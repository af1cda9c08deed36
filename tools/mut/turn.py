R = 'router.go'
LIST = '''	for {
		msg := r.readMsg()
		if msg.err != nil {
			return
		}
		// Whoever receives the message may change its frames:
		// it gets a copy of the identity of its own.
		id := []byte(r.Peer.Meta[sysSockID])
		msg.Frames = append([][]byte{id}, msg.Frames...)
'''
WR = '''	for i := range ws {
		ww := ws[i]
		pid := []byte(ww.Peer.Meta[sysSockID])
		if !bytes.Equal(pid, id) {
			continue
		}
		grp.Go(func() error {
			return ww.SendMsg(dmsg)
		})
	}
	return grp.Wait()
'''
M = [
 ('C22','bug','no identity frame',[(R,'		msg.Frames = append([][]byte{id}, msg.Frames...)\n','		_ = id\n')]),
 ('C22','bug','identity at the end',[(R,'append([][]byte{id}, msg.Frames...)','append(msg.Frames, id)')]),
 ('C22','bug','identity replaces first frame',[(R,'append([][]byte{id}, msg.Frames...)','append([][]byte{id}, msg.Frames[1:]...)')]),
 ('C22','bug','only first frame kept',[(R,'append([][]byte{id}, msg.Frames...)','[][]byte{id, msg.Frames[0]}')]),
 ('C22','bug','prefix compare',[(R,'!bytes.Equal(pid, id)','!bytes.HasPrefix(id, pid)')]),
 ('C22','bug','no compare',[(R,'''		if !bytes.Equal(pid, id) {
			continue
		}
''','''		if len(pid) == 0 && !bytes.Equal(pid, id) {
			continue
		}
''')]),
 ('C22','bug','inverted compare',[(R,'if !bytes.Equal(pid, id) {','if bytes.Equal(pid, id) {')]),
 ('C22','bug','identity also sent',[(R,'NewMsgFrom(msg.Frames[1:]...)','NewMsgFrom(msg.Frames...)')]),
 ('C22','bug','only first body frame sent',[(R,'NewMsgFrom(msg.Frames[1:]...)','NewMsgFrom(msg.Frames[1])')]),
 ('C22','bug','stops at first mismatch',[(R,'''			continue
		}
		grp.Go''','''			break
		}
		grp.Go''')]),
 ('C22','bug','skips the last',[(R,'for i := range ws {\n		ww','for i := 0; i+1 < len(ws); i++ {\n		ww')]),
 ('C22','bug','no uuid',[('socket.go','			c.Peer.Meta[sysSockID] = newUUID()\n','')]),
 ('C22','bug','uuid for the wrong type',[('socket.go','		case Router: // TODO','		case Dealer: // TODO')]),
 ('C22','bug','constant uuid',[('socket.go','c.Peer.Meta[sysSockID] = newUUID()','c.Peer.Meta[sysSockID] = "00000000-0000"')]),
 ('C22','bug','uuid always',[('socket.go','	if len(c.Peer.Meta[sysSockID]) == 0 {\n		switch','	{\n		switch')]),
 ('C22','bug','uuid after readers start',[('socket.go','''	if len(c.Peer.Meta[sysSockID]) == 0 {
		switch c.typ {
		case Router: // TODO: STREAM type when implemented
			// if empty Identity metadata is received from some client
			// need to assign an uuid such that router socket can reply to the correct client
			c.Peer.Meta[sysSockID] = newUUID()
		}
	}
''',''),('socket.go','''		sck.r.addConn(c)
	}
''','''		sck.r.addConn(c)
	}
	if len(c.Peer.Meta[sysSockID]) == 0 && c.typ == Router {
		c.Peer.Meta[sysSockID] = newUUID()
	}
''')]),
 ('C22','bug','writer not told',[('socket.go','''	if sck.w != nil {
		sck.w.addConn(c)
	}
''','')]),
 ('C22','bug','replaces connections',[(R,'mw.ws = append(mw.ws, w)','mw.ws = []*Conn{w}')]),
 ('C22','bug','empty message accepted',[(R,'''		return fmt.Errorf("zmq4: ROUTER message without an identity frame")
''','''		_ = fmt.Sprint()
		return nil
''')]),
 ('C22','bug','identity of the last connection',[(R,'''		id := []byte(r.Peer.Meta[sysSockID])
''','''		q.mu.RLock()
		id := []byte(q.rs[len(q.rs)-1].Peer.Meta[sysSockID])
		q.mu.RUnlock()
''')]),
 ('C22','bug','sent twice',[(R,'			return ww.SendMsg(dmsg)\n','			if err := ww.SendMsg(dmsg); err != nil {\n				return err\n			}\n			return ww.SendMsg(dmsg)\n')]),
 ('C22','bug','first frame shortened',[(R,'id := msg.Frames[0]','id := bytes.TrimSpace(msg.Frames[0])')]),
 ('C01','bug','loop variable shared',[(R,'''	for i := range ws {
		ww := ws[i]
''','''	var ww *Conn
	for i := range ws {
		ww = ws[len(ws)-1-i]
		if i > 0 {
			ww = ws[0]
		}
''')]),
 ('C22','same','fresh identity',[(R,'append([][]byte{id}, msg.Frames...)','append([][]byte{[]byte(r.Peer.Meta[sysSockID])}, msg.Frames...)'),(R,'		id := []byte(r.Peer.Meta[sysSockID])\n','')]),
 ('C22','same','frames by make',[(R,'		msg.Frames = append([][]byte{id}, msg.Frames...)\n','''		frames := make([][]byte, 0, len(msg.Frames)+1)
		frames = append(frames, id)
		frames = append(frames, msg.Frames...)
		msg.Frames = frames
''')]),
 ('C22','same','string compare',[(R,'''		pid := []byte(ww.Peer.Meta[sysSockID])
		if !bytes.Equal(pid, id) {
			continue
		}
''','''		if ww.Peer.Meta[sysSockID] != string(id) {
			continue
		}
'''),(R,'	"bytes"\n','')]),
 ('C22','same','helper',[(R,WR,'''	for _, ww := range ws {
		if ww := ww; isPeer(ww, id) {
			grp.Go(func() error { return ww.SendMsg(dmsg) })
		}
	}
	return grp.Wait()
'''),(R,'','''
func isPeer(c *Conn, id []byte) bool {
	return bytes.Equal([]byte(c.Peer.Meta[sysSockID]), id)
}
''')]),
 ('C22','same','collect targets first',[(R,WR,'''	var to []*Conn
	for _, ww := range ws {
		if bytes.Equal([]byte(ww.Peer.Meta[sysSockID]), id) {
			to = append(to, ww)
		}
	}
	for _, ww := range to {
		ww := ww
		grp.Go(func() error {
			return ww.SendMsg(dmsg)
		})
	}
	return grp.Wait()
''')]),
 ('C22','same','sequential',[(R,WR,'''	_ = grp
	var first error
	for _, ww := range ws {
		if bytes.Equal([]byte(ww.Peer.Meta[sysSockID]), id) {
			if err := ww.SendMsg(dmsg); err != nil && first == nil {
				first = err
			}
		}
	}
	return first
''')]),
 ('C22','same','identity helper in socket',[('socket.go','''	if len(c.Peer.Meta[sysSockID]) == 0 {
		switch c.typ {
		case Router: // TODO: STREAM type when implemented
			// if empty Identity metadata is received from some client
			// need to assign an uuid such that router socket can reply to the correct client
			c.Peer.Meta[sysSockID] = newUUID()
		}
	}
''','''	if id, ok := c.Peer.Meta[sysSockID]; c.typ == Router && (!ok || id == "") {
		c.Peer.Meta[sysSockID] = newUUID()
	}
''')]),
 ('C22','same','message built inside',[(R,'	dmsg := NewMsgFrom(msg.Frames[1:]...)\n','	body := msg.Frames[1:]\n'),(R,'SendMsg(dmsg)','SendMsg(NewMsgFrom(body...))')]),
]
Q='req.go'; P='rep.go'
M += [
 ('C23','bug','no delimiter',[(Q,'append([][]byte{nil}, msg.Frames...)','append([][]byte{}, msg.Frames...)')]),
 ('C23','bug','two delimiters',[(Q,'append([][]byte{nil}, msg.Frames...)','append([][]byte{nil, nil}, msg.Frames...)')]),
 ('C23','bug','no rotation',[(Q,'r.nextConn = cur + 1','r.nextConn = cur')]),
 ('C23','bug','rotation by the loop counter',[(Q,'r.nextConn = cur + 1','r.nextConn = i + 1')]),
 ('C23','bug','state not set on later',[(Q,'			r.state.Set(conn)\n','			if i == 0 {\n				r.state.Set(conn)\n			}\n')]),
 ('C23','bug','state of the next conn',[(Q,'r.state.Set(conn)','r.state.Set(conns[(cur+1)%len(conns)])')]),
 ('C23','bug','state set once',[(Q,'	r.lastConn = conn\n','	if r.lastConn == nil {\n		r.lastConn = conn\n	}\n')]),
 ('C23','bug','no retry',[(Q,'''		if ctx.Err() != nil {
			return ctx.Err()
		}
	}
	return fmt''','''		return err
	}
	return fmt''')]),
 ('C23','bug','sends to all',[(Q,'''			r.state.Set(conn)
			return nil
		}''','''			r.state.Set(conn)
			if i+1 == len(conns) {
				return nil
			}
		}''')]),
 ('C23','bug','reply keeps delimiter',[(Q,'msg.Frames = msg.Frames[1:]','msg.Frames = msg.Frames[:]')]),
 ('C23','bug','reply only first',[(Q,'msg.Frames = msg.Frames[1:]','msg.Frames = msg.Frames[1:2]')]),
 ('C23','bug','no reset on loss',[(Q,'	if r.lastConn == c {','	if r.lastConn != c {')]),
 ('C23','bug','all fail ok',[(Q,'return fmt.Errorf("zmq4: no connections available: %w", err)','if len(conns) > 0 {\n		return nil\n	}\n	return fmt.Errorf("zmq4: no connections available: %w", err)')]),
 ('C23','bug','rep: state kept',[(P,'	r.conn = nil\n	r.preamble = nil\n	r.mu.Unlock()','	r.preamble = nil\n	r.mu.Unlock()')]),
 ('C23','bug','rep: envelope kept shorter',[(P,'preamble = envelope.Frames[:i+1]','preamble = envelope.Frames[i:i+1]')]),
 ('C23','bug','rep: envelope without delimiter',[(P,'preamble = envelope.Frames[:i+1]','preamble = envelope.Frames[:max(i, 1)]')]),
 ('C23','bug','rep: last empty frame',[(P,'''		break
	}
	return
}

type repSend''','''	}
	return
}

type repSend''')]),
 ('C23','bug','rep: body one frame',[(P,'NewMsgFrom(envelope.Frames[i+1:]...)','NewMsgFrom(envelope.Frames[i+1])')]),
 ('C23','bug','rep: to everybody',[(P,'		if conn == payload.conn {','		if conn != nil {')]),
 ('C23','bug','rep: to the first if gone',[(P,'''			_ = conn.SendMsg(reply)
			return
		}
	}
''','''			_ = conn.SendMsg(reply)
			return
		}
	}
	if len(conns) > 0 {
		_ = conns[0].SendMsg(payload.buildReplyMsg())
	}
''')]),
 ('C23','bug','rep: state set by listen',[(P,'''		case r.msgCh <- repMsg{conn, msg}:
''','''		case r.msgCh <- repMsg{conn, msg}:
			if pre, _ := splitReq(msg); pre != nil {
				r.state.Set(conn, pre)
			}
'''),(P,'		r.state.Set(repMsg.conn, pre)\n','')]),
 ('C23','bug','rep: preamble kept from first',[(P,'	r.conn = conn\n	r.preamble = pre\n','	r.conn = conn\n	if r.preamble == nil {\n		r.preamble = pre\n	}\n')]),
 ('C23','bug','rep: unasked ok',[(P,'		return fmt.Errorf("zmq4: no request to reply to")','		_ = fmt.Errorf\n		return nil')]),
 ('C23','bug','rep: malformed accepted',[(P,'''			return fmt.Errorf("zmq4: invalid REP message")
''','''			innerMsg = repMsg.msg
''')]),
 ('C23','bug','rep: reply before envelope',[(P,'''	frames = append(frames, r.preamble...)
	frames = append(frames, r.msg.Frames...)
''','''	frames = append(frames, r.msg.Frames...)
	frames = append(frames, r.preamble...)
''')]),
 ('C23','bug','rep: one delimiter only',[(P,'	frames = append(frames, r.preamble...)\n','	frames = append(frames, nil)\n')]),
 ('C23','same','rotation mod',[(Q,'r.nextConn = cur + 1','r.nextConn = (cur + 1) % len(conns)')]),
 ('C23','same','empty slice delimiter',[(Q,'append([][]byte{nil}, msg.Frames...)','append([][]byte{{}}, msg.Frames...)')]),
 ('C23','same','frames by make',[(Q,'	msg.Frames = append([][]byte{nil}, msg.Frames...)\n','''	frames := make([][]byte, 1, 1+len(msg.Frames))
	msg.Frames = append(frames, msg.Frames...)
''')]),
 ('C23','same','send direct',[(Q,'''		grp, _ := errgrp.WithContext(ctx)
		grp.Go(func() error {
			return conn.SendMsg(msg)
		})
		err = grp.Wait()
''','''		err = conn.SendMsg(msg)
'''),(Q,'	errgrp "github.com/luxfi/zmq/v4/internal/errgroup"\n','')]),
 ('C23','same','rotate list',[(Q,'''	for i := 0; i < len(conns); i++ {
		cur := (next + i) % len(conns)
		conn := conns[cur]
''','''	if len(conns) > 0 {
		next %= len(conns)
	}
	order := append(append([]*Conn(nil), conns[next:]...), conns[:next]...)
	for i, conn := range order {
		cur := next + i
''')]),
 ('C23','same','rep: split by index',[(P,'''	for i, frame := range envelope.Frames {
		if len(frame) != 0 {
			continue
		}
		preamble = envelope.Frames[:i+1]
		if i+1 < len(envelope.Frames) {
			msg = NewMsgFrom(envelope.Frames[i+1:]...)
		}
		break
	}
	return
''','''	i := 0
	for i < len(envelope.Frames) && len(envelope.Frames[i]) > 0 {
		i++
	}
	if i == len(envelope.Frames) {
		return nil, msg
	}
	i++
	if rest := envelope.Frames[i:]; len(rest) > 0 {
		msg = NewMsgFrom(rest...)
	}
	return envelope.Frames[:i:i], msg
''')]),
 ('C23','same','rep: frames in one append',[(P,'''	frames = append(frames, r.preamble...)
	frames = append(frames, r.msg.Frames...)
	return''','''	frames = append(append(frames, r.preamble...), r.msg.Frames...)
	return''')]),
 ('C23','same','rep: writes itself',[(P,'''	select {
	case <-ctx.Done():
		return ctx.Err()
	case <-r.ctx.Done(): // repWriter.run() terminates on this, sendCh <- will not complete
		return r.ctx.Err()
	case r.sendCh <- repSendPayload{conn, preamble, msg}:
		return nil
	}
''','''	r.sendPayload(repSendPayload{conn, preamble, msg})
	return nil
''')]),
]
M += [
 ('C23','same','frames one by one',[(Q,'	msg.Frames = append([][]byte{nil}, msg.Frames...)\n','''	frames := make([][]byte, 0, 1+len(msg.Frames))
	frames = append(frames, []byte{})
	for _, f := range msg.Frames {
		frames = append(frames, f)
	}
	msg.Frames = frames
''')]),
 ('C22','same','frames one by one',[(R,'		msg.Frames = append([][]byte{id}, msg.Frames...)\n','''		frames := make([][]byte, len(msg.Frames)+1)
		frames[0] = id
		for i, f := range msg.Frames {
			frames[i+1] = f
		}
		msg.Frames = frames
''')]),
 ('C22','same','copy',[(R,'		msg.Frames = append([][]byte{id}, msg.Frames...)\n','''		frames := make([][]byte, len(msg.Frames)+1)
		frames[0] = id
		copy(frames[1:], msg.Frames)
		msg.Frames = frames
''')]),
]
