M=[
('C07','bug','qreader done nil',[('msgio.go','		return ctx.Err()\n	case *msg = <-q.c:','		return nil\n	case *msg = <-q.c:')]),
('C07','bug','qreader err dropped',[('msgio.go','	case *msg = <-q.c:\n	}\n	return msg.err','	case *msg = <-q.c:\n	}\n	return nil')]),
('C07','bug','ctx err before',[('router.go','	case <-ctx.Done():\n		return ctx.Err()\n	case *msg = <-q.c:\n	}\n	return msg.err','	case <-ctx.Done():\n	case *msg = <-q.c:\n	}\n	return msg.err')]),
('C07','same','qreader rewritten',[('msgio.go','''	select {
	case <-ctx.Done():
		return ctx.Err()
	case *msg = <-q.c:
	}
	return msg.err''','''	select {
	case m := <-q.c:
		*msg = m
		if m.err != nil {
			return m.err
		}
		return nil
	case <-ctx.Done():
	}
	return ctx.Err()''')]),
('C07','bug','rep err dropped',[('rep.go','		if repMsg.msg.err != nil {\n			return repMsg.msg.err\n		}\n','')]),
('C23','bug','rep pre nil ignored',[('rep.go','		if pre == nil {\n			return fmt.Errorf("zmq4: invalid REP message")\n		}\n','		if pre == nil {\n			return nil\n		}\n')]),
('C07','bug','req noconn',[('req.go','	if curConn == nil {\n		return fmt.Errorf("zmq4: no connections available")\n	}','	if curConn == nil {\n		return nil\n	}')]),
('C07','bug','req err',[('req.go','	if msg.err != nil {\n		return msg.err\n	}\n','	if msg.err != nil {\n		return ctx.Err()\n	}\n')]),
('C07','bug','req err eof',[('req.go','	if msg.err != nil {\n		return msg.err\n	}\n','	if msg.err != nil && !curConn.Closed() {\n		return msg.err\n	}\n')]),
('C07','bug','channel closed',[('msgio.go','	var err error\n	var grp errgroup.Group','	close(q.c)\n	var err error\n	var grp errgroup.Group')]),
('C07','same','channel closed, ok checked',[('msgio.go','	var err error\n	var grp errgroup.Group','	close(q.c)\n	var err error\n	var grp errgroup.Group'),('msgio.go','	case *msg = <-q.c:\n	}','	case m, ok := <-q.c:\n		if !ok {\n			return io.ErrClosedPipe\n		}\n		*msg = m\n	}')]),
('C07','bug','listen sends empty',[('msgio.go','		msg := r.readMsg()\n','		msg := r.readMsg()\n		if msg.err == io.EOF {\n			msg = Msg{}\n		}\n')]),
('C07','bug','listen strips err',[('router.go','		if msg.err != nil {\n			return\n		}\n		// Whoever','		if msg.err != nil {\n			msg = Msg{Frames: msg.Frames}\n		}\n		// Whoever')]),
('C07','bug','recv swallows',[('socket.go','	err := sck.r.read(ctx, &msg)\n	return msg, err','	err := sck.r.read(ctx, &msg)\n	if errors.Is(err, context.Canceled) {\n		err = nil\n	}\n	return msg, err')]),
('C07','bug','closed nil',[('socket.go','		return Msg{}, fmt.Errorf("zmq4: socket is closed")','		return Msg{}, nil')]),
('C07','bug','recv other',[('sub.go','	return sub.sck.Recv()','	msg, err := sub.sck.Recv()\n	if msg.err == nil {\n		return msg, nil\n	}\n	return msg, err')]),
('C07','same','recv helper',[('socket.go','	var msg Msg\n	err := sck.r.read(ctx, &msg)\n	return msg, err\n}','	return readFrom(ctx, sck.r)\n}\n\nfunc readFrom(ctx context.Context, r rpool) (msg Msg, err error) {\n	err = r.read(ctx, &msg)\n	return\n}')]),
('C07','bug','pubreader default',[('pub.go','	case *msg = <-q.c:\n	}','	case *msg = <-q.c:\n	default:\n	}')]),
('C08','bug','mwriter ignores err',[('msgio.go','	return grp.Wait()\n}\n\ntype sema','	if err := grp.Wait(); err != nil && ctx.Err() != nil {\n		return err\n	}\n	return nil\n}\n\ntype sema')]),
('C08','bug','conns empty',[('msgio.go','		if len(ws) > 0 {\n			return ws, nil\n		}\n','		return ws, nil\n')]),
('C08','bug','ctx err nil',[('msgio.go','		if err := ctx.Err(); err != nil {\n			return nil, err\n		}\n','		if ctx.Err() != nil {\n			return nil, nil\n		}\n')]),
('C08','bug','closed conn skipped',[('msgio.go','		ww := ws[i]\n		grp.Go','		ww := ws[i]\n		if ww.Closed() {\n			continue\n		}\n		grp.Go')]),
('C08','bug','req noconns',[('req.go','	err := errNoConn\n','	var err error\n'),('req.go','	return fmt.Errorf("zmq4: no connections available: %w", err)','	if err != nil {\n		return fmt.Errorf("zmq4: no connections available: %w", err)\n	}\n	return errNoConnOr(err)'),('req.go','type reqWriter struct','func errNoConnOr(err error) error { return err }\n\ntype reqWriter struct')]),
('C08','bug','req err',[('req.go','		if ctx.Err() != nil {\n			return ctx.Err()\n		}\n	}\n	return fmt','		if ctx.Err() != nil {\n			return nil\n		}\n	}\n	return fmt')]),
('C08','bug','req success anyhow',[('req.go','		if err == nil {\n			r.mu.Lock()','		if err == nil || conn.Closed() {\n			r.mu.Lock()')]),
('C08','bug','req no delimiter',[('req.go','	msg.Frames = append([][]byte{nil}, msg.Frames...)\n','	if len(msg.Frames) > 1 {\n		msg.Frames = append([][]byte{nil}, msg.Frames...)\n	}\n')]),
('C08','bug','rep no request',[('rep.go','	if conn == nil {\n		return fmt.Errorf("zmq4: no request to reply to")\n	}','	if conn == nil {\n		return nil\n	}')]),
('C08','bug','rep no request queued',[('rep.go','	if conn == nil {\n		return fmt.Errorf("zmq4: no request to reply to")\n	}','	if conn == nil && preamble == nil {\n		return fmt.Errorf("zmq4: no request to reply to")\n	}')]),
('C08','bug','rep default',[('rep.go','	case r.sendCh <- repSendPayload{conn, preamble, msg}:\n		return nil\n','	case r.sendCh <- repSendPayload{conn, preamble, msg}:\n		return nil\n	default:\n		return nil\n')]),
('C08','bug','rep ctx nil',[('rep.go','	case <-r.ctx.Done(): // repWriter.run() terminates on this, sendCh <- will not complete\n		return r.ctx.Err()','	case <-r.ctx.Done(): // repWriter.run() terminates on this, sendCh <- will not complete\n		return nil')]),
('C08','bug','drops frame',[('pair.go','	return pair.sck.Send(msg)','	return pair.sck.Send(NewMsgFrom(msg.Frames[:1]...))')]),
('C08','bug','fire and forget',[('msgio.go','		grp.Go(func() error {\n			return ww.SendMsg(msg)\n		})','		grp.Go(func() error {\n			_ = ww.SendMsg(msg)\n			return nil\n		})')]),
('C08','same','sequential',[('msgio.go','''	for i := range ws {
		ww := ws[i]
		grp.Go(func() error {
			return ww.SendMsg(msg)
		})
	}
	return grp.Wait()''','''	for _, ww := range ws {
		deliver(grp, ww, msg)
	}
	err = grp.Wait()
	if err != nil {
		return err
	}
	return nil'''),('msgio.go','type semaphore struct','func deliver(grp *errgrp.Group, c *Conn, msg Msg) {\n	grp.Go(func() error { return c.SendMsg(msg) })\n}\n\ntype semaphore struct')]),
('C08','same','req frames built by hand',[('req.go','	msg.Frames = append([][]byte{nil}, msg.Frames...)\n','	frames := make([][]byte, 0, len(msg.Frames)+1)\n	frames = append(frames, []byte{})\n	frames = append(frames, msg.Frames...)\n	msg.Frames = frames\n')]),
('C08','same','req frames copied',[('req.go','	msg.Frames = append([][]byte{nil}, msg.Frames...)\n','	frames := make([][]byte, len(msg.Frames)+1)\n	copy(frames[1:], msg.Frames)\n	msg.Frames = frames\n')]),
('C08','same','rep state first',[('rep.go','	if err := ctx.Err(); err != nil {\n		return err\n	}\n	// A','	select {\n	case <-ctx.Done():\n		return ctx.Err()\n	default:\n	}\n	// A')]),
('C08','same','first success is enough',[('msgio.go','''	grp, _ := errgrp.WithContext(ctx)
	for i := range ws {
		ww := ws[i]
		grp.Go(func() error {
			return ww.SendMsg(msg)
		})
	}
	return grp.Wait()''','''	for i := range ws {
		ww := ws[i]
		grp, _ := errgrp.WithContext(ctx)
		grp.Go(func() error {
			return ww.SendMsg(msg)
		})
		if err = grp.Wait(); err == nil {
			return nil
		}
	}
	return err''')]),
]
