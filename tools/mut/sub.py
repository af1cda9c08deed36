S='sub.go'; K='socket.go'; W='msgio.go'
SW='''	switch name {
	case OptionSubscribe:
		sub.subscribe(k, 1)
		topic = append([]byte{1}, k...)

	case OptionUnsubscribe:
		topic = append([]byte{0}, k...)
		sub.subscribe(k, 0)
	}

	sub.sck.mu.RLock()
	connected := len(sub.sck.conns) > 0
	sub.sck.mu.RUnlock()
	if connected {
		err = sub.Send(NewMsg(topic))
	}
	return err
'''
ADD='''	sck.conns = append(sck.conns, c)
	if len(c.Peer'''
WADD='''	if sck.w != nil {
		sck.w.addConn(c)
	}
	if sck.r != nil {
		sck.r.addConn(c)
	}
'''
GET='''	// Get topics to resend while holding the lock
	var topics []string
	if sck.subTopics != nil {
		topics = sck.subTopics()
	}
'''
REPLAY='''	for _, topic := range topics {
		_ = sck.Send(NewMsg(append([]byte{1}, topic...)))
	}
'''
M=[
 ('C21','bug','recorded after the check',[(S,SW,'''	switch name {
	case OptionSubscribe:
		topic = append([]byte{1}, k...)
	case OptionUnsubscribe:
		topic = append([]byte{0}, k...)
	}
	sub.sck.mu.RLock()
	connected := len(sub.sck.conns) > 0
	sub.sck.mu.RUnlock()
	if name == OptionSubscribe {
		sub.subscribe(k, 1)
	} else {
		sub.subscribe(k, 0)
	}
	if connected {
		err = sub.Send(NewMsg(topic))
	}
	return err
''')]),
 ('C21','bug','recorded after the send',[(S,SW,'''	v := 0
	if name == OptionSubscribe {
		v = 1
	}
	topic = append([]byte{byte(v)}, k...)
	sub.sck.mu.RLock()
	connected := len(sub.sck.conns) > 0
	sub.sck.mu.RUnlock()
	if connected {
		err = sub.Send(NewMsg(topic))
	}
	sub.subscribe(k, v)
	return err
''')]),
 ('C21','bug','recorded only if sent',[(S,SW,SW.replace('''		sub.subscribe(k, 1)
		topic = append([]byte{1}''','''		topic = append([]byte{1}''').replace('	return err\n','	if err == nil && name == OptionSubscribe {\n		sub.subscribe(k, 1)\n	}\n	return err\n'))]),
 ('C21','bug','unsubscription not recorded',[(S,'		sub.subscribe(k, 0)\n','')]),
 ('C21','bug','unsubscription not sent',[(S,'	if connected {','	if connected && name == OptionSubscribe {')]),
 ('C21','same','topics read before registered, in one section',[(K,ADD,GET+ADD),(K,WADD+GET,WADD)]),
 ('C21','bug','topics read before the lock',[(K,'''func (sck *socket) addConn(c *Conn) {
	sck.mu.Lock()
''','''func (sck *socket) addConn(c *Conn) {
'''+GET+'''	sck.mu.Lock()
'''),(K,WADD+GET,WADD)]),
 ('C21','bug','topics read and registered in two steps',[(K,ADD,GET+'	sck.mu.Unlock()\n	sck.mu.Lock()\n'+ADD),(K,WADD+GET,WADD)]),
 ('C21','bug','registered with the writer after the replay',[(K,WADD,'''	if sck.r != nil {
		sck.r.addConn(c)
	}
'''),(K,REPLAY,'''	for _, topic := range topics {
		_ = sck.Send(NewMsg(append([]byte{1}, topic...)))
	}
	if sck.w != nil {
		sck.w.addConn(c)
	}
''')]),
 ('C21','bug','only the first topic',[(K,REPLAY,REPLAY.replace('	}\n','		break\n	}\n'))]),
 ('C21','bug','replay stops at an error',[(K,REPLAY,'''	for _, topic := range topics {
		if err := sck.Send(NewMsg(append([]byte{1}, topic...))); err != nil {
			break
		}
	}
''')]),
 ('C21','bug','empty topic not replayed',[(K,REPLAY,REPLAY.replace('		_ = sck','		if topic == "" {\n			continue\n		}\n		_ = sck'))]),
 ('C21','bug','replayed with the wrong command',[(K,REPLAY,REPLAY.replace('{1}','{0}'))]),
 ('C21','bug','replay for the first connection only',[(K,'	if sck.subTopics != nil {\n','	if sck.subTopics != nil && len(sck.conns) == 1 {\n')]),
 ('C21','bug','no replay on accepted connections',[(K,'''	sck.addConn(zconn)
}

// Dial''','''	sck.addAccepted(zconn)
}

func (sck *socket) addAccepted(c *Conn) {
	t := sck.subTopics
	sck.subTopics = nil
	sck.addConn(c)
	sck.subTopics = t
}

// Dial''')]),
 ('C21','bug','one topic per socket',[(S,'		sub.topics[topic] = struct{}{}\n','		sub.topics = map[string]struct{}{topic: {}}\n')]),
 ('C21','bug','all topics forgotten',[(S,'		delete(sub.topics, topic)\n','		sub.topics = make(map[string]struct{})\n')]),
 ('C21','bug','topics of the connections',[(S,'	sub.sck.subTopics = sub.Topics\n','	sub.sck.subTopics = sub.sck.topics\n')]),
 ('C21','bug','sent to the first only',[(W,'''	for i := range ws {
		ww := ws[i]
		grp.Go(func() error {
			return ww.SendMsg(msg)
		})
	}
''','''	ww := ws[0]
	grp.Go(func() error {
		return ww.SendMsg(msg)
	})
''')]),
 ('C21','bug','sent until one fails',[(W,'''	grp, _ := errgrp.WithContext(ctx)
	for i := range ws {
		ww := ws[i]
		grp.Go(func() error {
			return ww.SendMsg(msg)
		})
	}
	return grp.Wait()
''','''	for _, ww := range ws {
		if err := ww.SendMsg(msg); err != nil {
			return err
		}
	}
	return nil
'''),(W,'','\nvar _ = errgrp.WithContext\n')]),
 ('C21','bug','topics cleared with a lost connection',[(K,'''	if cur == -1 {
		return
	}
''','''	if cur == -1 {
		return
	}
	if sck.typ == Sub && len(sck.conns) == 1 {
		sck.subTopics = nil
	}
''')]),
 ('C21','bug','a lost connection stays the first',[(S,'	connected := len(sub.sck.conns) > 0\n','	connected := len(sub.sck.conns) > 1\n')]),
 ('C21','same','one critical section',[(S,SW,SW.replace('''	sub.sck.mu.RLock()
	connected := len(sub.sck.conns) > 0
	sub.sck.mu.RUnlock()
	if connected {
		err = sub.Send(NewMsg(topic))
	}
	return err
''','''	if !sub.connected() {
		return nil
	}
	return sub.Send(NewMsg(topic))
'''))
   ,(S,'// Topics returns the sorted','''func (sub *subSocket) connected() bool {
	sub.sck.mu.RLock()
	defer sub.sck.mu.RUnlock()
	return len(sub.sck.conns) != 0
}

// Topics returns the sorted''')]),
 ('C21','same','replayed to the new connection alone',[(K,REPLAY,'''	for _, topic := range topics {
		_ = c.SendMsg(NewMsg(append([]byte{1}, topic...)))
	}
''')]),
 ('C21','same','topics read after the lock',[(K,GET+'	sck.mu.Unlock()\n','	sck.mu.Unlock()\n'+GET)]),
 ('C21','same','reader first',[(K,WADD,'''	if sck.r != nil {
		sck.r.addConn(c)
	}
	if sck.w != nil {
		sck.w.addConn(c)
	}
''')]),
 ('C21','same','helper for the messages',[(K,REPLAY,'''	for _, topic := range topics {
		_ = sck.Send(subscription(topic))
	}
'''),(K,'','''
func subscription(topic string) Msg {
	b := make([]byte, 0, 1+len(topic))
	b = append(b, 1)
	b = append(b, topic...)
	return NewMsg(b)
}
''')]),
 ('C21','same','made with copy',[(K,REPLAY,'''	for i := 0; i < len(topics); i++ {
		b := make([]byte, 1+len(topics[i]))
		b[0] = 1
		copy(b[1:], topics[i])
		_ = sck.Send(NewMsg(b))
	}
''')]),
 ('C21','same','deferred unlock',[(S,'''	sub.mu.Lock()
	switch v {
	case 0:
		delete(sub.topics, topic)
	case 1:
		sub.topics[topic] = struct{}{}
	}
	sub.mu.Unlock()
''','''	sub.mu.Lock()
	defer sub.mu.Unlock()
	if v == 1 {
		sub.topics[topic] = struct{}{}
		return
	}
	delete(sub.topics, topic)
''')]),
 ('C21','same','empty struct values',[(S,'''	topics map[string]struct{}
''','''	topics map[string]bool
'''),(S,'make(map[string]struct{})','make(map[string]bool)'),(S,'sub.topics[topic] = struct{}{}','sub.topics[topic] = true')]),
]
