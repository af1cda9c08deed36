P='pub.go'; C='conn.go'
SUBD='''	for k := range conn.topics {
		switch {
		case k == "":
			// subscribed to everything
			return true
		case strings.HasPrefix(topic, k):
			return true
		}
	}
	return false
'''
SUB='''	v := msg.Frames[0]
	k := string(v[1:])
	switch v[0] {
	case 0:
		delete(conn.topics, k)
	case 1:
		conn.topics[k] = struct{}{}
	}
'''
WR='''	for _, channel := range w.subscribers {
		select {
		case <-ctx.Done():
			return ctx.Err()
		case channel <- msg: // proceeds to default case if the channel is full (msg will be discarded)
		default:
		}
	}
	return nil
'''
GO='''				var topic string
				if len(msg.Frames) > 0 {
					topic = string(msg.Frames[0])
				}
				if w.subscribed(topic) {
					_ = w.SendMsg(msg)
				}
'''
M = [
 ('C19','bug','no filter',[(P,'				if w.subscribed(topic) {\n','				if true || w.subscribed(topic) {\n')]),
 ('C19','bug','filter on last frame',[(P,'topic = string(msg.Frames[0])','topic = string(msg.Frames[len(msg.Frames)-1])')]),
 ('C19','bug','suffix',[(C,'strings.HasPrefix(topic, k)','strings.HasSuffix(topic, k)')]),
 ('C19','bug','reversed prefix',[(C,'strings.HasPrefix(topic, k)','strings.HasPrefix(k, topic)')]),
 ('C19','bug','exact match',[(C,'strings.HasPrefix(topic, k)','topic == k && strings.HasPrefix(topic, k)')]),
 ('C19','bug','empty topic matches nothing',[(C,'''			// subscribed to everything
			return true
''','''			// subscribed to everything
			return topic != ""
''')]),
 ('C19','bug','empty topic alone',[(C,'''		case k == "":
			// subscribed to everything
			return true
''','''		case k == "":
			// subscribed to everything
			return len(conn.topics) == 1
''')]),
 ('C19','bug','first topic decides',[(C,SUBD,'''	for k := range conn.topics {
		return k == "" || strings.HasPrefix(topic, k)
	}
	return false
''')]),
 ('C19','bug','unsubscribe clears',[(C,'		delete(conn.topics, k)\n','		_ = k\n		conn.topics = map[string]struct{}{}\n')]),
 ('C19','bug','unsubscribe ignored',[(C,'		delete(conn.topics, k)\n','		_ = k\n')]),
 ('C19','bug','unsubscribe with prefix',[(C,'		delete(conn.topics, k)\n','		for t := range conn.topics {\n			if strings.HasPrefix(t, k) || true {\n				delete(conn.topics, t)\n			}\n		}\n')]),
 ('C19','bug','subscribe replaces',[(C,'		conn.topics[k] = struct{}{}\n','		conn.topics = map[string]struct{}{k: {}}\n')]),
 ('C19','bug','topic with command byte',[(C,'k := string(v[1:])','k := string(v)')]),
 ('C19','bug','empty topic ignored',[(C,'	k := string(v[1:])\n','	k := string(v[1:])\n	if k == "" {\n		conn.mu.Unlock()\n		return\n	}\n')]),
 ('C19','bug','delivered too',[(P,'			r.subscribe(msg)\n			continue\n','			r.subscribe(msg)\n')]),
 ('C19','bug','two-frame message subscribes',[(P,'	if len(msg.Frames) != 1 {','	if len(msg.Frames) == 0 {')]),
 ('C19','bug','command 2 subscribes',[(P,'return topic == 0 || topic == 1','return topic <= 2'),(C,'	case 1:\n		conn.topics','	default:\n		conn.topics')]),
 ('C19','bug','unsubscription delivered',[(P,'return topic == 0 || topic == 1','return topic == 1')]),
 ('C19','bug','all connections subscribed',[(P,'			r.subscribe(msg)\n','			q.mu.RLock()\n			for _, c := range q.rs {\n				c.subscribe(msg)\n			}\n			q.mu.RUnlock()\n')]),
 ('C19','bug','topics shared',[(C,'		topics: make(map[string]struct{}),','		topics: sharedTopics,'),(C,'','\nvar sharedTopics = make(map[string]struct{})\n')]),
 ('C19','bug','twice',[(P,'					_ = w.SendMsg(msg)\n','					_ = w.SendMsg(msg)\n					_ = w.SendMsg(msg)\n')]),
 ('C19','bug','only first frame',[(P,'_ = w.SendMsg(msg)','_ = w.SendMsg(NewMsg(msg.Frames[0]))')]),
 ('C19','bug','stops after first subscriber',[(P,'''		default:
		}
	}
	return nil
}''','''		default:
		}
		if len(msg.Frames) > 3 {
			break
		}
	}
	return nil
}''')]),
 ('C19','same','one condition',[(C,SUBD,'''	for k := range conn.topics {
		if strings.HasPrefix(topic, k) {
			return true
		}
	}
	return false
''')]),
 ('C19','same','manual prefix',[(C,SUBD,'''	for k := range conn.topics {
		if len(topic) >= len(k) && topic[:len(k)] == k {
			return true
		}
	}
	return false
'''),(C,'	"strings"\n','')]),
 ('C19','same','all topic first',[(C,SUBD,'''	if _, all := conn.topics[""]; all {
		return true
	}
	for k := range conn.topics {
		if strings.HasPrefix(topic, k) {
			return true
		}
	}
	return false
''')]),
 ('C19','same','defer unlock',[(C,SUB+'	conn.mu.Unlock()\n','	defer conn.mu.Unlock()\n'+SUB)]),
 ('C19','same','if instead of switch',[(C,SUB,'''	if frame := msg.Frames[0]; frame[0] == 1 {
		conn.topics[string(frame[1:])] = struct{}{}
	} else if frame[0] == 0 {
		delete(conn.topics, string(frame[1:]))
	}
''')]),
 ('C19','same','send in helper',[(P,GO,'				w.publish(msg)\n'),(C,'','''
func (c *Conn) publish(msg Msg) {
	topic := ""
	if len(msg.Frames) != 0 {
		topic = string(msg.Frames[0])
	}
	if !c.subscribed(topic) {
		return
	}
	if err := c.SendMsg(msg); err != nil {
		return
	}
}
''')]),
 ('C19','same','filter before queue',[(P,'''	for _, channel := range w.subscribers {
		select {''','''	topic := ""
	if len(msg.Frames) > 0 {
		topic = string(msg.Frames[0])
	}
	for conn, channel := range w.subscribers {
		if !conn.subscribed(topic) {
			continue
		}
		select {''')]),
 ('C19,C20','same','writer method',[(P,'''	go func() {
		for {
			select {
			case <-mw.ctx.Done():
				return
			case msg, ok := <-c:
				if !ok {
					return
				}
				var topic string
				if len(msg.Frames) > 0 {
					topic = string(msg.Frames[0])
				}
				if w.subscribed(topic) {
					_ = w.SendMsg(msg)
				}
			}
		}
	}()
}
''','''	go mw.drain(w, c)
}

func (mw *pubMWriter) drain(conn *Conn, queue <-chan Msg) {
	for {
		var msg Msg
		ok := false
		select {
		case <-mw.ctx.Done():
			return
		case msg, ok = <-queue:
		}
		if !ok {
			return
		}
		topic := ""
		if len(msg.Frames) > 0 {
			topic = string(msg.Frames[0])
		}
		if conn.subscribed(topic) {
			_ = conn.SendMsg(msg)
		}
	}
}
''')]),
 ('C20','bug','blocking send',[(P,'''		case channel <- msg: // proceeds to default case if the channel is full (msg will be discarded)
		default:
''','''		case channel <- msg:
''')]),
 ('C20','bug','full ends the loop',[(P,'''		default:
		}
	}
	return nil
}''','''		default:
			return nil
		}
	}
	return nil
}''')]),
 ('C20','bug','full is an error',[(P,'''		default:
		}
	}
	return nil
}''','''		default:
			full = true
		}
	}
	if full {
		return ErrBadProperty
	}
	return nil
}'''),(P,'	for _, channel := range w.subscribers {','	full := false\n	for _, channel := range w.subscribers {')]),
 ('C20','bug','written by Send',[(P,WR,'''	for conn := range w.subscribers {
		var topic string
		if len(msg.Frames) > 0 {
			topic = string(msg.Frames[0])
		}
		if conn.subscribed(topic) {
			_ = conn.SendMsg(msg)
		}
	}
	return nil
''')]),
 ('C20','bug','retry until room',[(P,WR,'''	for _, channel := range w.subscribers {
		for sent := false; !sent; {
			select {
			case <-ctx.Done():
				return ctx.Err()
			case channel <- msg:
				sent = true
			default:
			}
		}
	}
	return nil
''')]),
 ('C20','bug','one queue for all',[(P,'	c := make(chan Msg, mw.hwm.Load())\n','''	c := make(chan Msg, mw.hwm.Load())
	for _, shared := range mw.subscribers {
		c = shared
	}
''')]),
 ('C20','bug','full for one drops the rest',[(P,WR,'''	for _, channel := range w.subscribers {
		if len(channel) == cap(channel) && cap(channel) > 0 {
			return nil
		}
	}
'''+WR)]),
 ('C20','same','helper for the queue',[(P,WR,'''	for _, channel := range w.subscribers {
		if err := offer(ctx, channel, msg); err != nil {
			return err
		}
	}
	return nil
'''),(P,'','''
func offer(ctx context.Context, queue chan<- Msg, msg Msg) error {
	select {
	case <-ctx.Done():
		return ctx.Err()
	default:
	}
	select {
	case queue <- msg:
	default: // full
	}
	return nil
}
''')]),
 ('C20','same','snapshot of the queues',[(P,WR,'''	queues := make([]chan Msg, 0, len(w.subscribers))
	for _, channel := range w.subscribers {
		queues = append(queues, channel)
	}
	for _, channel := range queues {
		select {
		case <-ctx.Done():
			return ctx.Err()
		case channel <- msg:
		default:
		}
	}
	return nil
''')]),
]
