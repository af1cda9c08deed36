T='networking/transport.go'
def b(n,*e): return ('C32','bug',n,[(T,)+x for x in e])
def s(n,*e): return ('C32','same',n,[(T,)+x for x in e])
PROC='''	var message Message
	if err := json.Unmarshal(data, &message); err != nil {
		// Silently drop malformed messages
		t.msgDropped.Add(1)
		return
	}
'''
DISP='''	t.mu.RLock()
	handler, ok := t.handlers[message.Type]
	t.mu.RUnlock()

	if ok && handler != nil {
		// Call handler in goroutine to avoid blocking
		go handler(&message)
	}
}'''
RTR='''			// Router socket includes identity frame
			if msg.Frames != nil && len(msg.Frames) > 0 {
				// Last frame contains the actual message
				t.processMessage(msg.Frames[len(msg.Frames)-1])
			}
'''
RERR='''			msg, err := t.router.Recv()
			if err != nil {
				if err == context.Canceled || err == context.DeadlineExceeded {
					return
				}
				// Transient error, continue
				continue
			}
'''
SERR=RERR.replace('router','sub')
DLIST='''	// Remove from peers list
	newPeers := make([]string, 0, len(t.peers))
	for _, p := range t.peers {
		if p != peerID {
			newPeers = append(newPeers, p)
		}
	}
	t.peers = newPeers
'''
DCL='''	if dealer, ok := t.dealers[peerID]; ok {
		dealer.Close()
		delete(t.dealers, peerID)
	}
'''
STOP='''	close(t.stopCh)
	t.cancel()
	t.wg.Wait()

	// Close sockets
	t.pub.Close()
	t.sub.Close()
	t.router.Close()

	// Close dealer sockets
	t.mu.Lock()
	for _, dealer := range t.dealers {
		dealer.Close()
	}
	t.mu.Unlock()
'''
CHK='''	for _, p := range t.peers {
		if p == peerID {
			t.mu.Unlock()
			return nil // Already connected
		}
	}
'''
CONN='''	if t.connecting[peerID] {
		t.mu.Unlock()
		return fmt.Errorf("already connecting to %s", peerID)
	}
'''
ST='''	if t.ctx.Err() != nil {
		dealer.Close()
		return fmt.Errorf("transport stopped while connecting to %s", peerID)
	}
'''
ADD='''	t.dealers[peerID] = dealer
	t.peers = append(t.peers, peerID)
'''
M=[
b('first frame',('msg.Frames[len(msg.Frames)-1]','msg.Frames[0]')),
b('second frame only if two',('if msg.Frames != nil && len(msg.Frames) > 0 {','if len(msg.Frames) > 2 {')),
b('own direct ignored',(' && message.To == ""','')),
b('broadcasts to nobody ignored',('message.From == t.nodeID && message.To == ""','message.From == t.nodeID || message.To == ""')),
b('dropped not counted',('		t.msgDropped.Add(1)\n','')),
b('dropped counts all',('	t.msgReceived.Add(1)\n','	t.msgReceived.Add(1)\n	t.msgDropped.Add(1)\n')),
b('bad ones handled',('		t.msgDropped.Add(1)\n		return\n','		t.msgDropped.Add(1)\n')),
b('one message for all',('	var message Message\n','	message := &t.last\n'),('handler(&message)','handler(message)'),('json.Unmarshal(data, &message)','json.Unmarshal(data, message)'),('	stopCh   chan struct{}\n','	stopCh   chan struct{}\n	last     Message\n')),
b('router ends on error',(RERR,RERR.replace('				// Transient error, continue\n				continue','				return'))),
b('sub ends on error',(SERR,SERR.replace('				// Transient error, continue\n				continue','				return'))),
b('error counted as message',(SERR,SERR.replace('				continue\n','				t.processMessage(nil)\n				continue\n'))),
b('handled twice',('go handler(&message)','go handler(&message)\n		if message.To != "" {\n			go handler(&message)\n		}')),
b('nil handler',('if ok && handler != nil','if ok')),
b('first handler stays',('	t.handlers[msgType] = handler','	if _, ok := t.handlers[msgType]; !ok {\n		t.handlers[msgType] = handler\n	}')),
b('unregister keeps',('	delete(t.handlers, msgType)','	if msgType == "" {\n		delete(t.handlers, msgType)\n	}')),
b('unregister all',('	delete(t.handlers, msgType)','	t.handlers = make(map[string]MessageHandler)')),
b('no handlers map',('		handlers: make(map[string]MessageHandler),\n','')),
b('no dealers map',('		dealers:  make(map[string]zmq4.Socket),\n','')),
b('no connecting map',('		connecting: make(map[string]bool),\n','')),
b('no stopCh',('		stopCh:     make(chan struct{}),\n','')),
b('peer stays listed',(DLIST,'')),
b('others unlisted',('		if p != peerID {\n			newPeers','		if p == peerID {\n			newPeers')),
b('dealer stays',('		dealer.Close()\n		delete(t.dealers, peerID)','		dealer.Close()')),
b('dealer not closed',('	if dealer, ok := t.dealers[peerID]; ok {\n		dealer.Close()\n','	if _, ok := t.dealers[peerID]; ok {\n')),
b('listed first',('	t.connecting[peerID] = true\n','	t.connecting[peerID] = true\n	t.peers = append(t.peers, peerID)\n'),('	t.dealers[peerID] = dealer\n	t.peers = append(t.peers, peerID)','	t.dealers[peerID] = dealer')),
b('connecting kept after error',('	delete(t.connecting, peerID)\n	if err != nil {\n		return err\n	}\n','	if err != nil {\n		return err\n	}\n	delete(t.connecting, peerID)\n')),
b('connecting never deleted',('	delete(t.connecting, peerID)\n','')),
b('connecting not set',('	t.connecting[peerID] = true\n','')),
b('no ctx check',(ST,'')),
b('ctx check leaks',(ST,ST.replace('		dealer.Close()\n',''))),
b('dial error leaks',('	if err := dealer.Dial(routerAddr); err != nil {\n		dealer.Close()\n','	if err := dealer.Dial(routerAddr); err != nil {\n')),
b('dial error ignored',('	if err := dealer.Dial(routerAddr); err != nil {\n		dealer.Close()\n		return nil,','	if err := dealer.Dial(routerAddr); err != nil {\n		return dealer,'),('	if err != nil {\n		return err\n	}\n	if t.ctx','	if err != nil && dealer == nil {\n		return err\n	}\n	if t.ctx')),
b('dealer dialed later',('	if err := dealer.Dial(routerAddr); err != nil {\n		dealer.Close()','	if err := t.sub.Dial(routerAddr); err != nil {\n		dealer.Close()')),
b('stop twice',('	t.stopOnce.Do(t.stop)','	t.stop()')),
b('stop leaves dealers',('	for _, dealer := range t.dealers {\n		dealer.Close()\n	}\n','')),
b('stop leaves router',('	t.router.Close()\n','')),
b('stop dealers first',(STOP,'''	t.mu.Lock()
	for _, dealer := range t.dealers {
		dealer.Close()
	}
	t.mu.Unlock()

	close(t.stopCh)
	t.cancel()
	t.wg.Wait()

	// Close sockets
	t.pub.Close()
	t.sub.Close()
	t.router.Close()
''')),
b('stop locks while connecting flag',('	t.cancel()\n	t.wg.Wait()\n','	t.wg.Wait()\n	defer t.cancel()\n')),
b('already connected dials again',(CHK,'')),
b('already connected is an error',('			return nil // Already connected','			return fmt.Errorf("already connected")')),
b('disconnect removes first',(DLIST,'''	if len(t.peers) > 0 {
		t.peers = t.peers[1:]
	}
''')),
b('getpeers misses one',('	peers := make([]string, len(t.peers))\n	copy(peers, t.peers)','	peers := make([]string, len(t.peers))\n	copy(peers, t.peers[:len(t.peers)/2+1-1+len(t.peers)%2])')),
b('to not set',('	msg.To = peerID\n','')),
b('send to any',('	dealer, ok := t.dealers[peerID]\n	t.mu.RUnlock()\n','	dealer, ok := t.dealers[peerID]\n	if !ok {\n		for _, d := range t.dealers {\n			dealer, ok = d, true\n		}\n	}\n	t.mu.RUnlock()\n')),
b('ids as types',('t.handlers[message.Type]','t.handlers[message.From]')),
b('from not checked against node',('message.From == t.nodeID','message.From == message.To')),
b('sub bytes second',('			t.processMessage(msg.Bytes())','			t.processMessage(msg.Frames[len(msg.Frames)-1][1:])')),
b('disconnect replaced connect',(ADD,'''	if old, ok := t.dealers[peerID]; ok {
		old.Close()
	}
	t.dealers[peerID] = dealer
	if len(t.peers) == 0 {
		t.peers = append(t.peers, peerID)
	}
''')),
s('err loop',('''	for {
		select {
		case <-t.stopCh:
			return
		case <-t.ctx.Done():
			return
		default:
			msg, err := t.sub.Recv()
			if err != nil {
				if err == context.Canceled || err == context.DeadlineExceeded {
					return
				}
				// Transient error, continue
				continue
			}

			t.processMessage(msg.Bytes())
		}
	}
''','''	for t.ctx.Err() == nil {
		msg, err := t.sub.Recv()
		switch {
		case err == nil:
			t.processMessage(msg.Bytes())
		case errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded):
			return
		}
	}
'''),('	"encoding/json"\n','	"encoding/json"\n	"errors"\n')),
s('slices',(DLIST,'	t.peers = slices.DeleteFunc(t.peers, func(p string) bool { return p == peerID })\n'),('	"fmt"\n','	"fmt"\n	"slices"\n'),(CHK,'	if slices.Contains(t.peers, peerID) {\n		t.mu.Unlock()\n		return nil // Already connected\n	}\n')),
s('shared loop',('''		default:
			msg, err := t.sub.Recv()
			if err != nil {
				if err == context.Canceled || err == context.DeadlineExceeded {
					return
				}
				// Transient error, continue
				continue
			}

			t.processMessage(msg.Bytes())
''','''		default:
			if !t.receive(t.sub, func(msg zmq4.Msg) { t.processMessage(msg.Bytes()) }) {
				return
			}
'''),(RERR+'\n'+RTR,'''			if !t.receive(t.router, func(msg zmq4.Msg) {
				if n := len(msg.Frames); n > 0 {
					t.processMessage(msg.Frames[n-1])
				}
			}) {
				return
			}
'''),('// processMessage handles','''func (t *Transport) receive(sck zmq4.Socket, handle func(zmq4.Msg)) bool {
	msg, err := sck.Recv()
	if err == context.Canceled || err == context.DeadlineExceeded {
		return false
	}
	if err == nil {
		handle(msg)
	}
	return true
}

// processMessage handles''')),
s('goroutine literal',('		go handler(&message)\n','		go func() {\n			handler(&message)\n		}()\n')),
s('wait group go',('	t.wg.Add(2)\n	go t.subLoop()\n	go t.routerLoop()\n','	t.wg.Add(1)\n	go t.subLoop()\n	t.wg.Add(1)\n	go func() { t.routerLoop() }()\n')),
s('decode helper',(PROC,'''	message, err := decode(data)
	if err != nil {
		t.msgDropped.Add(1)
		return
	}
'''),('go handler(&message)','go handler(message)'),('// processMessage handles','''func decode(data []byte) (*Message, error) {
	m := new(Message)
	if err := json.Unmarshal(data, m); err != nil {
		return nil, err
	}
	return m, nil
}

// processMessage handles''')),
s('handler lookup',(DISP,'''	if handler := t.handlerFor(message.Type); handler != nil {
		go handler(&message)
	}
}

func (t *Transport) handlerFor(typ string) MessageHandler {
	t.mu.RLock()
	defer t.mu.RUnlock()
	return t.handlers[typ]
}''')),
s('early return',('	if ok && handler != nil {\n		// Call handler in goroutine to avoid blocking\n		go handler(&message)\n	}\n','	if !ok || handler == nil {\n		return\n	}\n	go handler(&message)\n')),
s('in its goroutine',('		// Call handler in goroutine to avoid blocking\n		go handler(&message)\n','		handler(&message)\n')),
s('peers from dealers',('	peers := make([]string, len(t.peers))\n	copy(peers, t.peers)\n	return peers','	peers := make([]string, 0, len(t.dealers))\n	for p := range t.dealers {\n		peers = append(peers, p)\n	}\n	return peers'),(CHK,'	if _, ok := t.dealers[peerID]; ok {\n		t.mu.Unlock()\n		return nil\n	}\n'),(DLIST,''),('	t.dealers[peerID] = dealer\n	t.peers = append(t.peers, peerID)','	t.dealers[peerID] = dealer'),('	peers    []string\n','')),
s('append copy',('	peers := make([]string, len(t.peers))\n	copy(peers, t.peers)\n	return peers','	return append([]string(nil), t.peers...)')),
s('clone',('	peers := make([]string, len(t.peers))\n	copy(peers, t.peers)\n	return peers','	return slices.Clone(t.peers)'),('	"fmt"\n','	"fmt"\n	"slices"\n')),
s('index loop',(DLIST,'''	for i, p := range t.peers {
		if p == peerID {
			t.peers = append(t.peers[:i], t.peers[i+1:]...)
			break
		}
	}
''')),
s('disconnect unlocks first',(DCL,'''	dealer, ok := t.dealers[peerID]
	delete(t.dealers, peerID)
	if ok {
		defer dealer.Close()
	}
''')),
s('stop steps',(STOP,'''	t.halt()

	for _, sck := range []zmq4.Socket{t.pub, t.sub, t.router} {
		sck.Close()
	}

	t.mu.Lock()
	defer t.mu.Unlock()
	for _, dealer := range t.dealers {
		dealer.Close()
	}
}

func (t *Transport) halt() {
	close(t.stopCh)
	t.cancel()
	t.wg.Wait()
''')),
s('check helper',(CHK+CONN+'	t.connecting[peerID] = true\n	t.mu.Unlock()\n','''	t.mu.Unlock()
	done, err := t.begin(peerID)
	if done || err != nil {
		return err
	}
'''),('// dialPeer dials','''func (t *Transport) begin(peerID string) (bool, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	for _, p := range t.peers {
		if p == peerID {
			return true, nil
		}
	}
	if t.connecting[peerID] {
		return false, fmt.Errorf("already connecting to %s", peerID)
	}
	t.connecting[peerID] = true
	return false, nil
}

// dialPeer dials''')),
s('received later',('	t.msgReceived.Add(1)\n',''),('	t.mu.RLock()\n	handler, ok := t.handlers','	defer t.msgReceived.Add(1)\n	t.mu.RLock()\n	handler, ok := t.handlers')),
s('own helper',('	if message.From == t.nodeID && message.To == "" {','	if t.own(&message) {'),('// processMessage handles','func (t *Transport) own(m *Message) bool { return m.To == "" && m.From == t.nodeID }\n\n// processMessage handles')),
s('queue of handlers',('		// Call handler in goroutine to avoid blocking\n		go handler(&message)\n','		t.run(handler, &message)\n'),('// processMessage handles','func (t *Transport) run(h MessageHandler, m *Message) {\n	go func(h MessageHandler, m *Message) { h(m) }(h, m)\n}\n\n// processMessage handles')),
s('send helper',('	data, err := json.Marshal(msg)\n	if err != nil {\n		return fmt.Errorf("failed to marshal message: %w", err)\n	}\n\n	t.msgSent.Add(1)\n	return dealer.Send(zmq4.NewMsg(data))','	return t.sendOn(dealer, msg)'),('// SendWithRetry sends','''func (t *Transport) sendOn(sck zmq4.Socket, msg *Message) error {
	data, err := json.Marshal(*msg)
	if err != nil {
		return err
	}
	t.msgSent.Add(1)
	return sck.Send(zmq4.NewMsgFrom(data))
}

// SendWithRetry sends''')),
s('peers map',('	peers    []string\n','	peers    map[string]struct{}\n'),('		connecting: make(map[string]bool),\n','		connecting: make(map[string]bool),\n		peers:      map[string]struct{}{},\n'),(CHK,'	if _, ok := t.peers[peerID]; ok {\n		t.mu.Unlock()\n		return nil\n	}\n'),(DLIST,'	delete(t.peers, peerID)\n'),('	t.peers = append(t.peers, peerID)','	t.peers[peerID] = struct{}{}'),('	peers := make([]string, len(t.peers))\n	copy(peers, t.peers)\n	return peers','	peers := make([]string, 0, len(t.peers))\n	for p := range t.peers {\n		peers = append(peers, p)\n	}\n	return peers')),
]
