M = []
def add(c,k,name,*edits): M.append((c,k,name,list(edits)))
S='socket.go'
RM='''	sck.conns = append(sck.conns[:cur], sck.conns[cur+1:]...)
	if sck.r != nil {
		sck.r.rmConn(c)
	}
	if sck.w != nil {
		sck.w.rmConn(c)
	}'''
SC='''	sck.reaperCond.L.Lock()
	sck.closedConns = append(sck.closedConns, c)
	sck.reaperCond.Signal()
	sck.reaperCond.L.Unlock()
'''
LOOP='''		for len(sck.closedConns) == 0 && sck.ctx.Err() == nil {
			sck.reaperCond.Wait()
		}

		if sck.ctx.Err() != nil {
			return
		}
'''
CC='''		cc := append([]*Conn{}, sck.closedConns...) // clone
		sck.closedConns = sck.closedConns[:0]
		sck.reaperCond.L.Unlock()
		for _, c := range cc {
			sck.rmConn(c)
			c.Close()
		}
		sck.reaperCond.L.Lock()
'''
b=lambda n,*e: add('C17','bug',n,*e)
s=lambda n,*e: add('C17','same',n,*e)
b('no-r-rm',(S,RM,RM.replace('		sck.r.rmConn(c)','		_ = c')))
b('no-w-rm',(S,RM,RM.replace('		sck.w.rmConn(c)','		_ = c')))
b('swap-last',(S,RM,RM.replace('sck.conns = append(sck.conns[:cur], sck.conns[cur+1:]...)','sck.conns[cur] = sck.conns[len(sck.conns)-1]\n	sck.conns = sck.conns[:cur]')))
b('truncate',(S,RM,RM.replace('append(sck.conns[:cur], sck.conns[cur+1:]...)','sck.conns[:cur]')))
b('off-by-one',(S,RM,RM.replace('sck.conns[cur+1:]','sck.conns[cur+1:len(sck.conns)-1]')))
b('no-close',(S,CC,CC.replace('			c.Close()\n','')))
b('close-if-open',(S,CC,CC.replace('			c.Close()\n','			if !c.Closed() {\n				c.Close()\n			}\n')))
b('one-only',(S,CC,CC.replace('		cc := append([]*Conn{}, sck.closedConns...) // clone','		cc := append([]*Conn{}, sck.closedConns[:1]...)')))
b('clear-late',(S,CC,CC.replace('		sck.closedConns = sck.closedConns[:0]\n','').replace('		sck.reaperCond.L.Lock()\n','		sck.reaperCond.L.Lock()\n		sck.closedConns = sck.closedConns[:0]\n')))
b('alias',(S,CC,CC.replace('append([]*Conn{}, sck.closedConns...) // clone','sck.closedConns')))
b('wait-if',(S,LOOP,LOOP.replace('for len(sck','if len(sck').replace(' == 0 &&',' >= 0 &&')))
b('signal-missed',(S,LOOP,LOOP.replace('		for len(sck.closedConns) == 0 && sck.ctx.Err() == nil {\n			sck.reaperCond.Wait()\n		}\n','		sck.reaperCond.Wait()\n')))
b('returns-on-empty',(S,LOOP,LOOP.replace('		for len(sck.closedConns) == 0 && sck.ctx.Err() == nil {\n			sck.reaperCond.Wait()\n		}\n','		if len(sck.closedConns) == 0 {\n			sck.reaperStarted = false\n			return\n		}\n')))
b('no-signal',(S,SC,SC.replace('	sck.reaperCond.Signal()\n','')))
b('signal-first-only',(S,SC,SC.replace('	sck.reaperCond.Signal()\n','	if len(sck.closedConns) > 1 {\n		sck.reaperCond.Signal()\n	}\n')))
b('overwrite',(S,SC,SC.replace('append(sck.closedConns, c)','[]*Conn{c}')))
b('dedupe-drop',(S,SC,SC.replace('	sck.closedConns = append(sck.closedConns, c)\n','	if len(sck.closedConns) < 16 {\n		sck.closedConns = append(sck.closedConns, c)\n	}\n')))
b('unlocked',(S,SC,SC.replace('	sck.reaperCond.L.Lock()\n','').replace('	sck.reaperCond.L.Unlock()\n','')))
b('no-reaper-listen',(S,'''	go sck.accept(l, endpoint)
	sck.startReaper()
''','''	go sck.accept(l, endpoint)
'''))
b('no-reaper-dial',(S,'	sck.startReaper()\n	sck.addConn(zconn)','	sck.addConn(zconn)'))
b('reaper-flag-early',(S,'''	if sck.reaperStarted {
		return
	}
	sck.reaperStarted = true
	go sck.connReaper()''','''	if sck.reaperStarted || len(sck.closedConns) > 0 {
		return
	}
	sck.reaperStarted = true
	go sck.connReaper()'''))
b('accept-no-cb',(S,'sck.id, true, sck.scheduleRmConn)','sck.id, true, nil)'))
b('dial-cb-norm',(S,'		sck.scheduleRmConn(c)\n','		if !sck.autoReconnect {\n			sck.scheduleRmConn(c)\n		}\n'))
b('mw-off',('msgio.go','mw.ws = append(mw.ws[:cur], mw.ws[cur+1:]...)','mw.ws = append(mw.ws[:0], mw.ws[cur+1:]...)'))
b('q-rm-first',('msgio.go','''		if q.rs[i] == r {
			cur = i
			break''','''		if q.rs[i].Closed() {
			cur = i
			break'''))
b('pub-nodelete',('pub.go','		delete(mw.subscribers, w)\n',''))
b('pub-clear',('pub.go','		delete(mw.subscribers, w)\n','		clear(mw.subscribers)\n'))
b('req-only-last',('req.go','''	if cur >= 0 {
		r.conns = append''','''	if cur > 0 {
		r.conns = append'''))
b('rep-last',('rep.go','''func (r *repWriter) rmConn(conn *Conn) {
	r.mu.Lock()
	defer r.mu.Unlock()

	cur := -1
	for i := range r.conns {''','''func (r *repWriter) rmConn(conn *Conn) {
	r.mu.Lock()
	defer r.mu.Unlock()

	cur := -1
	for i := range r.conns[1:] {'''))
b('router-ws',('router.go','''	if cur >= 0 {
		mw.ws = append(mw.ws[:cur], mw.ws[cur+1:]...)
	}''','''	if cur >= 0 && len(mw.ws) > 1 && cur < len(mw.ws)-1 {
		mw.ws = append(mw.ws[:cur], mw.ws[cur+1:]...)
	}'''))
b('rmconn-early',(S,'	if cur == -1 {\n		return\n	}\n\n	sck.conns','	if cur <= 0 {\n		return\n	}\n\n	sck.conns'))
b('add-replaces',(S,'	sck.conns = append(sck.conns, c)\n','	sck.conns = append(sck.conns[:0], c)\n'))
b('add-no-w',(S,'	if sck.w != nil {\n		sck.w.addConn(c)\n	}\n','	if sck.w != nil && c.typ != Pull {\n		sck.w.addConn(c)\n	}\n'))
b('ctx-exit',(S,LOOP,LOOP.replace('if sck.ctx.Err() != nil {\n			return','if sck.ctx.Err() != nil || sck.listener == nil {\n			return')))
s('slices',(S,RM,RM.replace('append(sck.conns[:cur], sck.conns[cur+1:]...)','slices.Delete(sck.conns, cur, cur+1)')),(S,'	"sort"\n','	"slices"\n	"sort"\n'))
s('fresh',(S,RM,RM.replace('	sck.conns = append(sck.conns[:cur], sck.conns[cur+1:]...)\n','''	rest := make([]*Conn, 0, len(sck.conns)-1)
	for i, o := range sck.conns {
		if i != cur {
			rest = append(rest, o)
		}
	}
	sck.conns = rest
''')))
s('copy',(S,RM,RM.replace('	sck.conns = append(sck.conns[:cur], sck.conns[cur+1:]...)\n','''	copy(sck.conns[cur:], sck.conns[cur+1:])
	sck.conns[len(sck.conns)-1] = nil
	sck.conns = sck.conns[:len(sck.conns)-1]
''')))
s('nil-list',(S,CC,CC.replace('append([]*Conn{}, sck.closedConns...) // clone','sck.closedConns').replace('sck.closedConns[:0]','nil')))
s('close-first',(S,CC,CC.replace('			sck.rmConn(c)\n			c.Close()\n','			c.Close()\n			sck.rmConn(c)\n')))
s('helper',(S,CC,CC.replace('			sck.rmConn(c)\n			c.Close()\n','			sck.bury(c)\n')),(S,'func (sck *socket) connReaper() {','func (sck *socket) bury(c *Conn) {\n	sck.rmConn(c)\n	_ = c.Close()\n}\n\nfunc (sck *socket) connReaper() {'))
s('helper-take',(S,CC,CC.replace('''		cc := append([]*Conn{}, sck.closedConns...) // clone
		sck.closedConns = sck.closedConns[:0]
''','''		cc := sck.takeClosed()
''')),(S,'func (sck *socket) connReaper() {','func (sck *socket) takeClosed() []*Conn {\n	cc := make([]*Conn, len(sck.closedConns))\n	copy(cc, sck.closedConns)\n	sck.closedConns = sck.closedConns[:0]\n	return cc\n}\n\nfunc (sck *socket) connReaper() {'))
s('one-at-a-time',(S,CC,CC.replace('''		cc := append([]*Conn{}, sck.closedConns...) // clone
		sck.closedConns = sck.closedConns[:0]
		sck.reaperCond.L.Unlock()
		for _, c := range cc {
			sck.rmConn(c)
			c.Close()
		}
''','''		c := sck.closedConns[0]
		sck.closedConns = sck.closedConns[1:]
		sck.reaperCond.L.Unlock()
		sck.rmConn(c)
		c.Close()
''')))
s('broadcast',(S,SC,SC.replace('Signal','Broadcast')))
s('defer-unlock',(S,SC,SC.replace('	sck.reaperCond.L.Unlock()\n','').replace('L.Lock()\n','L.Lock()\n	defer sck.reaperCond.L.Unlock()\n')))
s('signal-after',(S,SC,SC.replace('	sck.reaperCond.Signal()\n	sck.reaperCond.L.Unlock()\n','	sck.reaperCond.L.Unlock()\n	sck.reaperCond.Signal()\n')))
s('shared-rm',('msgio.go','''	cur := -1
	for i := range q.rs {
		if q.rs[i] == r {
			cur = i
			break
		}
	}
	if cur >= 0 {
		q.rs = append(q.rs[:cur], q.rs[cur+1:]...)
	}
}''','''	q.rs = without(q.rs, r)
}

func without(cs []*Conn, c *Conn) []*Conn {
	for i, o := range cs {
		if o == c {
			return append(cs[:i], cs[i+1:]...)
		}
	}
	return cs
}'''))
s('once-flag',(S,'''	sck.reaperCond.L.Lock()
	defer sck.reaperCond.L.Unlock()
	if sck.reaperStarted {
		return
	}
	sck.reaperStarted = true
	go sck.connReaper()''','''	sck.reaperCond.L.Lock()
	start := !sck.reaperStarted
	sck.reaperStarted = true
	sck.reaperCond.L.Unlock()
	if start {
		go sck.connReaper()
	}'''))
# C18
CB='''		sck.scheduleRmConn(c)
		if sck.autoReconnect {
			// The caller may be in the middle of sending or receiving.
			go sck.Dial(endpoint)
		}
'''
b=lambda n,*e: add('C18','bug',n,*e)
s=lambda n,*e: add('C18','same',n,*e)
b('sync',(S,CB,CB.replace('go sck','sck')))
b('always',(S,CB,CB.replace('if sck.autoReconnect {','{')))
b('inverted',(S,CB,CB.replace('if sck.auto','if !sck.auto')))
b('never',(S,CB,CB.replace('			go sck.Dial(endpoint)\n','')))
b('ep-field',(S,CB,CB.replace('Dial(endpoint)','Dial(sck.ep)')))
b('addr',(S,CB,CB.replace('Dial(endpoint)','Dial(addr)')))
b('only-if-conns',(S,CB,CB.replace('if sck.autoReconnect {','if sck.autoReconnect && sck.listener == nil {')))
b('accepted',(S,'	zconn, err := Open(conn, sck.sec, sck.typ, sck.id, true, sck.scheduleRmConn)','''	zconn, err := Open(conn, sck.sec, sck.typ, sck.id, true, func(c *Conn) {
		sck.scheduleRmConn(c)
		if sck.autoReconnect {
			go sck.Dial(ep)
		}
	})'''))
b('failed-handshake',(S,'''		conn.Close()
		return fmt.Errorf("zmq4: could not open a ZMTP connection: %w", err)''','''		conn.Close()
		if sck.autoReconnect {
			go sck.Dial(endpoint)
		}
		return fmt.Errorf("zmq4: could not open a ZMTP connection: %w", err)'''))
b('cb-early',('conn.go','''		topics: make(map[string]struct{}),
	}
	conn.Meta''','''		topics: make(map[string]struct{}),
		onCloseErrorCB: onCloseErrorCB,
	}
	conn.Meta'''))
b('reader-redial',('socket.go','			sck.rmConn(c)\n			c.Close()\n','			sck.rmConn(c)\n			c.Close()\n			if sck.autoReconnect && !c.Server {\n				go sck.Dial(sck.ep)\n			}\n'))
b('sleep',(S,CB,CB.replace('			go sck','			time.Sleep(sck.retry)\n			go sck')))
b('loop-var',(S,CB,CB.replace('go sck.Dial(endpoint)','go sck.Dial(sck.lastDial)')),(S,'	isClosed      bool','	lastDial string\n	isClosed      bool'),(S,'	var (\n		conn      net.Conn\n','	sck.mu.Lock()\n	sck.lastDial = endpoint\n	sck.mu.Unlock()\n	var (\n		conn      net.Conn\n'))
b('twice',(S,CB,CB.replace('			go sck.Dial(endpoint)\n','			go sck.Dial(endpoint)\n			go sck.Dial(endpoint)\n')))
b('other-socket-accept',(S,'		conn.Close()\n		return\n	}\n\n	sck.addConn(zconn)','		conn.Close()\n		go sck.Dial(ep)\n		return\n	}\n\n	sck.addConn(zconn)'))
s('helper',(S,CB,'		sck.lost(c, endpoint)\n'),(S,'func (sck *socket) addConn(','func (sck *socket) lost(c *Conn, endpoint string) {\n	sck.scheduleRmConn(c)\n	if sck.autoReconnect {\n		go sck.Dial(endpoint)\n	}\n}\n\nfunc (sck *socket) addConn('))
s('logging',(S,CB,CB.replace('go sck.Dial(endpoint)','go func() {\n				if err := sck.Dial(endpoint); err != nil {\n					sck.log.Printf("%v", err)\n				}\n			}()')))
s('early',(S,CB,'''		sck.scheduleRmConn(c)
		if !sck.autoReconnect {
			return
		}
		go sck.Dial(endpoint)
'''))
s('order',(S,CB,'''		if sck.autoReconnect {
			go sck.Dial(endpoint)
		}
		sck.scheduleRmConn(c)
'''))
s('closed-check',(S,CB,CB.replace('go sck.Dial(endpoint)','go func() {\n				sck.mu.RLock()\n				closed := sck.isClosed\n				sck.mu.RUnlock()\n				if !closed {\n					_ = sck.Dial(endpoint)\n				}\n			}()')))
s('named',(S,'''false, func(c *Conn) {
'''+CB+'''	})''','''false, sck.onLost(endpoint))'''),(S,'func (sck *socket) addConn(','func (sck *socket) onLost(endpoint string) func(*Conn) {\n	return func(c *Conn) {\n'+CB+'	}\n}\n\nfunc (sck *socket) addConn('))
