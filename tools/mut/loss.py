# What the loss of one connection does to the others.
F={'msgio r':('msgio.go','q.rs = append(q.rs[:cur], q.rs[cur+1:]...)','C17'),
 'msgio w':('msgio.go','mw.ws = append(mw.ws[:cur], mw.ws[cur+1:]...)','C17'),
 'pub r':('pub.go','q.rs = append(q.rs[:cur], q.rs[cur+1:]...)','C17'),
 'rep r':('rep.go','r.conns = append(r.conns[:cur], r.conns[cur+1:]...)','C17'),
 'req w':('req.go','r.conns = append(r.conns[:cur], r.conns[cur+1:]...)','C23'),
 'router r':('router.go','q.rs = append(q.rs[:cur], q.rs[cur+1:]...)','C17'),
 'router w':('router.go','mw.ws = append(mw.ws[:cur], mw.ws[cur+1:]...)','C17'),
 'socket':('socket.go','sck.conns = append(sck.conns[:cur], sck.conns[cur+1:]...)','C17'),
}
M=[]
for n,(f,o,c) in F.items():
    v=o.split(' =')[0]
    M.append((c,'bug','loss '+n+' drops the later ones',[(f,o,v+' = '+v+'[:cur]')]))
    M.append((c,'bug','loss '+n+' drops the last',[(f,o,v+' = '+v+'[:len('+v+')-1]')]))
    M.append((c,'same','loss '+n+' by copy',[(f,o,v+' = append('+v+'[:cur:cur], '+v+'[cur+1:]...)')]))
M+=[('C41','bug','loss of one subscriber ends all',[('pub.go','''	if channel, ok := mw.subscribers[w]; ok {
		_ = w.Close()
		delete(mw.subscribers, w)
		close(channel)
	}
''','''	if _, ok := mw.subscribers[w]; ok {
		_ = w.Close()
		for k, channel := range mw.subscribers {
			delete(mw.subscribers, k)
			close(channel)
		}
	}
''')]),
('C41','bug','loss turns the writer off',[('msgio.go','''	if len(mw.ws) == 0 {
		mw.sem.disable()''','''	if len(mw.ws) <= 1 {
		mw.sem.disable()''')]),
]

M+=[('C41','bug','writer not turned on again',[('msgio.go','	mw.sem.enable()\n','	if cap(mw.ws) <= 1 {\n		mw.sem.enable()\n	}\n')]),
('C41','bug','reader starts a new semaphore',[('msgio.go','	if cur >= 0 {\n		q.rs = append(q.rs[:cur], q.rs[cur+1:]...)\n	}\n','	if cur >= 0 {\n		q.rs = append(q.rs[:cur], q.rs[cur+1:]...)\n	}\n	if len(q.rs) == 1 {\n		q.sem = newSemaphore()\n	}\n')]),
]
OLD='''	cur := -1
	for i := range mw.ws {
		if mw.ws[i] == w {
			cur = i
			break
		}
	}
	if cur >= 0 {
		mw.ws = append(mw.ws[:cur], mw.ws[cur+1:]...)
	}
'''
M+=[('C41','same','index by helper',[('msgio.go',OLD,'''	if cur := connIndex(mw.ws, w); cur >= 0 {
		mw.ws = append(mw.ws[:cur], mw.ws[cur+1:]...)
	}
'''),('msgio.go','','''
func connIndex(conns []*Conn, w *Conn) int {
	for i, c := range conns {
		if c == w {
			return i
		}
	}
	return -1
}
''')]),
('C41','same','new list without it',[('msgio.go',OLD,'''	var ws []*Conn
	for _, c := range mw.ws {
		if c != w {
			ws = append(ws, c)
		}
	}
	mw.ws = ws
''')]),
]
