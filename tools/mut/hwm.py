def b(n,*e): return ('C39','bug',n,list(e))
def s(n,*e): return ('C39','same',n,list(e))
PB='pub.go'
MK='	c := make(chan Msg, mw.hwm.Load())\n'
WR='''		select {
		case <-ctx.Done():
			return ctx.Err()
		case channel <- msg: // proceeds to default case if the channel is full (msg will be discarded)
		default:
		}
'''
M=[
b('room for one more',(PB,MK,'	c := make(chan Msg, mw.hwm.Load()+1)\n')),
b('fixed capacity',(PB,MK,'	c := make(chan Msg, DefaultSendHwm)\n')),
b('at least sixteen',(PB,MK,'	c := make(chan Msg, max(mw.hwm.Load(), 16))\n')),
b('at most sixteen',(PB,MK,'	c := make(chan Msg, min(mw.hwm.Load(), 16))\n')),
b('default smaller',(PB,'	p.hwm.Store(DefaultSendHwm)\n','	p.hwm.Store(DefaultSendHwm / 10)\n')),
b('default not set',(PB,'	p.hwm.Store(DefaultSendHwm)\n','')),
b('option not applied',(PB,'	w.hwm.Store(int64(hwm))\n','	_ = w\n')),
b('only raised',(PB,'	w.hwm.Store(int64(hwm))\n','	if int64(hwm) > w.hwm.Load() {\n		w.hwm.Store(int64(hwm))\n	}\n')),
b('only first time',(PB,'	w.hwm.Store(int64(hwm))\n','	w.hwm.CompareAndSwap(DefaultSendHwm, int64(hwm))\n')),
b('as a byte',(PB,'	w.hwm.Store(int64(hwm))\n','	w.hwm.Store(int64(uint8(hwm)))\n')),
b('discard oldest',(PB,WR,WR.replace('		default:\n','''		default:
			select {
			case <-channel:
			default:
			}
			select {
			case channel <- msg:
			default:
			}
'''))),
b('drops early',(PB,WR,'		if len(channel)+1 >= cap(channel) && cap(channel) > 1 {\n			continue\n		}\n'+WR)),
b('drops when more than half full',(PB,WR,'		if len(channel) > cap(channel)/2 {\n			continue\n		}\n'+WR)),
b('one full queue drops for all',(PB,'	for _, channel := range w.subscribers {\n','	for _, channel := range w.subscribers {\n		if len(channel) == cap(channel) {\n			return nil\n		}\n	}\n	for _, channel := range w.subscribers {\n')),
b('waits when full',(PB,WR,WR.replace('		default:\n',''))),
b('fails when full',(PB,WR,WR.replace('		default:\n','		default:\n			return ErrBadProperty\n'))),
b('one message taken by the goroutine before the queue',(PB,'	mw.subscribers[w] = c\n','	in := make(chan Msg, mw.hwm.Load())\n	mw.subscribers[w] = in\n	go func() {\n		defer close(c)\n		for m := range in {\n			c <- m\n		}\n	}()\n')),
s('length looked at first',(PB,WR,'		if len(channel) >= cap(channel) {\n			continue\n		}\n'+WR)),
s('helper for the queue',(PB,MK,'	c := mw.queue()\n'),(PB,'func (mw *pubMWriter) rmConn','func (mw *pubMWriter) queue() chan Msg {\n	n := int(mw.hwm.Load())\n	return make(chan Msg, n)\n}\n\nfunc (mw *pubMWriter) rmConn')),
s('mark under the lock',(PB,'	hwm atomic.Int64\n','	hwm int\n'),(PB,'	p.hwm.Store(DefaultSendHwm)\n','	p.hwm = DefaultSendHwm\n'),(PB,'	w.hwm.Store(int64(hwm))\n','	w.mu.Lock()\n	w.hwm = hwm\n	w.mu.Unlock()\n'),(PB,MK,'	c := make(chan Msg, mw.hwm)\n'),(PB,'	"sync/atomic"\n','')),
s('method offers',(PB,WR,'''		if err := offer(ctx, channel, msg); err != nil {
			return err
		}
'''),(PB,'func (w *pubMWriter) write','''func offer(ctx context.Context, c chan<- Msg, msg Msg) error {
	select {
	case <-ctx.Done():
		return ctx.Err()
	case c <- msg:
	default:
	}
	return nil
}

func (w *pubMWriter) write''')),
s('context looked at once',(PB,WR,'''		select {
		case channel <- msg:
		default:
		}
'''),(PB,'	for _, channel := range w.subscribers {\n','	if err := ctx.Err(); err != nil {\n		return err\n	}\n	for _, channel := range w.subscribers {\n')),
]
