W=('msgio.go','''	for i := range ws {
		ww := ws[i]
		grp.Go(func() error {
			return ww.SendMsg(msg)
		})
	}
	return grp.Wait()
''')
def b(n,new): return ('C01','bug','local '+n,[W+(new,)])
def s(n,new,*e): return ('C01','same','local '+n,[W+(new,)]+list(e))
I=('msgio.go','	errgrp "github.com/luxfi/zmq/v4/internal/errgroup"\n')
M=[
b('reused variable','''	var ww *Conn
	for i := range ws {
		ww = ws[i]
		grp.Go(func() error {
			return ww.SendMsg(msg)
		})
	}
	return grp.Wait()
'''),
b('first error without a lock','''	var first error
	for i := range ws {
		ww := ws[i]
		grp.Go(func() error {
			if err := ww.SendMsg(msg); err != nil {
				first = err
			}
			return nil
		})
	}
	if err := grp.Wait(); err != nil {
		return err
	}
	return first
'''),
b('counted without a lock','''	n := 0
	for i := range ws {
		ww := ws[i]
		n++
		grp.Go(func() error {
			if n == 0 {
				return nil
			}
			return ww.SendMsg(msg)
		})
	}
	return grp.Wait()
'''),
b('read before the wait','''	var done bool
	if len(ws) == 1 {
		grp.Go(func() error {
			err := ws[0].SendMsg(msg)
			done = err == nil
			return err
		})
		if done {
			return nil
		}
		return grp.Wait()
	}
	for i := range ws {
		ww := ws[i]
		grp.Go(func() error {
			return ww.SendMsg(msg)
		})
	}
	return grp.Wait()
'''),
b('two goroutines','''	failed := 0
	go func() {
		for _, ww := range ws[1:] {
			if ww.SendMsg(msg) != nil {
				failed++
			}
		}
	}()
	grp.Go(func() error {
		if err := ws[0].SendMsg(msg); err != nil {
			failed++
			return err
		}
		return nil
	})
	return grp.Wait()
'''),
s('read after the wait','''	var sent error
	if len(ws) == 1 {
		grp.Go(func() error {
			sent = ws[0].SendMsg(msg)
			return nil
		})
		if err := grp.Wait(); err != nil {
			return err
		}
		return sent
	}
	for i := range ws {
		ww := ws[i]
		grp.Go(func() error {
			return ww.SendMsg(msg)
		})
	}
	return grp.Wait()
'''),
s('first error under a lock','''	var mu sync.Mutex
	var first error
	for _, ww := range ws {
		grp.Go(func() error {
			err := ww.SendMsg(msg)
			if err != nil {
				mu.Lock()
				defer mu.Unlock()
				if first == nil {
					first = err
				}
			}
			return err
		})
	}
	if err := grp.Wait(); err != nil {
		mu.Lock()
		defer mu.Unlock()
		return first
	}
	return nil
'''),
s('errors in a list','''	errs := make([]error, len(ws))
	var wg sync.WaitGroup
	for i, ww := range ws {
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[i] = ww.SendMsg(msg)
		}()
	}
	wg.Wait()
	_ = grp
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
'''),
s('channel','''	done := make(chan struct{})
	var err2 error
	go func() {
		defer close(done)
		for _, ww := range ws {
			if err := ww.SendMsg(msg); err != nil {
				err2 = err
			}
		}
	}()
	<-done
	_ = grp
	return err2
'''),
s('function made before','''	for i := range ws {
		ww := ws[i]
		send := func() error { return ww.SendMsg(msg) }
		grp.Go(send)
	}
	return grp.Wait()
'''),
]
