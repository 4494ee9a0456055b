# Refactorings of the synchronization.
from refs import ref
STOP1186 = '''	if fr.stopIsForced {
		fr.inputError = io.EOF
'''
acc = [("Format", "format", "format Format"), ("MemoryLevel", "mlevel", ""), ("WindowBits", "wbits", "")]
ref("sync-rwmutex", [
 ("reader.go", "	mu1 sync.Mutex\n", "	mu1 sync.RWMutex\n"),
] + [("reader.go", f"	fr.mu1.Lock()\n	{v} := fr.{v}\n	fr.mu1.Unlock()\n	return {v}\n", f"	fr.mu1.RLock()\n	defer fr.mu1.RUnlock()\n	return fr.{v}\n") for v in ("format", "mlevel", "wbits", "r")] + [
 ("reader.go", "	var tracers []Tracer\n	fr.mu1.Lock()\n	if len(fr.tracers) != 0 {\n		tracers = make([]Tracer, len(fr.tracers))\n		copy(tracers, fr.tracers)\n	}\n	fr.mu1.Unlock()\n	return tracers\n", "	fr.mu1.RLock()\n	defer fr.mu1.RUnlock()\n	return append([]Tracer(nil), fr.tracers...)\n"),
 ("writer.go", "	mu sync.Mutex\n", "	mu sync.RWMutex\n"),
] + [("writer.go", f"	fw.mu.Lock()\n	{v} := fw.{v}\n	fw.mu.Unlock()\n	return {v}\n", f"	fw.mu.RLock()\n	defer fw.mu.RUnlock()\n	return fw.{v}\n") for v in ("format", "method", "strategy", "clevel", "mlevel", "wbits", "w")])
ref("sync-onecond", [
 ("reader.go", "	fr.cv1 = sync.NewCond(&fr.mu2)\n	fr.cv2 = sync.NewCond(&fr.mu2)\n", "	fr.cv1 = sync.NewCond(&fr.mu2)\n	fr.cv2 = fr.cv1\n"),
 ("reader.go", '''	if fr.outputError == nil && fr.outputBuffer.IsEmpty() {
		fr.cv2.Signal()
''', '''	if fr.outputError == nil && fr.outputBuffer.IsEmpty() {
		fr.cv2.Broadcast()
'''),
 ("reader.go", '''	if fr.outputBuffer.IsEmpty() {
		fr.cv2.Signal()
	} else {
		fr.cv1.Signal()
	}
''', '''	fr.cv1.Broadcast()
'''),
 ("reader.go", '''			fr.cv1.Signal()
		}
		fr.mu2.Unlock()
''', '''			fr.cv1.Broadcast()
		}
		fr.mu2.Unlock()
'''),
])
ref("sync-flag", [
 ("reader.go", "	stopIsForced         bool\n", ""),
 ("reader.go", STOP1186, STOP1186.replace("fr.stopIsForced", "atomic.LoadInt32(&fr.stopIsForced) != 0")),
 ("reader.go", "	// wg keeps track", "	// stopIsForced is accessed atomically.\n	stopIsForced int32\n\n	// wg keeps track"),
 ("reader.go", '''	if fr.stopIsForced {
		fr.decodeBuffer.Clear()
		return
	}

	size''', '''	if atomic.LoadInt32(&fr.stopIsForced) != 0 {
		fr.decodeBuffer.Clear()
		return
	}

	size'''),
 ("reader.go", '''		if fr.stopIsForced {
			fr.decodeBuffer.Clear()
			return
		}

		p :=''', '''		if atomic.LoadInt32(&fr.stopIsForced) != 0 {
			fr.decodeBuffer.Clear()
			return
		}

		p :='''),
 ("reader.go", "		fr.stopIsForced = true\n", "		atomic.StoreInt32(&fr.stopIsForced, 1)\n"),
 ("reader.go", '	"sync"\n', '	"sync"\n	"sync/atomic"\n'),
 ("reader.go", "	fr.stopIsForced = false\n", "	atomic.StoreInt32(&fr.stopIsForced, 0)\n"),
])
ref("sync-helpers", [
 ("reader.go", '''	fr.mu2.Lock()
	defer fr.mu2.Unlock()

	if fr.outputError == nil && fr.outputBuffer.IsEmpty() {
		fr.cv2.Signal()
		for fr.outputError == nil && fr.outputBuffer.IsEmpty() {
			fr.cv1.Wait()
		}
	}

	if fr.outputBuffer.IsEmpty() {
		return 0, fr.outputError
	}

	nn, _ := fr.outputBuffer.Read(p)

	if fr.outputBuffer.IsEmpty() {
		fr.cv2.Signal()
	} else {
		fr.cv1.Signal()
	}

	return nn, nil
}
''', '''	fr.mu2.Lock()
	fr.awaitOutput()
	if fr.outputBuffer.IsEmpty() {
		err := fr.outputError
		fr.mu2.Unlock()
		return 0, err
	}
	nn, _ := fr.outputBuffer.Read(p)
	wake := fr.cv1
	if fr.outputBuffer.IsEmpty() {
		wake = fr.cv2
	}
	fr.mu2.Unlock()
	wake.Signal()
	return nn, nil
}

func (fr *Reader) awaitOutput() {
	waiting := func() bool { return fr.outputError == nil && fr.outputBuffer.IsEmpty() }
	if waiting() {
		fr.cv2.Signal()
	}
	for waiting() {
		fr.cv1.Wait()
	}
}
'''),
 ("reader.go", '''		fr.mu1.Unlock()
		fr.mu2.Lock()
		for fr.outputBuffer.IsFull() {
			fr.cv2.Wait()
		}
		fr.mu2.Unlock()
		fr.mu1.Lock()
''', '''		func() {
			fr.mu1.Unlock()
			defer fr.mu1.Lock()
			fr.mu2.Lock()
			defer fr.mu2.Unlock()
			for fr.outputBuffer.IsFull() {
				fr.cv2.Wait()
			}
		}()
'''),
 ("reader.go", '''		fr.cv1.Broadcast()
		fr.cv2.Broadcast()
		fr.mu2.Unlock()
''', '''		fr.mu2.Unlock()
		fr.cv1.Broadcast()
		fr.cv2.Broadcast()
'''),
 ("reader.go", '''	fr.outputError = err
	fr.cv1.Broadcast()
	fr.mu2.Unlock()
''', '''	fr.outputError = err
	fr.mu2.Unlock()
	fr.cv1.Broadcast()
'''),
 ("writer.go", '''	fw.mu.Lock()
	defer fw.mu.Unlock()

	if fw.state == closedWriterState {
		return fs.ErrClosed
	}

	if fw.state == errorWriterState {
		return fw.err
	}

	if !fw.flushImpl(flushType) {
		return fw.err
	}

	return nil
}
''', '''	return fw.locked(func() error {
		switch {
		case fw.state == closedWriterState:
			return fs.ErrClosed
		case fw.state == errorWriterState, !fw.flushImpl(flushType):
			return fw.err
		}
		return nil
	})
}

func (fw *Writer) locked(f func() error) error {
	fw.mu.Lock()
	defer fw.mu.Unlock()
	return f()
}
'''),
])
ref("sync-once", [
 ("reader.go", '''	fr.mu1.Lock()
	if !fr.readThreadWasStarted {
		fr.readThreadWasStarted = true
		fr.wg.Add(1)
		go fr.readThread()
	}
	fr.mu1.Unlock()
''', '''	fr.mu1.Lock()
	once := fr.starter
	fr.mu1.Unlock()

	once.Do(func() {
		fr.mu1.Lock()
		defer fr.mu1.Unlock()
		if !fr.readThreadWasStarted {
			fr.readThreadWasStarted = true
			fr.wg.Add(1)
			go fr.readThread()
		}
	})
'''),
 ("reader.go", "	tmp [4]byte\n", "	tmp [4]byte\n\n	starter *sync.Once\n"),
 ("reader.go", "	fr.cv1 = sync.NewCond(&fr.mu2)\n", "	fr.starter = new(sync.Once)\n	fr.cv1 = sync.NewCond(&fr.mu2)\n"),
 ("reader.go", "	fr.readThreadWasStarted = false\n", "	fr.readThreadWasStarted = false\n	fr.starter = new(sync.Once)\n"),
])
