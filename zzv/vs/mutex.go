package vs

// Mu is a mutex of the controlled runtime.
type Mu struct {
	held bool
	wid  int
	vc   vclock
}

func (m *Mu) sync() {
	if W != nil && m.wid != W.ID {
		m.wid, m.held, m.vc = W.ID, false, nil
	}
}

func (m *Mu) Lock() {
	w := W
	if w == nil || w.dead() {
		return
	}
	m.sync()
	w.point()
	w.block("Mutex.Lock", func() bool { return !m.held })
	if w.dead() {
		return
	}
	m.held = true
	w.acquire(m.vc)
}

func (m *Mu) TryLock() bool {
	w := W
	if w == nil || w.dead() {
		return true
	}
	m.sync()
	w.point()
	if m.held {
		return false
	}
	m.held = true
	w.acquire(m.vc)
	return true
}

func (m *Mu) Unlock() {
	w := W
	if w == nil || w.dead() {
		return
	}
	m.sync()
	if !m.held {
		w.abort("panic", "fatal error: sync: unlock of unlocked mutex")
	}
	m.held = false
	w.release(&m.vc)
	w.point()
}

// RW is a readers-writer mutex of the controlled runtime (a waiting writer blocks new readers, as in Go).
type RW struct {
	readers int
	writer  bool
	waiting int
	wid     int
	wc, rc  vclock // published by writers, by readers
}

func (m *RW) sync() {
	if W != nil && m.wid != W.ID {
		*m = RW{wid: W.ID}
	}
}

func (m *RW) Lock() {
	w := W
	if w == nil || w.dead() {
		return
	}
	m.sync()
	w.point()
	m.waiting++
	w.block("RWMutex.Lock", func() bool { return !m.writer && m.readers == 0 })
	if w.dead() {
		return
	}
	m.waiting--
	m.writer = true
	w.acquire(m.wc)
	w.acquire(m.rc)
}

func (m *RW) Unlock() {
	w := W
	if w == nil || w.dead() {
		return
	}
	m.sync()
	if !m.writer {
		w.abort("panic", "fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	w.release(&m.wc)
	w.point()
}

func (m *RW) RLock() {
	w := W
	if w == nil || w.dead() {
		return
	}
	m.sync()
	w.point()
	w.block("RWMutex.RLock", func() bool { return !m.writer && m.waiting == 0 })
	if w.dead() {
		return
	}
	m.readers++
	w.acquire(m.wc)
}

func (m *RW) RUnlock() {
	w := W
	if w == nil || w.dead() {
		return
	}
	m.sync()
	if m.readers == 0 {
		w.abort("panic", "fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	w.release(&m.rc)
	w.point()
}

func (m *RW) TryLock() bool {
	w := W
	if w == nil || w.dead() {
		return true
	}
	m.sync()
	w.point()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	w.acquire(m.wc)
	w.acquire(m.rc)
	return true
}

func (m *RW) TryRLock() bool {
	w := W
	if w == nil || w.dead() {
		return true
	}
	m.sync()
	w.point()
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	w.acquire(m.wc)
	return true
}
