D='bootstrap/cache/disk_cache.go'
C='bootstrap/cache/memory_cache.go'
M=[
('bad','C12',[(C,'if expiry.Before(time.Now()) {','if expiry.After(time.Now()) {')]),
('bad','C12',[(C,'	m.cache[filename] = make([]byte, len(data))\n	copy(m.cache[filename], data)\n','	m.cache[filename] = data\n')]),
('bad','C12',[(C,'	result := make([]byte, len(data))\n	copy(result, data)\n\n	return result, nil','	return data, nil')]),
('bad','C12',[(C,'	copy(result, data)\n','')]),
('bad','C12',[(C,'	m.mtime[filename] = time.Now()\n','	if _, ok := m.mtime[filename]; !ok {\n		m.mtime[filename] = time.Now()\n	}\n')]),
('bad','C12',[(C,'	if !ok {\n		return nil,','	if !ok && len(m.cache) > 0 {\n		return nil,')]),
('bad','C12',[(C,'		return Absent\n','		return Expired\n')]),
('bad','C12',[(C,'mtime.Add(m.Timeout)','mtime.Add(time.Hour)')]),
('bad','C12',[(C,'Timeout: time.Hour * 24','Timeout: time.Minute * 24')]),
('bad','C12',[(C,'	m.mtime[filename] = time.Now()\n','	m.mtime[filename] = time.Now().Add(m.Timeout)\n')]),
('bad','C12',[(D,'time.Now().Add(-d.Timeout)','time.Now().Add(d.Timeout)')]),
('bad','C12',[(D,'haveLoaded && !fileModTime.After(lastLoadedModTime)','haveLoaded || !fileModTime.After(lastLoadedModTime)')]),
('bad','C12',[(D,'haveLoaded && !fileModTime.After(lastLoadedModTime)','haveLoaded && !lastLoadedModTime.IsZero()')]),
('bad','C12',[(D,'haveLoaded && !fileModTime.After(lastLoadedModTime)','haveLoaded && fileModTime.After(lastLoadedModTime)')]),
('bad','C12',[(D,'haveLoaded && !fileModTime.After(lastLoadedModTime)','haveLoaded && lastLoadedModTime.After(fileModTime)')]),
('bad','C12',[(D,'''	d.lastLoadedModTime[filename] = fileModTime

	return bytes, nil''','''	_ = fileModTime
	return bytes, nil''')]),
('bad','C12',[(D,'''	bytes, err = os.ReadFile(d.cacheDirPath(filename))
	if err != nil {
		return nil, err
	}

	d.lastLoadedModTime[filename] = fileModTime
''','''	d.lastLoadedModTime[filename] = fileModTime
	bytes, err = os.ReadFile(d.cacheDirPath(filename))
	if err != nil {
		return nil, err
	}
''')]),
('bad','C12',[(D,'''	fileModTime, err := d.modTime(filename)
	if err != nil {
		return nil, fmt.Errorf("unable to load %s: %w", filename, err)
	}

	var bytes []byte

	bytes, err = os.ReadFile(d.cacheDirPath(filename))
	if err != nil {
		return nil, err
	}
''','''	bytes, err := os.ReadFile(d.cacheDirPath(filename))
	if err != nil {
		return nil, err
	}

	fileModTime, err := d.modTime(filename)
	if err != nil {
		return nil, fmt.Errorf("unable to load %s: %w", filename, err)
	}
''')]),
('bad','C12',[(D,'''	if err := os.WriteFile(d.cacheDirPath(filename), data, 0o600); err != nil {
		return err
	}
''','''	_ = os.WriteFile(d.cacheDirPath(filename), data, 0o600)
''')]),
('bad','C12',[(D,'''	d.lastLoadedModTime[filename] = fileModTime

	return nil''','''	d.lastLoadedModTime[filename] = time.Now()
	_ = fileModTime

	return nil''')]),
('bad','C12',[(D,'''			state = ShouldReload

''','''			state = Good

''')]),
('bad','C12',[(D,'''	if err == nil {
		if fileModTime.After(expiry) {''','''	if err == nil || d.lastLoadedModTime != nil {
		if fileModTime.After(expiry) {''')]),
('bad','C12',[(D,'	d.Timeout = timeout\n','	d.Timeout = timeout / 2\n')]),
# refactorings
('ok','*',[(C,'''	m.cache[filename] = make([]byte, len(data))
	copy(m.cache[filename], data)
''','''	m.cache[filename] = append([]byte(nil), data...)
'''),(C,'''	result := make([]byte, len(data))
	copy(result, data)

	return result, nil''','''	return append([]byte{}, data...), nil''')]),
('ok','*',[(C,'''	m.cache[filename] = make([]byte, len(data))
	copy(m.cache[filename], data)
''','''	saved := make([]byte, len(data))
	copy(saved, data)
	m.cache[filename] = saved
'''),(C,'''	expiry := mtime.Add(m.Timeout)

	if expiry.Before(time.Now()) {
		return Expired
	}

	return Good
''','''	if time.Since(mtime) > m.Timeout {
		return Expired
	}

	return Good
''')]),
('ok','*',[(C,'''	expiry := mtime.Add(m.Timeout)

	if expiry.Before(time.Now()) {
		return Expired
	}

	return Good
''','''	switch now := time.Now(); {
	case now.Sub(mtime) <= m.Timeout:
		return Good
	default:
		return Expired
	}
''')]),
('ok','*',[(C,'''	cache   map[string][]byte
	mtime   map[string]time.Time
''','''	files map[string]memoryFile
'''),(C,'','''
type memoryFile struct {
	data  []byte
	mtime time.Time
}
'''),(C,'''		cache:   make(map[string][]byte),
		mtime:   make(map[string]time.Time),
''','''		files:   make(map[string]memoryFile),
'''),(C,'''	m.cache[filename] = make([]byte, len(data))
	copy(m.cache[filename], data)

	m.mtime[filename] = time.Now()
''','''	saved := make([]byte, len(data))
	copy(saved, data)
	m.files[filename] = memoryFile{data: saved, mtime: time.Now()}
'''),(C,'''	data, ok := m.cache[filename]
''','''	f, ok := m.files[filename]
	data := f.data
'''),(C,'''	mtime, ok := m.mtime[filename]
''','''	f, ok := m.files[filename]
	mtime := f.mtime
''')]),
('ok','*',[(C,'''	result := make([]byte, len(data))
	copy(result, data)

	return result, nil''','''	return bytes.Clone(data), nil'''),(C,'''	"fmt"
''','''	"bytes"
	"fmt"
''')]),
('ok','*',[(D,'''	expiry := time.Now().Add(-d.Timeout)
	state := Absent

	fileModTime, err := d.modTime(filename)
	if err == nil {
		if fileModTime.After(expiry) {
			state = ShouldReload

			lastLoadedModTime, haveLoaded := d.lastLoadedModTime[filename]
			if haveLoaded && !fileModTime.After(lastLoadedModTime) {
				state = Good
			}
		} else {
			state = Expired
		}
	}

	return state
''','''	fileModTime, err := d.modTime(filename)
	if err != nil {
		return Absent
	}
	if time.Since(fileModTime) >= d.Timeout {
		return Expired
	}
	if last, ok := d.lastLoadedModTime[filename]; !ok || fileModTime.After(last) {
		return ShouldReload
	}
	return Good
''')]),
('ok','*',[(D,'''	expiry := time.Now().Add(-d.Timeout)
	state := Absent

	fileModTime, err := d.modTime(filename)
	if err == nil {
		if fileModTime.After(expiry) {
			state = ShouldReload

			lastLoadedModTime, haveLoaded := d.lastLoadedModTime[filename]
			if haveLoaded && !fileModTime.After(lastLoadedModTime) {
				state = Good
			}
		} else {
			state = Expired
		}
	}

	return state
''','''	fileModTime, err := d.modTime(filename)
	if err != nil {
		return Absent
	}
	if d.expired(fileModTime) {
		return Expired
	}
	if d.isLoaded(filename, fileModTime) {
		return Good
	}
	return ShouldReload
}

func (d *DiskCache) expired(t time.Time) bool {
	return !t.Add(d.Timeout).After(time.Now())
}

func (d *DiskCache) isLoaded(filename string, t time.Time) bool {
	last, ok := d.lastLoadedModTime[filename]
	return ok && last.Compare(t) >= 0
''')]),
('ok','*',[(D,'''	var bytes []byte

	bytes, err = os.ReadFile(d.cacheDirPath(filename))
	if err != nil {
		return nil, err
	}

	d.lastLoadedModTime[filename] = fileModTime

	return bytes, nil''','''	bytes, err := os.ReadFile(d.cacheDirPath(filename))
	if err == nil {
		d.lastLoadedModTime[filename] = fileModTime
		return bytes, nil
	}
	return nil, err''')]),
('ok','*',[(D,'''	if err := os.WriteFile(d.cacheDirPath(filename), data, 0o600); err != nil {
		return err
	}

	fileModTime, err := d.modTime(filename)
	if err != nil {
		return fmt.Errorf("file %s failed to save correctly: %w", filename, err)
	}

	d.lastLoadedModTime[filename] = fileModTime

	return nil
''','''	if err := os.WriteFile(d.cacheDirPath(filename), data, 0o600); err != nil {
		return err
	}
	if err := d.markLoaded(filename); err != nil {
		return fmt.Errorf("file %s failed to save correctly: %w", filename, err)
	}
	return nil
}

func (d *DiskCache) markLoaded(filename string) error {
	t, err := d.modTime(filename)
	if err == nil {
		d.lastLoadedModTime[filename] = t
	}
	return err
''')]),
('ok','*',[(D,'''	d.lastLoadedModTime[filename] = fileModTime

	return nil''','''	if d.lastLoadedModTime == nil {
		d.lastLoadedModTime = make(map[string]time.Time)
	}
	d.lastLoadedModTime[filename] = fileModTime

	return nil''')]),
]
