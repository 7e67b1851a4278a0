B='bootstrap/client.go'
D='bootstrap/cache/disk_cache.go'
C='client.go'
Q='bootstrap/question.go'
M=[
# C07
('bad','C07',[(B,'return "object-tags.json"','return "serviceprovider.json"')]),
('bad','C07',[(B,'NewNetRegistry(json, 6)','NewNetRegistry(json, 4)')]),
('bad','C07',[(B,'''	case IPv4:
		s, err = NewNetRegistry(json, 4)
	case IPv6:
		s, err = NewNetRegistry(json, 6)''','''	case IPv4, IPv6:
		s, err = NewNetRegistry(json, 4)''')]),
('bad','C07',[(B,'''	c.freshenFromCache(IPv6)

	s, _ := c.registries[IPv6]''','''	c.freshenFromCache(IPv6)

	s, _ := c.registries[IPv4]''')]),
('bad','C07,C10',[(B,'''	c.freshenFromCache(IPv6)
''','''	c.freshenFromCache(IPv4)
''')]),
('bad','C07',[(B,'''	if baseURL.Path != "" && baseURL.Path[len(baseURL.Path)-1] != '/' {
		baseURL.Path += "/"
	}
''','')]),
('bad','C07',[(B,'fetchURL := baseURL.ResolveReference(u)','''if baseURL.Host == "" {
		baseURL.Host = "data.iana.org"
	}
	fetchURL := baseURL.ResolveReference(u)''')]),
('bad','C07',[(B,'*baseURL = *c.BaseURL','def, _ := url.Parse(DefaultBaseURL)\n	*baseURL = *def')]),
('bad','C07',[(B,'url.Parse(registry.Filename())','url.Parse(registry.String() + ".json")')]),
('bad','C07',[(C,'''bootstrap.ServiceProvider''','''bootstrap.DNS''')]),
('bad','C07',[(B,'c.registries[registry].Lookup(question)','c.registries[registry].Lookup(&Question{RegistryType: registry, Query: "x" + question.Query})')]),
# C10
('bad','C10',[(B,'state == cache.Absent || state == cache.Expired','state == cache.Absent')]),
('bad','C10',[(B,'state == cache.Absent || state == cache.Expired','state == cache.Expired')]),
('bad','C10',[(B,'state == cache.Absent || state == cache.Expired','state != cache.Good')]),
('bad','C10',[(B,'''			forceDownload = true

''','')]),
('bad','C10',[(B,'c.registries[registry] == nil || forceDownload','forceDownload || registry != registry')]),
('bad','C10',[(B,'c.registries[registry] == nil || forceDownload','c.registries[registry] == nil || forceDownload && false')]),
('bad','C10',[(B,'c.registries[registry] == nil || forceDownload','c.registries[registry] == nil && forceDownload')]),
('bad','C10',[(B,'''		// Best-effort refresh; on failure the existing in-memory registry is kept.
		_ = c.reloadFromCache(registry)''','''		if c.reloadFromCache(registry) != nil { _ = c.Download(registry) }''')]),
('bad','C10',[(B,'c.filenameFor(registry)) == cache.ShouldReload {','c.filenameFor(registry)) == cache.Good {')]),
('bad','C10,C11',[(B,'''	c.registries[registry] = s

	return nil
}

func newRegistry''','''	if c.registries[registry] == nil {
		c.registries[registry] = s
	}

	return nil
}

func newRegistry''')]),
('bad','C10',[(B,'''	answer, err := c.registries[registry].Lookup(question)
''','''	answer, err := c.registries[registry].Lookup(question)
	if answer != nil && len(answer.URLs) == 0 {
		_ = c.Download(registry)
	}
''')]),
# C11
('bad','C11',[(B,'if resp.StatusCode != http.StatusOK {','if resp.StatusCode >= 400 {')]),
('bad','C11',[(B,'if resp.StatusCode != http.StatusOK {','if resp.StatusCode/100 != 2 {')]),
('bad','C11',[(B,'''	err = c.Cache.Save(c.filenameFor(registry), json)
	if err != nil {
		return err
	}

	c.registries[registry] = s
''','''	c.registries[registry] = s
	err = c.Cache.Save(c.filenameFor(registry), json)
	if err != nil {
		return err
	}

''')]),
('bad','C11',[(B,'''	err = c.Cache.Save(c.filenameFor(registry), json)
	if err != nil {
		return err
	}
''','''	_ = c.Cache.Save(c.filenameFor(registry), json)
''')]),
('bad','C11',[(B,'io.ReadAll(resp.Body)','io.ReadAll(io.LimitReader(resp.Body, 1<<20))')]),
('bad','C11',[(B,'''	json, err := io.ReadAll(resp.Body)
	if err != nil {
		return nil, nil, err
	}
''','''	json, err := io.ReadAll(resp.Body)
	if err != nil && len(json) == 0 {
		return nil, nil, err
	}
''')]),
('bad','C11',[(B,'''	json, s, err := c.download(ctx, registry)
	if err != nil {
		return err
	}
''','''	json, s, err := c.download(ctx, registry)
	if err != nil && json == nil {
		return err
	}
''')]),
('bad','C11',[(B,'''	s, err = newRegistry(registry, json)
	if err != nil {
		return err
	}

	c.registries[registry] = s
''','''	s, err = newRegistry(registry, json)
	c.registries[registry] = s
	if err != nil {
		return err
	}
''')]),
('bad','C11',[(B,'''	s, err = newRegistry(registry, json)
	if err != nil {
		return json, nil, err
	}
''','''	s, _ = newRegistry(registry, json)
''')]),
('bad','C11',[(B,'''	err = c.Cache.Save(c.filenameFor(registry), json)
	if err != nil {
		return err
	}

	c.registries[registry] = s
''','''	err = c.Cache.Save(c.filenameFor(registry), json)
	if err != nil {
		return nil
	}

	c.registries[registry] = s
''')]),
('bad','C11',[(B,'c.Cache.Save(c.filenameFor(registry), json)','c.Cache.Save(c.filenameFor(registry), json[:len(json)/2*2])')]),
('bad','C11',[(B,'''	json, s, err := c.download(ctx, registry)
''','''	delete(c.registries, registry)
	json, s, err := c.download(ctx, registry)
''')]),
# C13
('bad','C13',[(B,'sha256Hash[0:6]','sha256Hash[0:1]')]),
('bad','C13',[(B,'hasher.Write([]byte(c.BaseURL.String()))','hasher.Write([]byte(c.BaseURL.Host))')]),
('bad','C13',[(B,'''		hasher.Write([]byte(c.BaseURL.String()))
''','')]),
('bad','C13',[(B,'c.BaseURL.String() != DefaultBaseURL {','c.BaseURL.String() != DefaultBaseURL && r != ServiceProvider {')]),
('bad','C13',[(B,'c.BaseURL.String() != DefaultBaseURL {','c.BaseURL.Host != "data.iana.org" {')]),
('bad','C13',[(B,'c.Cache.Load(c.filenameFor(registry))','c.Cache.Load(registry.Filename())')]),
('bad','C13',[(B,'err = c.Cache.Save(c.filenameFor(registry), json)','err = c.Cache.Save(registry.Filename(), json)')]),
('bad','C13',[(D,'data, 0o600','data, 0o644')]),
('bad','C13',[(D,'0o750','0o755')]),
('bad','C13',[(D,'return filepath.Join(d.Dir, filename)','return d.Dir + filename')]),
('bad','C13',[(D,'os.WriteFile(d.cacheDirPath(filename), data','os.WriteFile(filename, data')]),
('bad','C13',[(B,'filename = sha256Hash[0:6] + "_" + filename','_ = sha256Hash\n		filename = url.PathEscape(c.BaseURL.String()) + "_" + filename')]),
('bad','C13',[(B,'	c.registries[registry] = s\n\n	return nil\n}\n\nfunc (c *Client) download','	c.registries[registry] = s\n	_ = os.WriteFile("/tmp/last.json", json, 0o600)\n\n	return nil\n}\n\nfunc (c *Client) download'),(B,'	"net/url"\n','	"net/url"\n	"os"\n')]),
# refactorings
('ok','*',[(B,'''	if c.registries[registry] == nil || forceDownload {
''','''	need := forceDownload
	if _, ok := c.registries[registry]; !ok || c.registries[registry] == nil {
		need = true
	}
	if need {
''')]),
('ok','*',[(B,'''	registry := question.RegistryType

	state := c.Cache.State(c.filenameFor(registry))
	c.Verbose(fmt.Sprintf("  bootstrap: Cache state: %s: %s", c.filenameFor(registry), state))
''','''	registry := question.RegistryType
	name := c.filenameFor(registry)

	state := c.Cache.State(name)
	c.Verbose(fmt.Sprintf("  bootstrap: Cache state: %s: %s", name, state))
''')]),
('ok','*',[(B,'''	forceDownload := state == cache.Absent || state == cache.Expired
	if state == cache.ShouldReload {
		if err := c.reloadFromCache(registry); err != nil {
			forceDownload = true

			c.Verbose(fmt.Sprintf("  bootstrap: Cache load error (%s), downloading...", err))
		}
	}
''','''	var forceDownload bool
	switch state {
	case cache.Absent, cache.Expired:
		forceDownload = true
	case cache.ShouldReload:
		err := c.reloadFromCache(registry)
		forceDownload = err != nil
		if err != nil {
			c.Verbose(fmt.Sprintf("  bootstrap: Cache load error (%s), downloading...", err))
		}
	}
''')]),
('ok','*',[(B,'''	switch registry {
	case ASN:
		s, err = NewASNRegistry(json)
	case DNS:
		s, err = NewDNSRegistry(json)
	case IPv4:
		s, err = NewNetRegistry(json, 4)
	case IPv6:
		s, err = NewNetRegistry(json, 6)
''','''	switch registry {
	case ASN:
		s, err = NewASNRegistry(json)
	case DNS:
		s, err = NewDNSRegistry(json)
	case IPv4, IPv6:
		v := 4
		if registry == IPv6 {
			v = 6
		}
		s, err = NewNetRegistry(json, v)
''')]),
('ok','*',[(B,'''		hasher := sha256.New()
		hasher.Write([]byte(c.BaseURL.String()))
		sha256Hash := hex.EncodeToString(hasher.Sum(nil))

		filename = sha256Hash[0:6] + "_" + filename
''','''		sum := sha256.Sum256([]byte(c.BaseURL.String()))
		filename = hex.EncodeToString(sum[:])[0:6] + "_" + filename
''')]),
('ok','*',[(B,'''	filename := r.Filename()

	if c.BaseURL.String() != DefaultBaseURL {
		hasher := sha256.New()
		hasher.Write([]byte(c.BaseURL.String()))
		sha256Hash := hex.EncodeToString(hasher.Sum(nil))

		filename = sha256Hash[0:6] + "_" + filename
	}

	return filename
''','''	base := c.BaseURL.String()
	if base == DefaultBaseURL {
		return r.Filename()
	}
	return servicePrefix(base) + r.Filename()
}

func servicePrefix(base string) string {
	hasher := sha256.New()
	hasher.Write([]byte(base))
	return fmt.Sprintf("%s_", hex.EncodeToString(hasher.Sum(nil))[:6])
''')]),
('ok','*',[(B,'''		hasher := sha256.New()
		hasher.Write([]byte(c.BaseURL.String()))
		sha256Hash := hex.EncodeToString(hasher.Sum(nil))

		filename = sha256Hash[0:6] + "_" + filename
''','''		hasher := sha256.New()
		_, _ = io.WriteString(hasher, c.BaseURL.String())
		filename = fmt.Sprintf("%x", hasher.Sum(nil))[0:6] + "_" + filename
'''),(B,'	"encoding/hex"\n','')]),
('ok','*',[(B,'''	switch r {
	case ASN:
		return "asn.json"
	case DNS:
		return "dns.json"
	case IPv4:
		return "ipv4.json"
	case IPv6:
		return "ipv6.json"
	case ServiceProvider:
		return "object-tags.json"
	default:
		panic("Unknown RegistryType")
	}
''','''	if name, ok := registryFiles[r]; ok {
		return name
	}
	panic("Unknown RegistryType")
'''),(B,'','''
var registryFiles = map[RegistryType]string{
	ASN:             "asn.json",
	DNS:             "dns.json",
	IPv4:            "ipv4.json",
	IPv6:            "ipv6.json",
	ServiceProvider: "object-tags.json",
}
''')]),
('ok','*',[(B,'''	baseURL := new(url.URL)
	*baseURL = *c.BaseURL

	if baseURL.Path != "" && baseURL.Path[len(baseURL.Path)-1] != '/' {
		baseURL.Path += "/"
	}

	fetchURL := baseURL.ResolveReference(u)
''','''	fetchURL := withSlash(*c.BaseURL).ResolveReference(u)
'''),(B,'','''
func withSlash(u url.URL) *url.URL {
	if n := len(u.Path); n > 0 && u.Path[n-1] != '/' {
		u.Path += "/"
	}
	return &u
}
''')]),
('ok','*',[(B,'''	baseURL := new(url.URL)
	*baseURL = *c.BaseURL

	if baseURL.Path != "" && baseURL.Path[len(baseURL.Path)-1] != '/' {
		baseURL.Path += "/"
	}
''','''	base := *c.BaseURL
	baseURL := &base
	if p := baseURL.Path; p != "" && !strings.HasSuffix(p, "/") {
		baseURL.Path = p + "/"
	}
'''),(B,'	"net/url"\n','	"net/url"\n	"strings"\n')]),
('ok','*',[(B,'''	c.init()
	c.freshenFromCache(ASN)

	s, _ := c.registries[ASN].(*ASNRegistry)
	return s
''','''	s, _ := c.current(ASN).(*ASNRegistry)
	return s
'''),(B,'''	c.init()
	c.freshenFromCache(DNS)

	s, _ := c.registries[DNS].(*DNSRegistry)
	return s
''','''	if s, ok := c.current(DNS).(*DNSRegistry); ok {
		return s
	}
	return nil
'''),(B,'','''
func (c *Client) current(r RegistryType) Registry {
	c.init()
	c.freshenFromCache(r)
	return c.registries[r]
}
''')]),
('ok','*',[(B,'''	if c.Cache.State(c.filenameFor(registry)) == cache.ShouldReload {
		// Best-effort refresh; on failure the existing in-memory registry is kept.
		_ = c.reloadFromCache(registry)
	}
''','''	if c.Cache.State(c.filenameFor(registry)) != cache.ShouldReload {
		return
	}
	json, err := c.Cache.Load(c.filenameFor(registry))
	if err != nil {
		return
	}
	if s, err := newRegistry(registry, json); err == nil {
		c.registries[registry] = s
	}
''')]),
('ok','*',[(B,'''	json, s, err := c.download(ctx, registry)
	if err != nil {
		return err
	}

	err = c.Cache.Save(c.filenameFor(registry), json)
	if err != nil {
		return err
	}

	c.registries[registry] = s

	return nil
''','''	json, s, err := c.download(ctx, registry)
	if err == nil {
		if err = c.Cache.Save(c.filenameFor(registry), json); err == nil {
			c.registries[registry] = s
		}
	}
	return err
''')]),
('ok','*',[(B,'''	json, err := io.ReadAll(resp.Body)
	if err != nil {
		return nil, nil, err
	}
''','''	var buf bytes.Buffer
	if _, err := buf.ReadFrom(resp.Body); err != nil {
		return nil, nil, err
	}
	json := buf.Bytes()
'''),(B,'	"context"\n','	"bytes"\n	"context"\n'),(B,'	"io"\n','')]),
('ok','*',[(D,'''	return filepath.Join(d.Dir, filename)''','''	p := filepath.Join(d.Dir, filename)
	return filepath.Clean(p)''')]),
('ok','*',[(D,'''	if _, err := d.InitDir(); err != nil {
		return err
	}

	if err := os.WriteFile(d.cacheDirPath(filename), data, 0o600); err != nil {
		return err
	}

	fileModTime, err := d.modTime(filename)
	if err != nil {
''','''	_, err := d.InitDir()
	if err != nil {
		return err
	}
	path := d.cacheDirPath(filename)
	if err = os.WriteFile(path, data, 0o600); err != nil {
		return err
	}

	fileModTime, err := d.modTime(filename)
	if err != nil {
''')]),
('ok','*',[(D,'''	fileInfo, err := os.Stat(d.Dir)
	if err == nil {
		if fileInfo.IsDir() {
			return false, nil
		}

		return false, errors.New("cache dir is not a dir")
	}

	if os.IsNotExist(err) {
		if err = os.MkdirAll(d.Dir, 0o750); err != nil {
			return false, err
		}

		return true, nil
	}

	return false, err
''','''	fileInfo, err := os.Stat(d.Dir)
	switch {
	case err == nil && fileInfo.IsDir():
		return false, nil
	case err == nil:
		return false, errors.New("cache dir is not a dir")
	case !os.IsNotExist(err):
		return false, err
	}
	const perm = 0o700
	err = os.MkdirAll(d.Dir, perm|0o50)
	return err == nil, err
''')]),
('ok','*',[(B,'''	answer, err := c.registries[registry].Lookup(question)

	if answer != nil {''','''	answer, err := c.registries[registry].Lookup(question)
	c.report(answer)
	return answer, err
}

func (c *Client) report(answer *Answer) {
	if answer != nil {'''),(B,'''			c.Verbose(fmt.Sprintf("  bootstrap: Service URL #%d: '%s'", i+1, url))
		}
	}

	return answer, err
}''','''			c.Verbose(fmt.Sprintf("  bootstrap: Service URL #%d: '%s'", i+1, url))
		}
	}
}''')]),
]
