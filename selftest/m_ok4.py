# edits that keep the behaviour, fourth set
C='client.go'; R='request.go'; B='bootstrap/client.go'; V='vcard.go'; P='print.go'; D='decoder.go'; L='cli.go'; W='response.go'
DC='bootstrap/cache/disk_cache.go'; MC='bootstrap/cache/memory_cache.go'; N='bootstrap/net_registry.go'; A='bootstrap/asn_registry.go'; DN='bootstrap/dns_registry.go'
M=[
# asn: well formed entries handled in the positive branch
('ok','*',[(A,'\t\tif err != nil {\n\t\t\tcontinue\n\t\t}\n\n\t\ta = append(a, asnRange{MinASN: minASN, MaxASN: maxASN, URLs: registry.Entries[asn]})','\t\tif err == nil {\n\t\t\ta = append(a, asnRange{minASN, maxASN, registry.Entries[asn]})\n\t\t}')]),
('ok','*',[(A,'\treturn fmt.Sprintf("AS%d-AS%d", a.MinASN, a.MaxASN)','\treturn "AS" + strconv.FormatUint(uint64(a.MinASN), 10) + "-AS" + strconv.FormatUint(uint64(a.MaxASN), 10)')]),
('ok','*',[(A,'\tvar entry string\n\tvar urls []*url.URL\n\n\tif index != len(a.asns) && (asn >= a.asns[index].MinASN && asn <= a.asns[index].MaxASN) {\n\t\tentry = a.asns[index].String()\n\t\turls = a.asns[index].URLs\n\t}\n\n\treturn &Answer{\n\t\tEntry: entry,\n\t\tQuery: strconv.FormatUint(uint64(asn), 10),\n\t\tURLs:  urls,\n\t}, nil','\tanswer := &Answer{Query: strconv.FormatUint(uint64(asn), 10)}\n\tif index == len(a.asns) {\n\t\treturn answer, nil\n\t}\n\n\tr := a.asns[index]\n\tif asn < r.MinASN || r.MaxASN < asn {\n\t\treturn answer, nil\n\t}\n\n\tvar urls []*url.URL = r.URLs\n\tanswer.Entry, answer.URLs = r.String(), urls\n\n\treturn answer, nil')]),
('ok','*',[(A,'\tasns := strings.Split(asnRange, "-")\n\n\tif len(asns) != 1 && len(asns) != 2 {\n\t\treturn 0, 0, errors.New("malformed ASN range")\n\t}','\tasns := strings.Split(asnRange, "-")\n\n\tswitch len(asns) {\n\tcase 1, 2:\n\tdefault:\n\t\treturn 0, 0, errors.New("malformed ASN range")\n\t}')]),
# disk cache
('ok','*',[(DC,'\tvar bytes []byte\n\n\tbytes, err = os.ReadFile(d.cacheDirPath(filename))\n\tif err != nil {\n\t\treturn nil, err\n\t}\n','\tf, err := os.Open(d.cacheDirPath(filename))\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tdefer f.Close()\n\n\tbytes, err := io.ReadAll(f)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n'),(DC,'import (','import (\n\t"io"')]),
('ok','*',[(DC,'\tif err := os.WriteFile(d.cacheDirPath(filename), data, 0o600); err != nil {\n\t\treturn err\n\t}','\tf, err := os.OpenFile(d.cacheDirPath(filename), os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0o600)\n\tif err != nil {\n\t\treturn err\n\t}\n\t_, err = f.Write(data)\n\tif err2 := f.Close(); err == nil {\n\t\terr = err2\n\t}\n\tif err != nil {\n\t\treturn err\n\t}')]),
('ok','*',[(DC,'\td.lastLoadedModTime[filename] = fileModTime\n\n\treturn bytes, nil','\td.markLoaded(filename, fileModTime)\n\n\treturn bytes, nil'),(DC,'\td.lastLoadedModTime[filename] = fileModTime\n\n\treturn nil','\td.markLoaded(filename, fileModTime)\n\n\treturn nil'),(DC,'// State returns','func (d *DiskCache) markLoaded(filename string, t time.Time) {\n\td.lastLoadedModTime[filename] = t\n}\n\n// State returns')]),
('ok','*',[(DC,'\tfileModTime, err := d.modTime(filename)\n\tif err == nil {\n\t\tif fileModTime.After(expiry) {','\tif fileModTime, err := d.modTime(filename); err == nil {\n\t\tif expiry.Before(fileModTime) {')]),
# client: classification in a helper
('ok','*',[(C,'\t\t\tif len(httpResponse.Body) > 0 && hrr.StatusCode >= 200 && hrr.StatusCode <= 299 {','\t\t\tanswered, missing := classify(hrr.StatusCode, len(httpResponse.Body))\n\t\t\tif answered {'),(C,'} else if hrr.StatusCode == http.StatusNotFound {','} else if missing {'),(C,'func (c *Client) get(','func classify(status, n int) (answered, missing bool) {\n\treturn n > 0 && status/100 == 2, status == http.StatusNotFound\n}\n\nfunc (c *Client) get(')]),
('ok','*',[(C,'\t\t\tif len(httpResponse.Body) > 0 && hrr.StatusCode >= 200 && hrr.StatusCode <= 299 {','\t\t\tswitch kind := outcomeOf(hrr.StatusCode, len(httpResponse.Body)); {\n\t\t\tcase kind == 1:'),(C,'\t\t\t} else if hrr.StatusCode == http.StatusNotFound {','\t\t\tcase kind == 2:'),(C,'func (c *Client) get(','func outcomeOf(status, n int) int {\n\tif status == 404 {\n\t\treturn 2\n\t}\n\tif status < 200 || status >= 300 || n == 0 {\n\t\treturn 0\n\t}\n\treturn 1\n}\n\nfunc (c *Client) get(')]),
('ok','*',[(C,'\t\tif httpResponse.Error != nil {\n\t\t\tc.Verbose(fmt.Sprintf("client: error: %s",\n\t\t\t\thttpResponse.Error))\n\n\t\t\tif r.Context().Err() == context.DeadlineExceeded {\n\t\t\t\treturn resp, httpResponse.Error\n\t\t\t}\n\n\t\t\t// Continues to the next RDAP server.\n\t\t} else {','\t\tif err := httpResponse.Error; err != nil {\n\t\t\tc.Verbose(fmt.Sprintf("client: error: %s", err))\n\n\t\t\tif errors.Is(r.Context().Err(), context.DeadlineExceeded) {\n\t\t\t\treturn resp, err\n\t\t\t}\n\t\t\tcontinue\n\t\t} else {')]),
('ok','*',[(C,'\treq.Header.Add("Accept", "application/rdap+json, application/json")','\treq.Header.Set("Accept", "application/rdap+json;q=1.0, application/json;q=0.5")')]),
('ok','*',[(C,'\t\tfor _, u := range answer.URLs {\n\t\t\treqs = append(reqs, req.WithServer(u))\n\t\t}','\t\treqs = make([]*Request, len(answer.URLs))\n\t\tfor i, u := range answer.URLs {\n\t\t\treqs[i] = req.WithServer(u)\n\t\t}')]),
# cli
('ok','*',[(L,'\tif *verboseFlag {\n\t\tfmt.Fprintln(stderr, "")\n\t}','\tif *verboseFlag {\n\t\tio.WriteString(stderr, "\\n")\n\t}')]),
('ok','*',[(L,'fmt.Fprintf(stdout, "%s", resp.HTTP[len(resp.HTTP)-1].Body)','last := resp.HTTP[len(resp.HTTP)-1]\n\t\tfmt.Fprint(stdout, string(last.Body))')]),
('ok','*',[(L,'\tctx, cancelFunc := context.WithTimeout(context.Background(), time.Duration(*timeoutFlag)*time.Second)','\ttimeout := time.Duration(*timeoutFlag) * time.Second\n\tctx, cancelFunc := context.WithTimeout(context.Background(), timeout)')]),
('ok','*',[(L,'\t\tif serverURL.Scheme == "" {\n\t\t\tserverURL.Scheme = "http"\n\t\t}\n\n\t\treq = req.WithServer(serverURL)','\t\treq = req.WithServer(withScheme(serverURL))'),(L,'func safePrint(','func withScheme(u *url.URL) *url.URL {\n\tif u.Scheme != "" {\n\t\treturn u\n\t}\n\tu2 := *u\n\tu2.Scheme = "http"\n\treturn &u2\n}\n\nfunc safePrint(')]),
('ok','*',[(L,'\tvar verbose func(text string)\n\tif *verboseFlag {\n\t\tverbose = func(text string) {\n\t\t\tfmt.Fprintf(stderr, "# %s\\n", text)\n\t\t}\n\t} else {\n\t\tverbose = func(text string) {\n\t\t}\n\t}','\tverbose := func(text string) {\n\t\tif *verboseFlag {\n\t\t\tfmt.Fprintf(stderr, "# %s\\n", text)\n\t\t}\n\t}')]),
('ok','*',[(L,'\tif *versionFlag {\n\t\tfmt.Fprintln(stdout, version)\n\t\treturn 0\n\t}','\tif *versionFlag {\n\t\treturn printVersion(stdout)\n\t}'),(L,'func safePrint(','func printVersion(w io.Writer) int {\n\tfmt.Fprintf(w, "%s\\n", version)\n\treturn 0\n}\n\nfunc safePrint(')]),
# net registry
('ok','*',[(N,'|| !nets[index].Net.Contains(lookupNet.IP) {','|| !covers(nets[index].Net, lookupNet.IP) {'),(N,'// Lookup returns','func covers(n *net.IPNet, ip net.IP) bool {\n\treturn n.Contains(ip)\n}\n\n// Lookup returns')]),
('ok','*',[(N,'\t\tbestEntry = nets[index].Net.String()\n','\t\tmatch := nets[index].Net\n\t\tbestEntry = match.String()\n')]),
# bootstrap client
('ok','*',[(B,'\t\tc.Cache = cache.NewMemoryCache()\n\t\tc.Cache.SetTimeout(DefaultCacheTimeout)\n','\t\tmc := cache.NewMemoryCache()\n\t\tmc.SetTimeout(DefaultCacheTimeout)\n\t\tc.Cache = mc\n')]),
('ok','*',[(B,'\tif c.registries[registry] == nil || forceDownload {','\tif _, have := c.registries[registry]; !have || forceDownload {')]),
('ok','*',[(R,'\t\tQuery: strconv.FormatUint(uint64(asn), 10),','\t\tQuery: fmt.Sprint(asn),')]),
('ok','*',[(R,'\t\tQuery: strconv.FormatUint(uint64(asn), 10),','\t\tQuery: strconv.Itoa(int(asn)),')]),
]
