Q='request.go'; C='client.go'; B='bootstrap/client.go'; MC='bootstrap/cache/memory_cache.go'; DC='bootstrap/cache/disk_cache.go'
V='vcard.go'; P='print.go'; R='response.go'; D='decoder.go'; DD='decode_data.go'; L='cli.go'
A='bootstrap/asn_registry.go'; N='bootstrap/net_registry.go'; S='bootstrap/service_provider_registry.go'; F='bootstrap/file.go'; DN='bootstrap/dns_registry.go'
M=[
# C01
('bad','C01',[(Q,'		b := text[i]\n\n		if !shouldPathEscape(b) {',"		b := text[i]\n\n		if !shouldPathEscape(b) || b == '%' && i+2 < len(text) {")]),
('bad','C01',[(Q,'path = fmt.Sprintf("entity/%s", escapePath(r.Query))','path = fmt.Sprintf("entity/%s", strings.ReplaceAll(escapePath(r.Query), "%2F", "/"))')]),
('bad','C01',[(Q,'		maps.Copy(query, r.Params)\n		maps.Copy(query, values)','		maps.Copy(query, values)\n		maps.Copy(query, r.Params)')]),
('bad','C01',[(Q,'		tempURL.Fragment = ""\n','')]),
('bad','C01',[(Q,'		tempURL.RawQuery = ""\n','')]),
('bad','C01',[(Q,"case '-', '_', '.', '~', '$', '&', '+', ':', '=', '@':","case '-', '_', '.', '~', '$', '&', '+', ':', '=', '@', '#':")]),
('bad','C01',[(Q,"case '-', '_', '.', '~', '$', '&', '+', ':', '=', '@':","case '-', '_', '.', '~', '$', '&', '+', ':', '=', '@', '?':")]),
('bad','C01',[(Q,"case '-', '_', '.', '~', '$', '&', '+', ':', '=', '@':","case '-', '_', '.', '~', '$', '&', '+', ':', '=', '@', '/':")]),
('bad','C01',[(Q,"case '-', '_', '.', '~', '$', '&', '+', ':', '=', '@':","case '-', '_', '.', '~', '$', '&', '+', ':', '=', '@', '%':")]),
('bad','C01',[(Q,'	j := -1\n	for i := range len(text) {\n		if shouldPathEscape(text[i]) {','	j := -1\n	for i := range len(text) {\n		if i < 64 && shouldPathEscape(text[i]) {')]),
('bad','C01',[(Q,'"0123456789ABCDEF"[b>>4]','"0123456789ABCDEF"[b>>4&0x7]')]),
('bad','C01',[(Q,'"0123456789ABCDEF"[b>>4],\n				"0123456789ABCDEF"[b&0xF],','"0123456789ABCDEF"[b&0xF],\n				"0123456789ABCDEF"[b>>4],')]),
('bad','C01',[(Q,"('a' <= b && b <= 'z')","('a' <= b && b <= '~')")]),
('bad','C01',[(Q,"('A' <= b && b <= 'Z')","('A' <= b && b <= '_')")]),
('bad','C01',[(Q,"('0' <= b && b <= '9')","('/' <= b && b <= '9')")]),
('bad','C01',[(Q,'		values["nsIp"] = []string{r.Query}','		values["nsLdhName"] = []string{r.Query}')]),
('bad','C01',[(Q,'		path = "nameservers"\n		values["ip"] = []string{r.Query}','		path = "nameservers"\n		values["name"] = []string{r.Query}')]),
('bad','C01',[(Q,'		path = "entities"\n		values["handle"]','		path = "entities"\n		values["fn"]')]),
('bad','C01',[(Q,'		path = "autnums"','		path = "autnum"')]),
('bad','C01',[(Q,'	if r.Type == RawRequest {\n		resultURL = new(url.URL)\n		*resultURL = *r.Server\n','	if r.Type == RawRequest {\n		resultURL = new(url.URL)\n		*resultURL = *r.Server\n		resultURL.RawQuery = resultURL.Query().Encode()\n')]),
('bad','C01',[(Q,"if len(tempURLString) == 0 || tempURLString[len(tempURLString)-1] != '/' {","if len(tempURLString) == 0 || tempURLString[len(tempURLString)-1] != '/' || tempURL.Path == \"/\" {")]),
('bad','C01',[(Q,'		resultURL.Fragment = r.Server.Fragment\n','		resultURL.Fragment = r.Server.Fragment\n		resultURL.User = nil\n')]),
('bad','C01',[(Q,'		query := r.Server.Query()\n		maps.Copy(query, r.Params)','		query := r.Server.Query()\n		for k, v := range r.Params {\n			if len(v) > 0 {\n				query.Set(k, v[0])\n			}\n		}')]),
('bad','C01',[(Q,'		values["name"] = []string{r.Query}\n	case DomainSearchByNameserverRequest','		values["name"] = []string{strings.TrimSuffix(r.Query, ".")}\n	case DomainSearchByNameserverRequest')]),
('bad','C01',[(Q,'		path = fmt.Sprintf("domain/%s", escapePath(r.Query))','		path = fmt.Sprintf("domain/%s", escapePath(strings.ToLower(r.Query)))')]),
('bad','C01',[(Q,'		path = fmt.Sprintf("nameserver/%s", escapePath(r.Query))','		path = fmt.Sprintf("nameserver/%s", url.QueryEscape(r.Query))')]),
# C02
('bad','C02',[(Q,'		query := r.Server.Query()\n		maps.Copy(query, r.Params)\n		maps.Copy(query, values)','		query := r.Params\n		if len(query) == 0 {\n			query = url.Values{}\n		}\n		for k, v := range r.Server.Query() {\n			if _, ok := query[k]; !ok {\n				query[k] = v\n			}\n		}\n		maps.Copy(query, values)')]),
('bad','C02',[(DN,'	input := question.Query\n	input = strings.TrimSuffix(input, ".")\n	input = strings.ToLower(input)\n','	question.Query = strings.ToLower(strings.TrimSuffix(question.Query, "."))\n	input := question.Query\n')]),
('bad','C02',[(V,'	var properties []*VCardProperty\n\n	for _, p','	properties := v.Properties[:0]\n\n	for _, p')]),
('bad','C02',[(R,'	for _, s := range d.Status {\n','	slices.Sort(d.Status)\n	for _, s := range d.Status {\n')]),
('bad','C02',[(C,'			reqs = append(reqs, req.WithServer(u))','			if u.Path == "" {\n				u.Path = "/"\n			}\n			reqs = append(reqs, req.WithServer(u))')]),
('bad','C02',[(Q,'	r2 := new(Request)\n	*r2 = *r\n	r2.Server = server\n','	r2 := r\n	r2.Server = server\n')]),
('bad','C02',[(A,'	entry = a.asns[index].String()\n','	entry = a.asns[index].String()\n		sort.Slice(a.asns[index].URLs, func(i, j int) bool { return a.asns[index].URLs[i].Scheme > a.asns[index].URLs[j].Scheme })\n')] if False else [(A,'		urls = a.asns[index].URLs\n','		urls = a.asns[index].URLs\n		slices.SortStableFunc(urls, func(x, y *url.URL) int { return strings.Compare(y.Scheme, x.Scheme) })\n')]),
# C03
('bad','C03',[(C,'hrr.StatusCode >= 200 && hrr.StatusCode <= 299','hrr.StatusCode >= 200 && hrr.StatusCode <= 399')]),
('bad','C03',[(C,'hrr.StatusCode >= 200 && hrr.StatusCode <= 299','hrr.StatusCode/100 <= 2')]),
('bad','C03',[(C,'				if httpResponse.Error != nil {\n					c.Verbose(fmt.Sprintf("client: Error decoding response: %s",\n						httpResponse.Error))\n					continue\n				}','				if httpResponse.Error != nil && len(reqs) > 1 {\n					c.Verbose(fmt.Sprintf("client: Error decoding response: %s",\n						httpResponse.Error))\n					continue\n				}')]),
('bad','C03',[(C,'} else if hrr.StatusCode == http.StatusNotFound {','} else if hrr.StatusCode == http.StatusNotFound && len(httpResponse.Body) == 0 {')]),
('bad','C03',[(C,'} else if hrr.StatusCode == http.StatusNotFound {','} else if hrr.StatusCode >= http.StatusNotFound && hrr.StatusCode < 500 {')]),
('bad','C03',[(C,'			if r.Context().Err() == context.DeadlineExceeded {','			if errors.Is(httpResponse.Error, context.DeadlineExceeded) {')]),
('bad','C03',[(C,'		if len(answer.URLs) == 0 {','		if answer.Entry == "" {')]),
('bad','C03',[(C,'		resp.HTTP = append(resp.HTTP, httpResponse)\n','		resp.HTTP = []*HTTPResponse{httpResponse}\n')]),
('bad','C03',[(C,'		for _, u := range answer.URLs {\n			reqs','		for _, u := range answer.URLs {\n			if u.Scheme != "https" && len(answer.URLs) > 1 {\n				continue\n			}\n			reqs')]),
('bad','C03',[(C,'		if err != nil {\n			return resp, err\n		}\n','		if err != nil && answer == nil {\n			return resp, err\n		}\n')]),
('bad','C03',[(C,'resp.Object, httpResponse.Error = decoder.Decode()','resp.Object, err = decoder.Decode()')] if False else [(C,'				decoder := NewDecoder(httpResponse.Body)','				decoder := NewDecoder(bytes.TrimSpace(resp.HTTP[0].Body))'),(C,'import (\n','import (\n	"bytes"\n')]),
# C04
('bad','C04',[(C,'	if autnum, ok := resp.Object.(*Autnum); ok {\n		return autnum, nil','	if autnum, _ := resp.Object.(*Autnum); resp.Object != nil {\n		return autnum, nil')]),
('bad','C04',[(C,'		Type:  AutnumRequest,\n		Query: autnum,','		Type:  AutnumRequest,\n		Query: strings.TrimLeft(autnum, "AS"),')]),
# C05/C06
('bad','C05',[(C,'time.Second*30)','time.Minute*30)')]),
('bad','C05',[(C,'http.NewRequestWithContext(rdapReq.Context(), http.MethodGet','http.NewRequestWithContext(context.WithoutCancel(rdapReq.Context()), http.MethodGet')]),
('bad','C05',[(B,'err := c.DownloadWithContext(question.Context(), registry)','err := c.Download(registry)')]),
('bad','C05',[(C,'	if req.Timeout > 0 {\n','	if req.Timeout > 0 && req.Server != nil {\n')]),
('bad','C05',[(C,'		question = question.WithContext(req.Context())\n','')]),
('bad','C06',[(B,'	defer resp.Body.Close()\n\n	if resp.StatusCode != http.StatusOK {\n		return','	if resp.StatusCode != http.StatusOK {\n		return'),(B,'	json, err := io.ReadAll(resp.Body)\n','	defer resp.Body.Close()\n	json, err := io.ReadAll(resp.Body)\n')]),
('bad','C06',[(C,'	defer resp.Body.Close()\n	httpResponse.Body, httpResponse.Error = io.ReadAll(resp.Body)','	if resp.ContentLength == 0 {\n		return httpResponse\n	}\n	defer resp.Body.Close()\n	httpResponse.Body, httpResponse.Error = io.ReadAll(resp.Body)')]),
('bad','C06',[(C,'	if c.UserAgent != "" {','	if c.UserAgent != "" && rdapReq.Type != RawRequest {')]),
('bad','C06',[(C,'"application/rdap+json, application/json"','"application/json"')]),
('bad','C06',[(C,'http.MethodGet, httpResponse.URL, http.NoBody','http.MethodGet, rdapReq.Server.String(), http.NoBody')]),
# C07
('bad','C07',[(B,'		s, err = NewNetRegistry(json, 6)','		s, err = NewNetRegistry(json, 4)')]),
('bad','C07',[(B,"	if baseURL.Path != \"\" && baseURL.Path[len(baseURL.Path)-1] != '/' {\n		baseURL.Path += \"/\"\n	}\n","")]),
('bad','C07',[(B,'	s, _ := c.registries[ServiceProvider].(*ServiceProviderRegistry)','	s, _ := c.registries[DNS].(*ServiceProviderRegistry)')]),
('bad','C07',[(C,'RegistryType: *bootstrapType,\n			Query:        req.Query,','RegistryType: *bootstrapType,\n			Query:        strings.ToLower(req.Query),')]),
# C08/9
('bad','C08,C09',[(A,'		return asn <= a.asns[i].MaxASN','		return asn < a.asns[i].MaxASN')]),
('bad','C08',[(A,'(asn >= a.asns[index].MinASN && asn <= a.asns[index].MaxASN)','asn <= a.asns[index].MaxASN')]),
('bad','C09',[(N,'mask < bestMask ||','mask <= bestMask && bestURLs != nil && bestMask > 0 ||')] if False else [(N,'		if mask < bestMask || mask > lookupMask {','		if mask < bestMask || mask >= lookupMask {')]),
('bad','C08',[(N,'		if mask < bestMask || mask > lookupMask {','		_ = lookupMask\n		if mask < bestMask {')]),
('bad','C09',[(N,'		bestMask = mask\n','		bestMask = lookupMask\n')] if False else [(N,'		bestMask = mask\n','')]),
('bad','C08',[(S,"strings.LastIndexByte(input, '-')","strings.IndexByte(input, '-')")]),
('bad','C08,C09',[(DN,"		index := strings.IndexByte(fqdn, '.')","		index := strings.LastIndexByte(fqdn, '.')")]),
('bad','C09',[(DN,'		index := strings.IndexByte(fqdn, \'.\')\n		if index == -1 {\n			fqdn = ""','		index := strings.IndexByte(fqdn, \'.\')\n		if index == -1 {\n			break')] if False else [(DN,'		if ok {\n			break\n		} else if fqdn == "" {\n			break\n		}','		if ok && len(urls) > 1 {\n			break\n		} else if fqdn == "" {\n			break\n		}')]),
('bad','C09',[(N,'	for _, nets := range n.networks {\n		sort.Sort(netEntrySorter(nets))\n	}\n','	for size, nets := range n.networks {\n		if size > 8 {\n			sort.Sort(netEntrySorter(nets))\n		}\n	}\n')]),
('bad','C08',[(A,'	result, err := strconv.ParseUint(asn, 10, 32)\n	if err != nil {\n		return 0, err\n	}\n\n	return uint32(result), nil','	result, err := strconv.ParseUint(asn, 10, 64)\n	if err != nil {\n		return 0, err\n	}\n\n	return uint32(result), nil')]),
('bad','C08',[(A,'	asn = strings.TrimPrefix(asn, "as")','	asn = strings.TrimLeft(asn, "as")')]),
('bad','C09',[(A,'strconv.ParseUint(asns[1], 10, 32)','strconv.ParseUint(asns[1], 10, 31)')]),
# C10-13
('bad','C10',[(B,'forceDownload := state == cache.Absent || state == cache.Expired','forceDownload := state == cache.Absent || state == cache.Expired && c.registries[registry] == nil')]),
('bad','C10',[(B,'		if err := c.reloadFromCache(registry); err != nil {\n			forceDownload = true\n','		if err := c.reloadFromCache(registry); err != nil && c.registries[registry] == nil {\n			forceDownload = true\n')]),
('bad','C10',[(B,'	s, _ := c.registries[IPv6].(*NetRegistry)\n	return s','	s, _ := c.registries[IPv6].(*NetRegistry)\n	if s == nil && c.Download(IPv6) == nil {\n		s, _ = c.registries[IPv6].(*NetRegistry)\n	}\n	return s')]),
('bad','C11',[(B,'	err = c.Cache.Save(c.filenameFor(registry), json)\n	if err != nil {\n		return err\n	}\n\n	c.registries[registry] = s\n','	c.registries[registry] = s\n\n	err = c.Cache.Save(c.filenameFor(registry), json)\n	if err != nil {\n		return err\n	}\n')]),
('bad','C11',[(B,'	if resp.StatusCode != http.StatusOK {','	if resp.StatusCode >= 400 {')]),
('bad','C11',[(B,'	json, err := io.ReadAll(resp.Body)\n	if err != nil {\n		return nil, nil, err\n	}','	json, err := io.ReadAll(io.LimitReader(resp.Body, 1<<20))\n	if err != nil {\n		return nil, nil, err\n	}')]),
('bad','C11',[(B,'	s, err = newRegistry(registry, json)\n	if err != nil {\n		return err\n	}\n\n	c.registries[registry] = s\n','	s, err = newRegistry(registry, json)\n	c.registries[registry] = s\n	if err != nil {\n		return err\n	}\n')]),
('bad','C12',[(MC,'	expiry := mtime.Add(m.Timeout)\n\n	if expiry.Before(time.Now()) {','	expiry := mtime.Add(m.Timeout)\n\n	if time.Now().Before(expiry) {')]),
('bad','C12',[(MC,'	result := make([]byte, len(data))\n	copy(result, data)\n\n	return result, nil','	return data, nil')]),
('bad','C12',[(DC,'			if haveLoaded && !fileModTime.After(lastLoadedModTime) {','			if haveLoaded || !fileModTime.After(lastLoadedModTime) {')]),
('bad','C12',[(DC,'	bytes, err = os.ReadFile(d.cacheDirPath(filename))\n	if err != nil {\n		return nil, err\n	}\n\n	d.lastLoadedModTime[filename] = fileModTime\n','	d.lastLoadedModTime[filename] = fileModTime\n\n	bytes, err = os.ReadFile(d.cacheDirPath(filename))\n	if err != nil {\n		return nil, err\n	}\n')]),
('bad','C12',[(DC,'		Timeout:           time.Hour * 24,','		Timeout:           time.Minute * 24,')]),
('bad','C13',[(DC,'data, 0o600)','data, 0o644)')]),
('bad','C13',[(B,'	if c.BaseURL.String() != DefaultBaseURL {','	if c.BaseURL.Host != "data.iana.org" {')]),
('bad','C13',[(B,'		hasher.Write([]byte(c.BaseURL.String()))','		hasher.Write([]byte(c.BaseURL.Host))')]),
('bad','C13',[(B,'sha256Hash[0:6] + "_" + filename','sha256Hash[0:6] + ".json"')]),
# C15-18
('bad','C15',[(D,'	} else if _, exists := src["errorCode"]; exists {','	} else if code, exists := src["errorCode"]; exists && code != nil {')]),
('bad','C15',[(D,'	} else if _, exists := src["entitySearchResults"]; exists {\n		d.target = &EntitySearchResults{}\n','	} else if l, ok := src["entitySearchResults"].([]any); ok && len(l) > 0 {\n		d.target = &EntitySearchResults{}\n')]),
('bad','C15',[(D,'			switch objectClassName {','			switch strings.ToLower(objectClassName) {')]),
('bad','C15',[(D,'				return nil, DecoderError{text: "objectClassName is not recognised"}','				d.target = &Help{}')]),
('bad','C16',[('domain.go','	SecureDNS *SecureDNS\n','	SecureDNS *SecureDNS `rdap:"secureDns"`\n')]),
('bad','C16',[('entity.go','`rdap:"vcardArray"`','`rdap:"vCardArray"`')]),
('bad','C17',[(D,'		if result > maxVal {','		if result >= maxVal && dst.Kind() != reflect.Uint64 {')]),
('bad','C17',[(D,'			maxVal = math.MaxUint16','			maxVal = math.MaxUint32')]),
('bad','C17',[(D,'		if src < 0 || src >= 1<<64 {','		if src < 0 || src > math.MaxUint64 {')]),
('bad','C17',[(D,'		if src < -(1<<63) || src >= 1<<63 {','		if src >= 1<<63 {')]),
('bad','C17',[(D,'		if success {\n			result = reflect.Append(','		if success || v == nil {\n			result = reflect.Append(')]),
('bad','C17',[(D,'		d.addDecodeNote(decodeData, keyName, "bool to string conversion")\n','')]),
('bad','C17',[(D,'		success, err := d.decode(keyName+":"+k, v, reflect.Indirect(vdst), decodeData)\n		if err != nil {\n			return false, err\n		}\n\n		// If the decode was successful, add to the result map.\n		if success {','		success, err := d.decode(keyName+":"+k, v, reflect.Indirect(vdst), decodeData)\n		if err != nil {\n			return false, err\n		}\n\n		// If the decode was successful, add to the result map.\n		if !success {\n			break\n		}\n		{')]),
('bad','C17',[(D,'		if success && dst.IsNil() {','		if dst.IsNil() {')]),
('bad','C18',[(DD,'		if _, isKnown := r.isKnown[f]; !isKnown {','		if isKnown := r.isKnown[f] || r.values[f] == nil; !isKnown {')]),
('bad','C18',[(P,'		if !isKnown || isOverridden {','		if !isKnown && !isOverridden && d.values[k] != nil {')]),
# C19
('bad','C19',[(P,'// cleanString returns','var cleanBuf strings.Builder\n\n// cleanString returns'),(P,'	return strings.Map(removeBadRunes, str)\n','	cleanBuf.Reset()\n	for _, r := range str {\n		if removeBadRunes(r) >= 0 {\n			cleanBuf.WriteRune(r)\n		}\n	}\n\n	return cleanBuf.String()\n')]),
('bad','C19',[(D,'	actual, _ := structPlanCache.LoadOrStore(t, plan)\n	return actual.(*structPlan)','	structPlanCache.Store(t, plan)\n	plan.knownFields["objectClassName"] = true\n	return plan')]),
# C22/24
('bad','C22',[(P,'func removeBadRunes(r rune) rune {\n	switch r {\n	case \'\\n\', \'\\r\', \'\\000\':','func removeBadRunes(r rune) rune {\n	switch r {\n	case \'\\n\', \'\\000\':')]),
('bad','C22',[(P,'if !strings.ContainsAny(str, "\\n\\r\\x00") {','if !strings.ContainsAny(str, "\\n\\x00") {')]),
('bad','C22',[(L,'safePrint(value)','value')]),
('bad','C22',[(L,"		case '\\n', '\\r':","		case '\\n':")]),
# C31
('bad','C31',[(Q,'	if strings.Contains(queryText, ".") {','	if strings.Contains(strings.Trim(queryText, "."), ".") {')]),
]
