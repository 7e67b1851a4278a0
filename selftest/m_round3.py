R='request.go';C='client.go';D='decoder.go';P='print.go';V='vcard.go';W='response.go';DD='decode_data.go'
BC='bootstrap/client.go';N='bootstrap/net_registry.go';DN='bootstrap/dns_registry.go';A='bootstrap/asn_registry.go';SP='bootstrap/service_provider_registry.go';F='bootstrap/file.go'
DC='bootstrap/cache/disk_cache.go';MC='bootstrap/cache/memory_cache.go';L='cli.go'
M=[
# C01
('bad','C01',[(R,'case \'-\', \'_\', \'.\', \'~\', \'$\', \'&\', \'+\', \':\', \'=\', \'@\':','case \'-\', \'_\', \'.\', \'~\', \'$\', \'&\', \'+\', \':\', \'=\', \'@\', \';\', \',\', \'%\':')]),
('bad','C01',[(R,'\tfor i := j; i < len(text); i++ {\n\t\tb := text[i]\n\n\t\tif !shouldPathEscape(b) {','\tfor i := j; i < len(text); i++ {\n\t\tb := text[i]\n\n\t\tif !shouldPathEscape(b) || (b == \'%\' && i+2 < len(text)) {')]),
('bad','C01',[(R,'\t\tmaps.Copy(query, r.Params)\n\t\tmaps.Copy(query, values)\n','\t\tmaps.Copy(query, values)\n\t\tfor k, v := range r.Params {\n\t\t\tif len(v) > 0 && v[0] != "" {\n\t\t\t\tquery[k] = v\n\t\t\t}\n\t\t}\n')]),
('bad','C01',[(R,'resultURL.RawQuery = query.Encode()','resultURL.RawQuery = strings.ReplaceAll(query.Encode(), "%2A", "*")'),(R,'query := r.Server.Query()','query, _ := url.ParseQuery(r.Server.RawQuery)\n\t\tif r.Server.ForceQuery {\n\t\t\tquery = url.Values{}\n\t\t}')]),
('bad','C01',[(R,'tempURL.ForceQuery = false\n','tempURL.ForceQuery = false\n\t\ttempURL.RawPath = ""\n')]),
('bad','C01',[(R,'path = fmt.Sprintf("ip/%s", strings.ReplaceAll(escapePath(r.Query), "%2F", "/"))','path = fmt.Sprintf("ip/%s", strings.Replace(escapePath(r.Query), "%2F", "/", 1))')]),
('bad','C01',[(R,'\tcase EntitySearchByHandleRequest:\n\t\tpath = "entities"\n\t\tvalues["handle"] = []string{r.Query}','\tcase EntitySearchByHandleRequest:\n\t\tpath = "entities"\n\t\tvalues["handle"] = []string{strings.ToUpper(r.Query)}')]),
('bad','C01',[(R,'values["nsIp"] = []string{r.Query}','values["nsIp"] = strings.Split(r.Query, ",")')]),
('bad','C01',[(R,'case HelpRequest:\n\t\tpath = "help"','case HelpRequest:\n\t\tpath = "help"\n\t\tif r.Query != "" {\n\t\t\tpath += "/" + r.Query\n\t\t}')]),
# C02
('bad','C02',[(R,'*resultURL = *r.Server\n','*resultURL = *r.Server\n\t\tr.Server.Fragment = ""\n')]),
('bad','C02',[(N,'\tlookupMask, _ := lookupNet.Mask.Size()\n','\tlookupMask, _ := lookupNet.Mask.Size()\n\tquestion.Query = lookupNet.String()\n')]),
('bad','C02',[(V,'\t\t\tproperties = append(properties, p)\n','\t\t\tif p.Parameters == nil {\n\t\t\t\tp.Parameters = map[string][]string{}\n\t\t\t}\n\t\t\tproperties = append(properties, p)\n')]),
('bad','C02',[(P,'\tfor _, h := range l.HrefLang {','\tslices.Sort(l.HrefLang)\n\tfor _, h := range l.HrefLang {')]),
('bad','C02',[(DN,'\treturn &Answer{\n\t\tURLs:  urls,','\tif len(urls) > 1 {\n\t\tslices.SortFunc(urls, func(a, b *url.URL) int { return strings.Compare(b.Scheme, a.Scheme) })\n\t}\n\n\treturn &Answer{\n\t\tURLs:  urls,'),(DN,'import (\n','import (\n\t"slices"\n')]),
('bad','C02',[(C,'\t\tfor _, u := range answer.URLs {\n\t\t\treqs','\t\tfor _, u := range answer.URLs {\n\t\t\tif u.Path == "" {\n\t\t\t\tu.Path = "/"\n\t\t\t}\n\t\t\treqs')]),
# C03
('bad','C03',[(C,'hrr.StatusCode == http.StatusNotFound {','hrr.StatusCode == http.StatusNotFound && len(resp.HTTP) == len(reqs) {')]),
('bad','C03',[(C,'if r.Context().Err() == context.DeadlineExceeded {','if r.Context().Err() != nil || len(reqs) == 1 {')]),
('bad','C03',[(C,'if len(httpResponse.Body) > 0 && hrr.StatusCode >= 200','if hrr.ContentLength != 0 && len(httpResponse.Body) > 0 && hrr.StatusCode >= 200')]),
('bad','C03',[(C,'hrr.StatusCode >= 200 && hrr.StatusCode <= 299','hrr.StatusCode >= 200 && hrr.StatusCode < 299')]),
('bad','C03',[(C,'\t\tfor _, u := range answer.URLs {\n\t\t\treqs = append(reqs, req.WithServer(u))\n\t\t}','\t\tfor _, u := range answer.URLs {\n\t\t\tif u.Scheme == "http" && len(answer.URLs) > 1 {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\treqs = append(reqs, req.WithServer(u))\n\t\t}')]),
('bad','C03',[(C,'\t\t\t\t\tc.Verbose(fmt.Sprintf("client: Error decoding response: %s",\n\t\t\t\t\t\thttpResponse.Error))\n\t\t\t\t\tcontinue','\t\t\t\t\tc.Verbose(fmt.Sprintf("client: Error decoding response: %s",\n\t\t\t\t\t\thttpResponse.Error))\n\t\t\t\t\tbreak')]),
# C04
('bad','C04',[(C,'\treq := &Request{\n\t\tType:  AutnumRequest,\n\t\tQuery: autnum,\n\t}','\treq := &Request{\n\t\tType:  AutnumRequest,\n\t\tQuery: strings.TrimLeft(autnum, "AS"),\n\t}')]),
('bad','C04',[('client_error.go','strings.Join(e.Description, " ")','strings.Join(e.Description[:min(1, len(e.Description))], " ")')]),
# C05
('bad','C05',[(C,'if req.Timeout > 0 {\n\t\tctx, cancelFunc := context.WithTimeout(req.Context(), req.Timeout)','if _, has := req.Context().Deadline(); req.Timeout > 0 && !has {\n\t\tctx, cancelFunc := context.WithTimeout(req.Context(), req.Timeout)')]),
('bad','C05',[(C,'question = question.WithContext(req.Context())','if req.Timeout > 0 {\n\t\t\tquestion = question.WithContext(req.Context())\n\t\t}')]),
('bad','C05',[(R,'func (r *Request) WithServer(server *url.URL) *Request {\n\tr2 := new(Request)\n\t*r2 = *r\n\tr2.Server = server\n','func (r *Request) WithServer(server *url.URL) *Request {\n\tr2 := NewRequest(r.Type, r.Query)\n\tr2.Params = r.Params\n\tr2.Timeout = r.Timeout\n\tr2.FetchRoles = r.FetchRoles\n\tr2.Server = server\n')]),
# C06
('bad','C06',[(C,'req.Header.Add("Accept", "application/rdap+json, application/json")','if rdapReq.Type != RawRequest {\n\t\treq.Header.Add("Accept", "application/rdap+json, application/json")\n\t}')]),
('bad','C06',[(C,'\tdefer resp.Body.Close()\n\thttpResponse.Body,','\tif resp.ContentLength == 0 {\n\t\treturn httpResponse\n\t}\n\n\tdefer resp.Body.Close()\n\thttpResponse.Body,')]),
('bad','C06',[(C,'if c.UserAgent != "" {\n\t\treq.Header.Add("User-Agent", c.UserAgent)','if c.UserAgent != "" && req.URL.Scheme == "https" {\n\t\treq.Header.Add("User-Agent", c.UserAgent)')]),
# C08/C09
('bad','C08',[(DN,'input = strings.TrimSuffix(input, ".")','input = strings.TrimRight(input, ".")')]),
('bad','C08',[(SP,'service := input[offset+1:]','service := strings.ToUpper(input[offset+1:])')]),
('bad','C08',[(A,'func parseASN(asn string) (uint32, error) {\n\tasn = strings.ToLower(asn)\n\tasn = strings.TrimPrefix(asn, "as")','func parseASN(asn string) (uint32, error) {\n\tasn = strings.ToLower(asn)\n\tasn = strings.TrimLeft(asn, "as")')]),
('bad','C08',[(A,'\tresult, err := strconv.ParseUint(asn, 10, 32)','\tresult, err := strconv.ParseUint(asn, 0, 32)')]),
('bad','C08',[(F,'\t\t\tfor _, entry := range entries {\n\t\t\t\tf.Entries[entry] = urls','\t\t\tfor _, entry := range entries {\n\t\t\t\tf.Entries[entry] = append(f.Entries[entry], urls...)')]),
('bad','C08',[(F,'\t\tvar urls []*url.URL\n\n\t\tfor','\t\tfor'),(F,'\tfor _, s := range doc.Services {\n','\tvar urls []*url.URL\n\n\tfor _, s := range doc.Services {\n\t\turls = urls[:0]\n')]),
('bad','C09',[(N,'mask < bestMask || mask > lookupMask','mask <= bestMask || mask > lookupMask')]),
('bad','C09',[(N,'\t\tbestMask = mask\n','\t\tbestMask = max(bestMask, mask) &^ 7\n')]),
('bad','C09',[(F,'\t\tif len(urls) > 0 {\n\t\t\tfor _, entry := range entries {','\t\tif len(urls) > 0 {\n\t\t\tfor _, entry := range entries {\n\t\t\t\tif entry == "" {\n\t\t\t\t\tcontinue\n\t\t\t\t}')]),
('bad','C09',[(N,'return bytes.Compare(a[i].Net.IP, a[j].Net.IP) <= 0','return bytes.Compare(a[i].Net.IP[1:], a[j].Net.IP[1:]) <= 0')]),
# C10/C11
('bad','C10',[(BC,'if c.registries[registry] == nil || forceDownload {','if c.registries[registry] == nil || (forceDownload && question.Context().Err() == nil) {')]),
('bad','C10',[(BC,'\tif state == cache.ShouldReload {\n\t\tif err','\tif state == cache.ShouldReload && c.registries[registry] == nil {\n\t\tif err')]),
('bad','C11',[(BC,'\tjson, err := io.ReadAll(resp.Body)\n','\tjson, err := io.ReadAll(io.LimitReader(resp.Body, 1<<22))\n')]),
('bad','C11',[(BC,'\terr = c.Cache.Save(c.filenameFor(registry), json)\n\tif err != nil {\n\t\treturn err\n\t}\n\n\tc.registries[registry] = s\n','\tc.registries[registry] = s\n\n\terr = c.Cache.Save(c.filenameFor(registry), json)\n\tif err != nil {\n\t\treturn err\n\t}\n')]),
('bad','C11',[(BC,'json, err := io.ReadAll(resp.Body)\n\tif err != nil {','json, err := io.ReadAll(resp.Body)\n\tif err != nil && len(json) == 0 {')]),
# C12/C13
('bad','C12',[(DC,'haveLoaded && !fileModTime.After(lastLoadedModTime)','haveLoaded && !fileModTime.Truncate(time.Minute).After(lastLoadedModTime)')]),
('bad','C12',[(DC,'haveLoaded && !fileModTime.After(lastLoadedModTime)','haveLoaded || !fileModTime.After(lastLoadedModTime)')]),
('bad','C12',[(MC,'\tm.cache[filename] = make([]byte, len(data))\n\tcopy(m.cache[filename], data)','\tif cap(m.cache[filename]) < len(data) {\n\t\tm.cache[filename] = make([]byte, len(data))\n\t}\n\tcopy(m.cache[filename], data)')]),
('bad','C12',[(MC,'\tif expiry.Before(time.Now()) {','\tif m.Timeout > 0 && expiry.Before(time.Now()) {')]),
('bad','C13',[(BC,'if c.BaseURL.String() != DefaultBaseURL {','if c.BaseURL.Host != "data.iana.org" {')]),
('bad','C13',[(BC,'if c.BaseURL.String() != DefaultBaseURL {','if strings.TrimSuffix(c.BaseURL.String(), "/") != strings.TrimSuffix(DefaultBaseURL, "/") {'),(BC,'import (\n','import (\n\t"strings"\n')]),
('bad','C13',[(BC,'if c.BaseURL.String() != DefaultBaseURL {','if !strings.HasPrefix(c.BaseURL.String(), DefaultBaseURL) {'),(BC,'import (\n','import (\n\t"strings"\n')]),
# C15-C18
('bad','C15',[(D,'if objectClassName, ok := o.(string); ok {\n\t\t\tswitch objectClassName {','if objectClassName, ok := o.(string); ok {\n\t\t\tswitch strings.ToLower(objectClassName) {')]),
('bad','C15',[(D,'_, exists := src["entitySearchResults"]; exists {','v, exists := src["entitySearchResults"]; exists && v != nil {')]),
('bad','C16',[('common.go','rdap:"port43"','rdap:"port_43"')]),
('bad','C17',[(D,'\t\tresult, convError = strconv.ParseUint(src, 10, 64)\n','\t\tresult, convError = strconv.ParseUint(strings.TrimSpace(src), 0, 64)\n')]),
('bad','C17',[(D,'\t\t// Only if the decode was successful, append to result slice.\n\t\tif success {','\t\t// Only if the decode was successful, append to result slice.\n\t\tif success || vdst.Elem().Kind() == reflect.Struct {')]),
('bad','C17',[(D,'\t\tif src < 0 || src >= 1<<64 {','\t\tif src < 0 || src > 1<<64 {')]),
('bad','C17',[(D,'\t\td.addDecodeNote(decodeData, keyName, "invalid JSON type, expecting bool")\n\t\tsuccess = false','\t\tsuccess = false')]),
('bad','C18',[(P,'isKnown := d.isKnown[k]\n','isKnown := d.isKnown[k] || strings.HasPrefix(k, "@")\n')]),
('bad','C18',[(DD,'if _, isKnown := r.isKnown[f]; !isKnown {','if _, isKnown := r.isKnown[f]; !isKnown && r.values[f] != nil {')]),
# C20
('bad','C20',[(V,'if !ok || len(top) != 2 {','if !ok || len(top) < 2 {')]),
('bad','C20',[(V,'\t} else if len(a) < 4 {','\t} else if len(a) < 3 {')]),
('bad','C20',[(V,'\tif len(a) == 4 {\n\t\tvalue, err = readValue(a[3], 0)','\tif len(a) == 4 || propertyType == "text" {\n\t\tvalue, err = readValue(a[3], 0)')]),
('bad','C20',[(V,"strconv.FormatFloat(v, 'f', -1, 64))\n\tcase string:\n\t\t*strings","strconv.FormatFloat(v, 'f', 6, 64))\n\tcase string:\n\t\t*strings")]),
('bad','C20',[(V,'\t\tif s, ok := v.(string); ok {\n\t\t\tparams[k] = append(params[k], s)','\t\tif s, ok := v.(string); ok {\n\t\t\tparams[k] = strings.Split(s, ",")')]),
# C21-C24
('bad','C21',[(P,'\tif value == "" {\n\t\treturn\n\t}\n\n\tfmt','\tif strings.TrimSpace(value) == "" {\n\t\treturn\n\t}\n\n\tfmt')]),
('bad','C21',[(P,'\tif s.MaxSigLife != nil {','\tif s.MaxSigLife != nil && *s.MaxSigLife > 0 {')]),
('bad','C21',[(P,'\tif n.IPAddresses != nil {\n','\tif n.IPAddresses != nil && (len(n.IPAddresses.V4) > 0 || len(n.IPAddresses.V6) > 0) {\n')]),
('bad','C21',[(P,'\tfor _, ip := range s.V6 {\n\t\tp.printValue("IPv6", ip, indentLevel)\n\t}\n\n\tfor _, ip := range s.V4 {','\tfor _, ip := range s.V6 {\n\t\tp.printValue("IPv6", ip, indentLevel)\n\t}\n\n\tfor _, ip := range slices.Compact(slices.Clone(s.V4)) {')]),
('bad','C21',[(P,'\tcase []any:\n\t\tfor _, value2 := range value {','\tcase []any:\n\t\tif len(value) > 100 {\n\t\t\tvalue = value[:100]\n\t\t}\n\t\tfor _, value2 := range value {')]),
('bad','C22',[(P,'if !strings.ContainsAny(str, "\\n\\r\\x00") {','if !strings.ContainsAny(str, "\\n\\x00") {')]),
('bad','C22',[(P,'\tfmt.Fprintf(p.Writer, "%s%s:\\n",\n\t\tp.indent(indentLevel),\n\t\tp.cleanString(heading))','\tfmt.Fprintf(p.Writer, "%s%s:\\n",\n\t\tp.indent(indentLevel),\n\t\theading)')]),
('bad','C22',[(L,"\t\tcase '\\n', '\\r':\n\t\t\treturn ' '","\t\tcase '\\n':\n\t\t\treturn ' '")]),
('bad','C23',[(P,'\t\tslices.Sort(keys)\n\n\t\tfor _, key2','\t\tif len(keys) > 10 {\n\t\t\tslices.Sort(keys)\n\t\t}\n\n\t\tfor _, key2')]),
('bad','C23',[(P,'\tslices.Sort(keys)\n\n\tfor _, k := range keys','\tslices.SortFunc(keys, func(a, b string) int { return len(a) - len(b) })\n\n\tfor _, k := range keys')]),
('bad','C24',[(P,'\tfor _, r := range e.Roles {','\tif p.BriefOutput && indentLevel > 2 {\n\t\treturn\n\t}\n\n\tfor _, r := range e.Roles {')]),
('bad','C24',[(P,'\tfor _, d := range r.Description {\n\t\tp.printValue("Description", d, indentLevel)\n\t}\n\n\tfor _, l := range r.Links {','\tfor _, d := range r.Description {\n\t\tp.printValue("Description", d, indentLevel)\n\t}\n\n\tif p.OmitNotices {\n\t\treturn\n\t}\n\n\tfor _, l := range r.Links {')]),
# C30/C31
('bad','C30',[(W,'\tfor _, e := range entities {\n\t\tif slices.Contains(e.Roles, role) {','\tfor _, e := range entities {\n\t\tif len(e.Roles) > 0 && e.Roles[0] == role {')]),
('bad','C30',[(W,'\tv := e.VCard\n\tif v == nil {\n\t\treturn\n\t}\n','\tv := e.VCard\n\tif v == nil {\n\t\treturn\n\t}\n\n\tif v.Name() == "" {\n\t\treturn\n\t}\n')]),
('bad','C30',[(W,'\t\tcase "last changed":','\t\tcase "last changed", "last update of RDAP database":')]),
('bad','C31',[(R,'(fullURL.Scheme == "http" || fullURL.Scheme == "https")','(fullURL.Scheme == "http" || fullURL.Scheme == "https") && fullURL.Host != ""')]),
('bad','C31',[(R,'return NewDomainRequest(fullURL.Host)','return NewDomainRequest(fullURL.Hostname())')]),
('bad','C31',[(R,'\tautnum = strings.ToUpper(autnum)\n\tautnum = strings.TrimPrefix(autnum, "AS")\n\tresult, err := strconv.ParseUint(autnum, 10, 32)','\tautnum = strings.ToUpper(autnum)\n\tautnum = strings.TrimPrefix(autnum, "AS")\n\tresult, err := strconv.ParseUint(strings.TrimPrefix(autnum, "N"), 10, 32)')]),
]
