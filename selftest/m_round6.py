# breaking edits written from the property texts, sixth round
C='client.go'; R='request.go'; B='bootstrap/client.go'; V='vcard.go'; P='print.go'; D='decoder.go'; L='cli.go'; W='response.go'
DC='bootstrap/cache/disk_cache.go'; MC='bootstrap/cache/memory_cache.go'; N='bootstrap/net_registry.go'; A='bootstrap/asn_registry.go'; DN='bootstrap/dns_registry.go'; SP='bootstrap/service_provider_registry.go'; F='bootstrap/file.go'
M=[
# request
('bad','C01',[(R,"case '-', '_', '.', '~', '$', '&', '+', ':', '=', '@':","case '-', '_', '.', '~', '$', '&', '+', ':', '=', '@', ';', '?':")]),
('bad','C01',[(R,'\t\tmaps.Copy(query, r.Params)\n\t\tmaps.Copy(query, values)','\t\tmaps.Copy(query, values)\n\t\tmaps.Copy(query, r.Params)')]),
('bad','C01',[(R,'\t\ttempURL.ForceQuery = false\n','\t\ttempURL.ForceQuery = false\n\t\ttempURL.User = nil\n')]),
('bad','C01',[(R,'"0123456789ABCDEF"[b>>4],','"0123456789ABCDEF"[b>>5],')]),
('bad','C01',[(R,'\tfor i := j; i < len(text); i++ {\n\t\tb := text[i]','\tfor i := j + 1; i < len(text); i++ {\n\t\tb := text[i]')]),
('bad','C31',[(R,'\t\tQuery: strconv.FormatUint(uint64(asn), 10),','\t\tQuery: strconv.FormatInt(int64(int32(asn)), 10),')]),
('bad','C05',[(R,'\tr2 := new(Request)\n\t*r2 = *r\n\tr2.Server = server','\tr2 := new(Request)\n\t*r2 = *r\n\tr2.ctx = nil\n\tr2.Server = server')]),
('bad','C03',[(R,'\tr2 := new(Request)\n\t*r2 = *r\n\tr2.Server = server','\tr2 := &Request{Type: r.Type, Query: r.Query, Timeout: r.Timeout, ctx: r.ctx}\n\tr2.Server = server')]),
# client
('bad','C03',[(C,'\t\t\tif r.Context().Err() == context.DeadlineExceeded {\n','\t\t\tif r.Context().Err() == context.DeadlineExceeded || os.IsTimeout(httpResponse.Error) {\n'),(C,'import (','import (\n\t"os"')]),
('bad','C03',[(C,'\t\t\t} else if hrr.StatusCode == http.StatusNotFound {','\t\t\t} else if hrr.StatusCode == http.StatusNotFound && len(httpResponse.Body) > 0 {')]),
('bad','C03',[(C,'\t\t\t} else if hrr.StatusCode == http.StatusNotFound {','\t\t\t} else if hrr.StatusCode == http.StatusNotFound && len(resp.HTTP) == 1 {')]),
('bad','C03',[(C,'\t\t\t\t\tc.Verbose(fmt.Sprintf("client: Error decoding response: %s",\n\t\t\t\t\t\thttpResponse.Error))\n\t\t\t\t\tcontinue','\t\t\t\t\tc.Verbose(fmt.Sprintf("client: Error decoding response: %s",\n\t\t\t\t\t\thttpResponse.Error))\n\t\t\t\t\tbreak')]),
('bad','C03',[(C,'\t\tfor _, u := range answer.URLs {\n','\t\tfor _, u := range answer.URLs {\n\t\t\tif u.Scheme == "http" {\n\t\t\t\tcontinue\n\t\t\t}\n')]),
('bad','C06',[(C,'\treq.Header.Add("Accept", "application/rdap+json, application/json")','\treq.Header.Add("Accept", "application/json, application/rdap+json;q=0")')]),
('bad','C06',[(C,'\tif c.UserAgent != "" {\n','\tif c.UserAgent != "" && req.Host == rdapReq.Server.Host {\n')]),
('bad','C05',[(C,'\tif req.Timeout > 0 {\n','\tif req.Timeout > 0 && req.Server != nil {\n')]),
('bad','C05',[(C,'\tif req.Timeout > 0 {\n','\tif req.Timeout >= time.Second {\n')]),
# bootstrap client
('bad','C07',[(B,'\tif baseURL.Path != "" && baseURL.Path[len(baseURL.Path)-1] != \'/\' {\n\t\tbaseURL.Path += "/"\n\t}\n','')]),
('bad','C10',[(B,'\tforceDownload := state == cache.Absent || state == cache.Expired','\tforceDownload := state == cache.Absent')]),
('bad','C10',[(B,'\tforceDownload := state == cache.Absent || state == cache.Expired','\tforceDownload := c.registries[registry] == nil && (state == cache.Absent || state == cache.Expired)')]),
('bad','C11',[(B,'\terr = c.Cache.Save(c.filenameFor(registry), json)\n\tif err != nil {\n\t\treturn err\n\t}\n\n\tc.registries[registry] = s','\tc.registries[registry] = s\n\n\terr = c.Cache.Save(c.filenameFor(registry), json)\n\tif err != nil {\n\t\treturn err\n\t}')]),
('bad','C12',[(B,'\t\tc.Cache.SetTimeout(DefaultCacheTimeout)\n','\t\tc.Cache.SetTimeout(DefaultCacheTimeout * 7)\n')]),
('bad','C13',[(B,'\tif c.BaseURL.String() != DefaultBaseURL {','\tif c.BaseURL.Host != "data.iana.org" {')]),
('bad','C10',[(B,'\tc.init()\n\tc.freshenFromCache(IPv6)\n','\tc.init()\n\tc.freshenFromCache(IPv6)\n\tif c.registries[IPv6] == nil {\n\t\t_ = c.Download(IPv6)\n\t}\n')]),
('bad','C05',[(B,'\t\terr := c.DownloadWithContext(question.Context(), registry)','\t\terr := c.DownloadWithContext(context.WithoutCancel(question.Context()), registry)')]),
# decoder
('bad','C17',[(D,'if src < 0 || src >= 1<<64 {','if src < -1 || src >= 1<<64 {')]),
('bad','C17',[(D,'\t\tcase reflect.Uint16:\n\t\t\tmaxVal = math.MaxUint16','\t\tcase reflect.Uint16:\n\t\t\tmaxVal = math.MaxUint32')]),
('bad','C17',[(D,'\t\tif success && dst.IsNil() {','\t\tif dst.IsNil() {')]),
('bad','C17',[(D,'\t\tif success {\n\t\t\tresult = reflect.Append(','\t\tif success || v == nil {\n\t\t\tresult = reflect.Append(')]),
('bad','C18',[(D,'\t\t\tvalues:  srcMap,\n','\t\t\tvalues:  map[string]any{},\n')]),
('bad','C15',[(D,'} else if _, exists := src["errorCode"]; exists {','} else if v, exists := src["errorCode"]; exists && v != nil {')]),
('bad','C15',[(D,'} else if o, exists := src["objectClassName"]; exists {','} else if o, exists := src["objectClassName"]; exists && o != nil {')]),
('bad','C17',[(D,'result, convError = strconv.ParseInt(src, 10, 64)','result, convError = strconv.ParseInt(strings.TrimSpace(src), 0, 64)')]),
('bad','C17',[(D,'\tdecodeData.notes[key] = append(decodeData.notes[key], msg)','\tif len(decodeData.notes[key]) == 0 {\n\t\tdecodeData.notes[key] = []string{msg}\n\t} else {\n\t\tdecodeData.notes[""] = append(decodeData.notes[""], msg)\n\t}')]),
# vcard
('bad','C20',[(V,'if depth == 3 {','if depth == 1 {')]),
('bad','C20',[(V,'\t\tvalue, err = readValue(a[3:], 0)','\t\tvalue, err = readValue(a[3:4], 0)')]),
('bad','C20',[(V,'\t\tif types, ok := p.Parameters["type"]; ok {\n\t\t\tif slices.Contains(types, "voice") {\n\t\t\t\tisVoice = true','\t\tif types, ok := p.Parameters["type"]; ok {\n\t\t\tif slices.Contains(types, "voice") && len(types) == 1 {\n\t\t\t\tisVoice = true')]),
('bad','C20',[(V,"strconv.FormatFloat(v, 'f', -1, 64)","strconv.FormatFloat(v, 'f', -1, 32)")]),
('bad','C20',[(V,'if !ok || len(top) != 2 {','if !ok || len(top) < 2 {')]),
('bad','C20',[(V,"\tif index >= len(components) {\n\t\treturn \"\"\n\t}","\tif index >= len(components) {\n\t\tindex = len(components) - 1\n\t}\n\tif index < 0 {\n\t\treturn \"\"\n\t}")]),
('bad','C20',[(V,'\treturn strings.Join(property.Values(), " ")','\treturn strings.TrimSpace(strings.Join(property.Values(), " "))')]),
# cli
('bad','C27',[(L,'\tbs.HTTP = &http.Client{\n\t\tTransport: transport,\n\t}','\tbs.HTTP = &http.Client{\n\t\tTransport: &http.Transport{TLSClientConfig: &tls.Config{Certificates: tlsConfig.Certificates}},\n\t}')]),
('bad','C27',[(L,'*clientP12FilenameAndPassword, ":", 2)','*clientP12FilenameAndPassword, ":", 3)')]),
('bad','C28',[(L,'\t\tif serverURL.Scheme == "" {\n\t\t\tserverURL.Scheme = "http"\n\t\t}\n','\t\tif serverURL.Scheme == "" {\n\t\t\tserverURL.Scheme = "http"\n\t\t}\n\t\tserverURL.Path = ""\n')]),
('bad','C32',[(L,'bs.Cache.SetTimeout(time.Duration(*bootstrapTimeoutFlag) * time.Second)','if *cacheDirFlag != "" {\n\t\t\tbs.Cache.SetTimeout(time.Duration(*bootstrapTimeoutFlag) * time.Second)\n\t\t}')]),
('bad','C25',[(L,'\t\tif _, err := out.WriteTo(stdout); err != nil {\n\t\t\tprintError(stderr, fmt.Sprintf("Error writing output: %s", err))\n\t\t\treturn 1\n\t\t}','\t\tif _, err := out.WriteTo(stdout); err != nil {\n\t\t\tprintError(stderr, fmt.Sprintf("Error writing output: %s", err))\n\t\t}')]),
('bad','C25',[(L,'\t\tif err := json.Indent(&out, resp.HTTP[len(resp.HTTP)-1].Body, "", "  "); err != nil {\n\t\t\tprintError(stderr, fmt.Sprintf("Error: response body is not valid JSON: %s", err))\n\t\t\treturn 1\n\t\t}','\t\tif err := json.Indent(&out, resp.HTTP[len(resp.HTTP)-1].Body, "", "  "); err != nil {\n\t\t\treturn 1\n\t\t}')]),
('bad','C29',[(L,'fmt.Fprintf(stdout, "%s", resp.HTTP[len(resp.HTTP)-1].Body)','fmt.Fprintf(stdout, "%s", strings.ToValidUTF8(string(resp.HTTP[len(resp.HTTP)-1].Body), "?"))')]),
('bad','C22',[(L,"\t\tcase '\\n', '\\r':\n\t\t\treturn ' '","\t\tcase '\\n':\n\t\t\treturn ' '")]),
('bad','C26',[(L,'\t\t\tif !options.Sandbox {\n\t\t\t\tdc.Dir = *cacheDirFlag\n\t\t\t} else {','\t\t\tif !options.Sandbox || !experiments["sandbox"] {\n\t\t\t\tdc.Dir = *cacheDirFlag\n\t\t\t} else {')]),
('bad','C26',[(L,'\t\tif options.Sandbox {\n\t\t\tp12, err = sandbox.LoadFile(p12FilenameAndPassword[0])\n\t\t} else {','\t\tif options.Sandbox {\n\t\t\tp12, err = sandbox.LoadFile(p12FilenameAndPassword[0])\n\t\t}\n\t\tif !options.Sandbox || os.IsNotExist(err) {')]),
('bad','C05',[(L,'context.WithTimeout(context.Background(), time.Duration(*timeoutFlag)*time.Second)','context.WithTimeout(context.Background(), time.Duration(uint8(*timeoutFlag))*time.Second)')]),
]
