# breaking edits written from the property texts, fourth round
C='client.go'; R='request.go'; B='bootstrap/client.go'; V='vcard.go'; P='print.go'; D='decoder.go'; L='cli.go'; W='response.go'
DC='bootstrap/cache/disk_cache.go'; MC='bootstrap/cache/memory_cache.go'; N='bootstrap/net_registry.go'; A='bootstrap/asn_registry.go'; DN='bootstrap/dns_registry.go'; SP='bootstrap/service_provider_registry.go'; F='bootstrap/file.go'
M=[
# C01
('bad','C01',[(R,"'-', '_', '.', '~', '$', '&', '+', ':', '=', '@':","'-', '_', '.', '~', '$', '&', '+', ':', '=', '@', '%':")]),
('bad','C01',[(R,'"0123456789ABCDEF"[b>>4],\n\t\t\t\t"0123456789ABCDEF"[b&0xF],','"0123456789ABCDEF"[b&0x7F>>4],\n\t\t\t\t"0123456789ABCDEF"[b&0xF],')]),
('bad','C01',[(R,'\tfor i := j; i < len(text); i++ {\n\t\tb := text[i]','\tfor i := j + 1; i < len(text); i++ {\n\t\tb := text[i]')]),
('bad','C01',[(R,'\t\tresultURL.RawQuery = query.Encode()\n','\t\tresultURL.RawQuery = query.Encode()\n\t\tif s, err := url.QueryUnescape(resultURL.RawQuery); err == nil && len(values) > 0 {\n\t\t\tresultURL.RawQuery = s\n\t\t}\n')]),
('bad','C01',[(R,'\t\ttempURLString := tempURL.String()\n','\t\ttempURL.Path = strings.TrimSuffix(tempURL.Path, "/rdap")\n\t\ttempURLString := tempURL.String()\n')]),
('bad','C01',[(R,'values["nsIp"] = []string{r.Query}','values["nsIp"] = []string{strings.ToLower(r.Query)}')]),
('bad','C01',[(R,'values["handle"] = []string{r.Query}\n\tcase AutnumSearchRequest','values["fn"] = []string{r.Query}\n\tcase AutnumSearchRequest')]),
# C02
('bad','C01',[(R,'\t\tmaps.Copy(query, r.Params)\n\t\tmaps.Copy(query, values)','\t\tmaps.Copy(query, values)\n\t\tmaps.Copy(query, r.Params)')]),
('bad','C01',[(R,'\t\tresultURL.Fragment = r.Server.Fragment\n','')]),
('bad','C03',[(R,'\tr2.Server = server\n\n','\tr2.Server = server\n\tr2.Params = nil\n\n')]),
# C03
('bad','C03',[(C,'if r.Context().Err() == context.DeadlineExceeded {','if r.Context().Err() == context.Canceled {')]),
('bad','C03',[(C,'\t\t\t} else if hrr.StatusCode == http.StatusNotFound {','\t\t\t} else if hrr.StatusCode == http.StatusNotFound || hrr.StatusCode == http.StatusGone {')]),
('bad','C03',[(C,'if len(httpResponse.Body) > 0 && hrr.StatusCode >= 200','if len(httpResponse.Body) > 1 && hrr.StatusCode >= 200')]),
('bad','C03',[(C,'\t\t\t\t\t\thttpResponse.Error))\n\t\t\t\t\tcontinue\n','\t\t\t\t\t\thttpResponse.Error))\n\t\t\t\t\tbreak\n')]),
('bad','C03',[(C,'\t\tfor _, u := range answer.URLs {\n\t\t\treqs = append(reqs, req.WithServer(u))','\t\tfor _, u := range answer.URLs {\n\t\t\tif len(answer.URLs) > 1 && u.Scheme == "http" {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\treqs = append(reqs, req.WithServer(u))')]),
('bad','C03',[(C,'\t\thttpResponse := c.get(r)\n\t\tresp.HTTP = append(resp.HTTP, httpResponse)\n','\t\thttpResponse := c.get(r)\n\t\tif httpResponse.URL != "" {\n\t\t\tresp.HTTP = append(resp.HTTP, httpResponse)\n\t\t}\n')]),
('bad','C03',[(C,'\t\tanswer, err = c.Bootstrap.Lookup(question)\n\t\tresp.BootstrapAnswer = answer\n\n\t\tif err != nil {\n\t\t\treturn resp, err\n\t\t}\n','\t\tanswer, err = c.Bootstrap.Lookup(question)\n\t\tif err != nil {\n\t\t\treturn resp, err\n\t\t}\n\t\tif len(answer.URLs) > 0 {\n\t\t\tresp.BootstrapAnswer = answer\n\t\t}\n')]),
# C05
('bad','C05',[(C,'question = question.WithContext(req.Context())','question.WithContext(req.Context())')]),
('bad','C05',[(C,'\tif req.Timeout > 0 {','\tif req.Timeout >= time.Second {')]),
('bad','C05',[(B,'err := c.DownloadWithContext(question.Context(), registry)','err := c.Download(registry)')]),
('bad','C05',[(R,'\tr2 := new(Request)\n\t*r2 = *r\n\tr2.Server = server\n','\tr2 := &Request{Type: r.Type, Query: r.Query, Params: r.Params, FetchRoles: r.FetchRoles, Timeout: r.Timeout}\n\tr2.Server = server\n')]),
# C06
('bad','C06',[(C,'\tif c.UserAgent != "" {\n\t\treq.Header.Add("User-Agent", c.UserAgent)','\tif len(c.UserAgent) > 3 {\n\t\treq.Header.Add("User-Agent", c.UserAgent)')]),
('bad','C06',[(C,'io.ReadAll(resp.Body)','io.ReadAll(io.LimitReader(resp.Body, 1<<20))')]),
('bad','C06',[(C,'\treq.Header.Add("Accept", "application/rdap+json, application/json")','\tif req.Header.Get("User-Agent") == "" {\n\t\treq.Header.Add("Accept", "application/rdap+json, application/json")\n\t}')]),
# C08, C09
('bad','C09',[(N,'if mask < bestMask || mask > lookupMask {','if mask <= bestMask || mask > lookupMask {')]),
('bad','C08',[(SP,'strings.LastIndexByte','strings.IndexByte')]),
('bad','C08',[(F,'\t\t\tentries = s[1]\n\t\t\trawURLs = s[2]','\t\t\tentries = s[0]\n\t\t\trawURLs = s[2]')]),
('bad','C09',[(F,'\t\tif len(urls) > 0 {\n','\t\tif len(urls) > 0 && len(urls) == len(rawURLs) {\n')]),
('bad','C09',[(F,'\t\t\tif err != nil {\n\t\t\t\tcontinue\n\t\t\t}','\t\t\tif err != nil {\n\t\t\t\tbreak\n\t\t\t}')]),
# C10, C11
('bad','C10',[(B,'\tforceDownload := state == cache.Absent || state == cache.Expired\n','\tforceDownload := state == cache.Expired\n')]),
('bad','C11',[(B,'\terr = c.Cache.Save(c.filenameFor(registry), json)\n\tif err != nil {\n\t\treturn err\n\t}\n\n\tc.registries[registry] = s\n','\tc.registries[registry] = s\n\n\terr = c.Cache.Save(c.filenameFor(registry), json)\n\tif err != nil {\n\t\tdelete(c.registries, registry)\n\t\treturn err\n\t}\n')]),
('bad','C11',[(B,'\tjson, err := io.ReadAll(resp.Body)\n\tif err != nil {\n\t\treturn nil, nil, err\n\t}','\tjson, err := io.ReadAll(resp.Body)\n\tif err != nil && len(json) == 0 {\n\t\treturn nil, nil, err\n\t}')]),
('bad','C10',[(B,'\tif c.registries[registry] == nil || forceDownload {','\tif c.registries[registry] == nil || forceDownload && state != cache.ShouldReload {')]),
('bad','C11',[(B,'\tvar s Registry\n\ts, err = newRegistry(registry, json)\n\tif err != nil {\n\t\treturn err\n\t}\n\n\tc.registries[registry] = s\n\n\treturn nil','\tvar s Registry\n\ts, err = newRegistry(registry, json)\n\tc.registries[registry] = s\n\n\treturn err')]),
# C20
('bad','C20',[(V,'\t\tfor _, v2 := range v {\n\t\t\tp.appendValueStrings(v2, strings)\n\t\t}','\t\tfor _, v2 := range v {\n\t\t\tif v2 != nil {\n\t\t\t\tp.appendValueStrings(v2, strings)\n\t\t\t}\n\t\t}')]),
('bad','C20',[(V,'\t\tif p.Name == name {','\t\tif strings.EqualFold(p.Name, name) {')]),
('bad','C20',[(V,"strconv.FormatFloat(v, 'f', -1, 64))\n\tcase string:\n\t\t*strings","strconv.FormatFloat(v, 'g', -1, 64))\n\tcase string:\n\t\t*strings")]),
('bad','C20',[(V,'\tif len(a) == 4 {\n\t\tvalue, err = readValue(a[3], 0)','\tif len(a) <= 5 {\n\t\tvalue, err = readValue(a[3], 0)')]),
('bad','C20',[(V,'\t\t\tfor _, value := range arr {\n\t\t\t\tif s, ok := value.(string); ok {\n\t\t\t\t\tparams[k] = append(params[k], s)\n\t\t\t\t}','\t\t\tfor _, value := range arr {\n\t\t\t\tif s, ok := value.(string); ok {\n\t\t\t\t\tparams[k] = []string{s}\n\t\t\t\t}')]),
# C15..C18
('bad','C17',[(D,'\t\tif success {\n\t\t\tresult = reflect.Append(result, reflect.Indirect(vdst))\n\t\t}','\t\tif success || v == nil {\n\t\t\tresult = reflect.Append(result, reflect.Indirect(vdst))\n\t\t}')]),
('bad','C17',[(D,'\t\tif index, ok := plan.fieldIndex[name]; ok {\n','\t\tif index, ok := plan.fieldIndex[name]; ok && value != nil {\n')]),
('bad','C19',[(D,'\tactual, _ := structPlanCache.LoadOrStore(t, plan)\n\treturn actual.(*structPlan)','\tstructPlanCache.Store(t, plan)\n\tlastPlan = plan\n\treturn plan'),(D,'var structPlanCache sync.Map','var lastPlan *structPlan\n\nvar structPlanCache sync.Map')]),
# C21, C22, C24
('bad','C21',[(P,'\tfor _, h := range l.HrefLang {\n\t\tp.printValue("HrefLang", h, indent)\n\t}','\tif len(l.HrefLang) > 0 {\n\t\tp.printValue("HrefLang", l.HrefLang[0], indent)\n\t}')]),
('bad','C22',[(P,"\tcase '\\n', '\\r', '\\000':","\tcase '\\n', '\\r':")]),
('bad','C24',[(P,'\tif p.BriefLinks {\n\t\tp.printValue("Link", l.Href, indent)\n\t\treturn\n','\tif p.BriefLinks && l.Href != l.Value {\n\t\tp.printValue("Link", l.Href, indent)\n\t\treturn\n')]),
('bad','C21',[(P,'\tp.printValue("Actor", e.Actor, indentLevel)','\tif asEventActor {\n\t\tp.printValue("Actor", e.Actor, indentLevel)\n\t}')]),
('bad','C22',[(P,'\tif !strings.ContainsAny(str, "\\n\\r\\x00") {\n\t\treturn str\n\t}','\tif len(str) > 4096 || !strings.ContainsAny(str, "\\n\\r\\x00") {\n\t\treturn str\n\t}')]),
# C25.. C32
('bad','C29',[(L,'resp.HTTP[len(resp.HTTP)-1].Body, "", "  ")','bytes.TrimSpace(resp.HTTP[0].Body), "", "  ")')]),
('bad','C30',[(W,'\t\t\tif id.Type == "IANA Registrar ID" {','\t\t\tif id.Type != "" {')]),
('bad','C30',[(W,'\tfor _, n := range d.Nameservers {\n\t\tw.add("Name Server", n.LDHName)','\tfor _, n := range d.Nameservers {\n\t\tw.add("Name Server", strings.ToLower(n.LDHName))'),(W,'import (','import (\n\t"strings"')]),
('bad','C22',[(L,'key, safePrint(value))','key, value)')]),
('bad','C32',[(L,'\t\t} else if err != nil {\n\t\t\tprintError(stderr, fmt.Sprintf("rdap: Error making cache dir','\t\t} else if err != nil && *cacheDirFlag != "default" {\n\t\t\tprintError(stderr, fmt.Sprintf("rdap: Error making cache dir')]),
('bad','C32',[(L,'\t\tif *cacheDirFlag != "default" {\n\t\t\tif !options.Sandbox {','\t\tif *cacheDirFlag != "default" {\n\t\t\tif !options.Sandbox && (*cacheDirFlag)[0] == \'/\' {')]),
]
