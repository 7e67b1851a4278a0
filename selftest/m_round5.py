# breaking edits written from the property texts, fifth round
C='client.go'; R='request.go'; B='bootstrap/client.go'; V='vcard.go'; P='print.go'; D='decoder.go'; L='cli.go'; W='response.go'
DC='bootstrap/cache/disk_cache.go'; MC='bootstrap/cache/memory_cache.go'; N='bootstrap/net_registry.go'; A='bootstrap/asn_registry.go'; DN='bootstrap/dns_registry.go'; SP='bootstrap/service_provider_registry.go'; F='bootstrap/file.go'
M=[
# caches
('bad','C12',[(DC,'\tfileModTime, err := d.modTime(filename)\n\tif err != nil {\n\t\treturn nil, fmt.Errorf("unable to load','\tfileModTime, err := d.modTime(filename)\n\tif err == nil && time.Since(fileModTime) > d.Timeout {\n\t\treturn nil, errors.New("expired")\n\t}\n\tif err != nil {\n\t\treturn nil, fmt.Errorf("unable to load')]),
('bad','C12',[(DC,'\td.lastLoadedModTime[filename] = fileModTime\n\n\treturn nil\n','\td.lastLoadedModTime[filename] = time.Now()\n\t_ = fileModTime\n\n\treturn nil\n')]),
('bad','C12',[(DC,'\td.lastLoadedModTime[filename] = fileModTime\n\n\treturn bytes, nil','\td.lastLoadedModTime[filename] = time.Now()\n\t_ = fileModTime\n\n\treturn bytes, nil')]),
('bad','C12',[(DC,'haveLoaded && !fileModTime.After(lastLoadedModTime)','haveLoaded || fileModTime.Equal(lastLoadedModTime)')]),
('bad','C12',[(DC,'\tif err := os.WriteFile(d.cacheDirPath(filename), data, 0o600); err != nil {','\tf, err := os.OpenFile(d.cacheDirPath(filename), os.O_WRONLY|os.O_CREATE, 0o600)\n\tif err != nil {\n\t\treturn err\n\t}\n\tdefer f.Close()\n\tif _, err := f.Write(data); err != nil {')]),
('bad','C13',[(DC,'return filepath.Join(d.Dir, filename)','return d.Dir + "/" + strings.TrimLeft(filename, "0123456789")'),(DC,'import (','import (\n\t"strings"')]),
('bad','C12',[(DC,'\tif os.IsNotExist(err) {\n\t\tif err = os.MkdirAll(d.Dir, 0o750); err != nil {\n\t\t\treturn false, err\n\t\t}','\tif os.IsNotExist(err) {\n\t\tif err = os.Mkdir(d.Dir, 0o750); err != nil {\n\t\t\treturn false, err\n\t\t}')]),
('bad','C12',[(DC,'\tif _, err := d.InitDir(); err != nil {\n\t\treturn err\n\t}\n\n\tif err := os.WriteFile','\tif err := os.WriteFile')]),
# asn
('bad','C09',[(A,'\t\tif err != nil {\n\t\t\tcontinue\n\t\t}\n\n\t\ta = append','\t\tif err != nil {\n\t\t\tbreak\n\t\t}\n\n\t\ta = append')]),
('bad','C08',[(A,'asn >= a.asns[index].MinASN && asn <= a.asns[index].MaxASN','asn >= a.asns[index].MinASN || asn == a.asns[index].MaxASN-1')]),
('bad','C09',[(A,'return asn <= a.asns[i].MaxASN','return asn < a.asns[i].MaxASN')]),
('bad','C08',[(A,'\tresult, err := strconv.ParseUint(asn, 10, 32)\n\tif err != nil {\n\t\treturn 0, err\n\t}\n\n\treturn uint32(result), nil','\tresult, err := strconv.ParseUint(asn, 10, 64)\n\tif err != nil {\n\t\treturn 0, err\n\t}\n\n\treturn uint32(result), nil')]),
('bad','C08',[(A,'return fmt.Sprintf("AS%d-AS%d", a.MinASN, a.MaxASN)','return fmt.Sprintf("AS%d-AS%d", a.MinASN, a.MaxASN+1)')]),
# net
('bad','C08',[(N,'\t\tbestEntry = nets[index].Net.String()\n\t\tbestMask = mask\n','\t\tif bestEntry == "" {\n\t\t\tbestEntry = nets[index].Net.String()\n\t\t}\n\t\tbestMask = mask\n')]),
('bad','C09',[(N,'\t\tbestMask = mask\n','')]),
('bad','C08',[(N,'|| !nets[index].Net.Contains(lookupNet.IP) {','{')]),
('bad','C09',[(N,'bytes.Compare(net.IP, lookupNet.IP) >= 0','bytes.Compare(net.IP, lookupNet.IP) < 0')]),
('bad','C08',[(N,'\tif len(lookupNet.IP) != n.numIPBytes {\n\t\treturn nil, errors.New("Lookup address has wrong IP protocol")\n\t}','\tif len(lookupNet.IP) > n.numIPBytes {\n\t\treturn nil, errors.New("Lookup address has wrong IP protocol")\n\t}')]),
('bad','C09',[(N,'\tfor _, nets := range n.networks {\n\t\tsort.Sort(netEntrySorter(nets))\n\t}','\tfor size, nets := range n.networks {\n\t\tif size > 8 {\n\t\t\tsort.Sort(netEntrySorter(nets))\n\t\t}\n\t}')]),
# bootstrap client
('bad','C10',[(B,'\t\tif err := c.reloadFromCache(registry); err != nil {\n\t\t\tforceDownload = true\n','\t\tif err := c.reloadFromCache(registry); err != nil {\n\t\t\tforceDownload = c.registries[registry] == nil\n')]),
('bad','C11',[(B,'\tif resp.StatusCode != http.StatusOK {','\tif resp.StatusCode > 299 {')]),
('bad','C10',[(B,'\tif c.Cache.State(c.filenameFor(registry)) == cache.ShouldReload {','\tif s := c.Cache.State(c.filenameFor(registry)); s == cache.ShouldReload || s == cache.Expired {')]),
('bad','C19',[(B,'\tc.Verbose("  bootstrap: Looking up...")','\tlookups++\n\tc.Verbose("  bootstrap: Looking up...")'),(B,'// Lookup returns the RDAP base URLs for the','var lookups int\n\n// Lookup returns the RDAP base URLs for the')]),
# whois
('bad','C30',[(W,'\tw.add(t+" Locality", v.Locality())','\tw.add(t+" Locality", v.Region())')]),
('bad','C30',[(W,'\tv := e.VCard\n\tif v == nil {\n\t\treturn\n\t}\n\n\tw.add(t+" Name", v.Name())','\tv := e.VCard\n\tif v == nil {\n\t\tw.add(t+" Name", e.Handle)\n\t\treturn\n\t}\n\n\tw.add(t+" Name", v.Name())')]),
('bad','C30',[(W,'\tregistrar := findFirstEntity("registrar", d.Entities)\n','\tregistrar := findFirstEntity("registrar", d.Entities)\n\tif registrar == nil {\n\t\tregistrar = findFirstEntity("sponsor", d.Entities)\n\t}\n')]),
('bad','C30',[(W,'func findFirstEntity(role string, entities []Entity) *Entity {\n\tfor _, e := range entities {','func findFirstEntity(role string, entities []Entity) *Entity {\n\tfor _, e := range slices.Backward(entities) {')]),
# vcard
('bad','C20',[(V,'return strings.Join(property.Values(), " ")','return strings.TrimSpace(strings.Join(property.Values(), " "))')]),
('bad','C20',[(V,'\t\t\tif slices.Contains(types, "fax") {','\t\t\tif len(types) == 1 && types[0] == "fax" {')]),
('bad','C20',[(V,'\t\tif isVoice {\n\t\t\tif values := p.Values(); len(values) > 0 {\n\t\t\t\treturn values[0]','\t\tif isVoice {\n\t\t\tif values := p.Values(); len(values) > 0 {\n\t\t\t\treturn strings.TrimPrefix(values[0], "tel:")')]),
('bad','C20',[(V,'\t\t\tif options.IgnoreInvalidProperties {\n\t\t\t\tcontinue\n','\t\t\tif options.IgnoreInvalidProperties || property != nil {\n\t\t\t\tbreak\n')]),
('bad','C20',[(V,'return v.getFirstAddressField(5)','return v.getFirstAddressField(6)')]),
# cli
('bad','C25',[(L,'\tif err != nil {\n\t\tprintError(stderr, fmt.Sprintf("Error: %s", err))\n\t\treturn 1\n\t}\n\n\t// Insert','\tif err != nil && !isClientError(ObjectDoesNotExist, err) {\n\t\tprintError(stderr, fmt.Sprintf("Error: %s", err))\n\t\treturn 1\n\t}\n\n\t// Insert')]),
('bad','C27',[(L,'\thttpClient := &http.Client{\n\t\tTransport: transport,\n\t}','\thttpClient := &http.Client{\n\t\tTransport: transport,\n\t}\n\tif req.Server == nil {\n\t\thttpClient.Transport = nil\n\t}')]),
('bad','C27',[(L,'\t\tProxy:           http.ProxyFromEnvironment,\n\t\tTLSClientConfig: tlsConfig,','\t\tProxy:           http.ProxyFromEnvironment,\n\t\tTLSClientConfig: tlsConfig.Clone(),'),(L,'\tif *insecureFlag {\n\t\tverbose','\tif !*insecureFlag {\n\t\ttransport.TLSClientConfig.InsecureSkipVerify = os.Getenv("RDAP_INSECURE") != ""\n\t}\n\tif *insecureFlag {\n\t\tverbose')]),
('bad','C27',[(L,'\t\tcase *clientCertFilename == "" || *clientKeyFilename == "":\n\t\t\tprintError(stderr, "rdap: Error: --cert and --key must be used together")\n\t\t\treturn 1\n','\t\tcase *clientKeyFilename == "":\n\t\t\tprintError(stderr, "rdap: Error: --cert and --key must be used together")\n\t\t\treturn 1\n')]),
('bad','C05',[(L,'time.Duration(*timeoutFlag)*time.Second)\n\tdefer','time.Duration(*timeoutFlag)*time.Millisecond*1024)\n\tdefer')]),
('bad','C32',[(L,'bs.Cache.SetTimeout(time.Duration(*bootstrapTimeoutFlag) * time.Second)','bs.Cache.SetTimeout(time.Duration(*bootstrapTimeoutFlag%86400) * time.Second)')]),
('bad','C25',[(L,'\t\tprintError(stderr, fmt.Sprintf("Error: %s", err))\n\t\treturn 1\n\t}\n\n\t// Insert','\t\tprintError(stderr, fmt.Sprintf("Error: %s", err))\n\t\tif resp != nil && resp.Object != nil {\n\t\t\treturn 0\n\t\t}\n\t\treturn 1\n\t}\n\n\t// Insert')]),
('bad','C25',[(L,'\tif *verboseFlag {\n\t\tfmt.Fprintln(stderr, "")','\tif *verboseFlag {\n\t\tfmt.Fprintln(stdout, "")')]),
# decoder
('bad','C17',[(D,'\t\tif src < 0 || src >= 1<<64 {','\t\tif src < 0 || src > 1<<64 {')]),
('bad','C18',[(D,'\t\t\tplan.knownFields[name] = true\n','\t\t\tplan.knownFields[strings.ToLower(name)] = true\n')]),
('bad','C16',[(D,'\t\t\tif structField.Anonymous {\n\t\t\t\twalk(structField.Type, index)\n','\t\t\tif structField.Anonymous {\n\t\t\t\twalk(structField.Type, prefix)\n')]),
]
