C='cli.go'
M=[
# ---- C25
('bad','C25',[(C,'printError(stderr, fmt.Sprintf("Error: %s", err))\n\t\treturn 1','printError(stderr, fmt.Sprintf("Error: %s", err))\n\t\treturn 0')]),
('bad','C25',[(C,'printError(stderr, fmt.Sprintf("Error: %s", err))\n\t\treturn 1','return 1')]),
('bad','C25',[(C,'fmt.Fprintf(stderr, "# %s\\n", text)\n}','fmt.Fprintf(os.Stdout, "# %s\\n", text)\n}')]),
('bad','C25',[(C,'\t\tverbose = func(text string) {\n\t\t\tfmt.Fprintf(stderr,','\t\tverbose = func(text string) {\n\t\t\tfmt.Fprintf(stdout,')]),
('bad','C25',[(C,'\tif *verboseFlag {\n\t\tfmt.Fprintln(stderr, "")','\tif *verboseFlag {\n\t\tfmt.Fprintln(stdout, "")')] ) if False else
('bad','C25',[(C,'\tverbose("")\n\tverbose(fmt.Sprintf("rdap: Finished','\tfmt.Fprintln(stdout)\n\tverbose("")\n\tverbose(fmt.Sprintf("rdap: Finished')]),
('bad','C25',[(C,'\t} else if terminate {\n\t\t// Occurs when kingpin prints the --help message.\n\t\treturn 1','\t} else if terminate {\n\t\t// Occurs when kingpin prints the --help message.\n\t\treturn 0')]),
('bad','C25',[(C,'printError(stderr, fmt.Sprintf("Error: response body is not valid JSON: %s", err))\n\t\t\treturn 1','printError(stderr, fmt.Sprintf("Error: response body is not valid JSON: %s", err))')]),
('bad','C25',[(C,'fmt.Sprintf("Invalid ASN \'%s\'", queryText))\n\t\t\treturn 1','fmt.Sprintf("Invalid ASN \'%s\'", queryText))\n\t\t\treturn 2')]),
('bad','C25',[('cmd/rdap/main.go','os.Exit(exitCode)','if exitCode > 1 { os.Exit(exitCode) }')]),
('bad','C25',[(C,'app.ErrorWriter(stderr)','app.ErrorWriter(stdout)')]),
('bad','C25',[(C,'\tverbose := ','')] ) if False else
('bad','C25',[(C,'\t\tverbose = func(text string) {\n\t\t}','\t\tverbose = func(text string) {\n\t\t\tfmt.Fprint(stderr, "")\n\t\t}')]),
# ---- C26
('bad','C26',[(C,'if !options.Sandbox {\n\t\t\t\tdc.Dir','if !options.Sandbox || *experimentalFlag {\n\t\t\t\tdc.Dir')]),
('bad','C26',[(C,'\tif experiments["sandbox"] {\n\t\toptions.Sandbox = true\n\t}\n','\t_ = experiments["sandbox"]\n')]),
('bad','C26',[(C,'case options.Sandbox:\n\t\t\tverbose','case options.Sandbox && *clientCertFilename == *clientKeyFilename:\n\t\t\tverbose')]),
('bad','C26',[(C,'if options.Sandbox {\n\t\t\tp12, err','if options.Sandbox && !strings.HasPrefix(p12FilenameAndPassword[0], "/") {\n\t\t\tp12, err')]),
('bad','C26',[(C,'p12, err = sandbox.LoadFile(p12FilenameAndPassword[0])','p12, err = sandbox.LoadFile(p12FilenameAndPassword[0])\n\t\t\tif err != nil {\n\t\t\t\tp12, err = os.ReadFile(p12FilenameAndPassword[0])\n\t\t\t}')]),
# ---- C27
('bad','C27',[(C,'InsecureSkipVerify: *insecureFlag}','InsecureSkipVerify: *insecureFlag || *serverFlag != ""}')]),
('bad','C27',[(C,'\ttransport := &http.Transport{','\tif options.Sandbox { tlsConfig.InsecureSkipVerify = true }\n\ttransport := &http.Transport{')]),
('bad','C27',[(C,'\tbs.HTTP = &http.Client{\n\t\tTransport: transport,\n\t}','\tbs.HTTP = &http.Client{}')]),
('bad','C27',[(C,'\t\tcase *clientCertFilename == "" || *clientKeyFilename == "":\n\t\t\tprintError(stderr, "rdap: Error: --cert and --key must be used together")\n\t\t\treturn 1\n','')]),
('bad','C27',[(C,"verbose(fmt.Sprintf(\"rdap: Loaded client certificate from '%s'\", p12FilenameAndPassword[0]))\n\n\t\ttlsConfig.Certificates = append(tlsConfig.Certificates, clientCert)","verbose(fmt.Sprintf(\"rdap: Loaded client certificate from '%s'\", p12FilenameAndPassword[0]))")]),
('bad','C27',[(C,'cannot load client certificate/key: %s", err))\n\t\t\t\treturn 1','cannot load client certificate/key: %s", err))')]),
('bad','C27',[('client.go','func (c *Client) ','func initTLS() *http.Client { return &http.Client{Transport: &http.Transport{TLSClientConfig: &tls.Config{InsecureSkipVerify: true}}} }\n\nfunc (c *Client) '),('client.go','import (','import (\n\t"crypto/tls"')]),
# ---- C28
('bad','C28',[(C,'case "domain", "dns":\n','case "domain":\n')]),
('bad','C28',[(C,'req = NewRequest(DomainSearchByNameserverIPRequest, queryText)','req = NewRequest(DomainSearchByNameserverRequest, queryText)')]),
('bad','C28',[(C,'req = NewRequest(EntitySearchByHandleRequest, queryText)','req = NewRequest(EntitySearchByHandleRequest, strings.ToUpper(queryText))')]),
('bad','C28',[(C,'req = req.WithServer(serverURL)','if req.Type != HelpRequest { req = req.WithServer(serverURL) }')]),
('bad','C28',[(C,'\tif req.Server != nil {\n\t\tif *serverFlag != "" {','\tif req.Server != nil {\n\t\tif *serverFlag != "" && *queryType != "" {')]),
('bad','C28',[(C,'result, err := strconv.ParseUint(autnum, 10, 32)\n\t\tif err','result, err := strconv.ParseUint(autnum, 10, 64)\n\t\tif err')]),
('bad','C28',[(C,'case "nameserver-search-by-ip":','case "nameserver-search-by-nameserver-ip":')]),
('bad','C28',[(C,'queryText = (*queryArgs)[0]','queryText = (*queryArgs)[len(*queryArgs)-1]')]),
('bad','C28',[(C,'queryText = (*queryArgs)[0]','queryText = strings.TrimSpace((*queryArgs)[0])')]),
# ---- C29
('bad','C29',[(C,'fmt.Fprintf(stdout, "%s", resp.HTTP[len(resp.HTTP)-1].Body)','fmt.Fprintf(stdout, "%s", resp.HTTP[0].Body)')]),
('bad','C29',[(C,'fmt.Fprintf(stdout, "%s", resp.HTTP[len(resp.HTTP)-1].Body)','fmt.Fprintf(stdout, "%s\\n", resp.HTTP[len(resp.HTTP)-1].Body)')]),
('bad','C29',[(C,'json.Indent(&out, resp.HTTP[len(resp.HTTP)-1].Body,','json.Indent(&out, resp.HTTP[0].Body,')]),
('bad','C29',[(C,'if !*outputFormatText && !*outputFormatWhois && !*outputFormatJSON && !*outputFormatRaw {','if !*outputFormatText && !*outputFormatWhois && !*outputFormatJSON {')]),
('bad','C29',[(C,'\tif *outputFormatRaw {','\tif *outputFormatRaw && !*outputFormatJSON {')]),
('bad','C29',[(C,'for _, value := range w.Data[key] {','for _, value := range w.Data[key][:1] {')]),
# ---- C05 CLI
('bad','C05',[(C,'time.Duration(*timeoutFlag)*time.Second','time.Duration(*timeoutFlag)*time.Minute')]),
('bad','C05',[(C,'\tdefer cancelFunc()\n',''),(C,'ctx, cancelFunc := context','ctx, cancelFunc := context')] ) if False else
('bad','C05',[(C,'\tdefer cancelFunc()\n','\t_ = cancelFunc\n')]),
('bad','C05',[(C,'\treq = req.WithContext(ctx)\n','\tif *serverFlag == "" {\n\t\treq = req.WithContext(ctx)\n\t}\n')]),
# ---- refactorings
('ok','*',[(C,'\treq = req.WithContext(ctx)\n','\tr2 := req.WithContext(ctx)\n\treq = r2\n')]),
('ok','*',[(C,'\tctx, cancelFunc := context.WithTimeout(context.Background(), time.Duration(*timeoutFlag)*time.Second)','\tlimit := time.Second * time.Duration(*timeoutFlag)\n\tctx, cancelFunc := context.WithTimeout(context.Background(), limit)')]),
('ok','*',[(C,'\tdefer cancelFunc()\n','\tdefer func() { cancelFunc() }()\n')]),
('ok','*',[(C,'\tif !*outputFormatText && !*outputFormatWhois && !*outputFormatJSON && !*outputFormatRaw {\n\t\t*outputFormatText = true\n\t}\n','\tother := *outputFormatWhois || *outputFormatJSON || *outputFormatRaw\n\ttext := *outputFormatText || !other\n'),(C,'\tif *outputFormatText {\n','\tif text {\n')]),
('ok','*',[(C,'\t// Print the raw response out?\n','\tlast := resp.HTTP[len(resp.HTTP)-1]\n\tbody := last.Body\n'),(C,'fmt.Fprintf(stdout, "%s", resp.HTTP[len(resp.HTTP)-1].Body)','fmt.Fprintf(stdout, "%s", body)'),(C,'json.Indent(&out, resp.HTTP[len(resp.HTTP)-1].Body,','json.Indent(&out, body,')]),
('ok','*',[(C,'fmt.Fprintf(stdout, "%s", resp.HTTP[len(resp.HTTP)-1].Body)','_, _ = stdout.Write(resp.HTTP[len(resp.HTTP)-1].Body)')]),
('ok','*',[(C,'fmt.Fprintf(stdout, "%s", resp.HTTP[len(resp.HTTP)-1].Body)','_, _ = io.WriteString(stdout, string(resp.HTTP[len(resp.HTTP)-1].Body))')]),
('ok','*',[(C,'\tif *outputFormatRaw {\n\t\tfmt.Fprintf(stdout, "%s", resp.HTTP[len(resp.HTTP)-1].Body)\n\t}','\tif *outputFormatRaw {\n\t\tprintRaw(stdout, resp)\n\t}'),(C,'','\nfunc printRaw(w io.Writer, resp *Response) {\n\tn := len(resp.HTTP)\n\tfmt.Fprintf(w, "%s", resp.HTTP[n-1].Body)\n}\n')]),
('ok','*',[(C,'\t\tw := resp.ToWhoisStyleResponse()\n\n\t\tfor _, key := range w.KeyDisplayOrder {\n\t\t\tfor _, value := range w.Data[key] {\n\t\t\t\tfmt.Fprintf(stdout, "%s: %s\\n", key, safePrint(value))\n\t\t\t}\n\t\t}','\t\tprintWhois(stdout, resp)'),(C,'','\nfunc printWhois(out io.Writer, resp *Response) {\n\tw := resp.ToWhoisStyleResponse()\n\tfor i := 0; i < len(w.KeyDisplayOrder); i++ {\n\t\tkey := w.KeyDisplayOrder[i]\n\t\tvalues := w.Data[key]\n\t\tfor j := range values {\n\t\t\tfmt.Fprintln(out, key+": "+safePrint(values[j]))\n\t\t}\n\t}\n}\n')]),
('ok','*',[(C,'\t\tif _, err := out.WriteTo(stdout); err != nil {','\t\tif _, err := stdout.Write(out.Bytes()); err != nil {')]),
('ok','*',[(C,'\tswitch *queryType {\n\tcase "":\n\t\treq = NewAutoRequest(queryText)\n\tcase "help":','\tqt := *queryType\n\tif qt == "" {\n\t\treq = NewAutoRequest(queryText)\n\t} else {\n\tswitch qt {\n\tcase "help":'),(C,'fmt.Sprintf("Unknown query type \'%s\'", *queryType))\n\t\treturn 1\n\t}','fmt.Sprintf("Unknown query type \'%s\'", *queryType))\n\t\treturn 1\n\t}\n\t}')]),
('ok','*',[(C,'\tcase "entity-search":\n\t\treq = NewRequest(EntitySearchRequest, queryText)\n\tcase "entity-search-by-handle":\n\t\treq = NewRequest(EntitySearchByHandleRequest, queryText)\n\tcase "domain-search":\n\t\treq = NewRequest(DomainSearchRequest, queryText)\n','\tcase "entity-search", "entity-search-by-handle", "domain-search":\n\t\treq = NewRequest(searchTypes[*queryType], queryText)\n'),(C,'','\nvar searchTypes = map[string]RequestType{"entity-search": EntitySearchRequest, "entity-search-by-handle": EntitySearchByHandleRequest, "domain-search": DomainSearchRequest}\n')]),
('ok','*',[(C,'\tif req.Server != nil {\n\t\tif *serverFlag != "" {\n\t\t\tprintError(stderr, fmt.Sprintf("--server option cannot be used with query type %s", req.Type))\n\t\t\treturn 1\n\t\t}\n\t}\n','\tif req.Server != nil && *serverFlag != "" {\n\t\tprintError(stderr, fmt.Sprintf("--server option cannot be used with query type %s", req.Type))\n\t\treturn 1\n\t}\n')]),
('ok','*',[(C,'\t// Determine the server.\n','\tif rc := checkServer(req, *serverFlag, stderr); rc != 0 {\n\t\treturn rc\n\t}\n'),(C,'','\nfunc checkServer(req *Request, server string, stderr io.Writer) int {\n\tif req.Server == nil || server == "" {\n\t\treturn 0\n\t}\n\tprintError(stderr, "--server option cannot be used")\n\treturn 1\n}\n')]),
('ok','*',[(C,'\tcase "autnum", "as", "asn":\n\t\tautnum := strings.ToUpper(queryText)\n\t\tautnum = strings.TrimPrefix(autnum, "AS")\n\t\tresult, err := strconv.ParseUint(autnum, 10, 32)','\tcase "autnum", "as", "asn":\n\t\tresult, err := strconv.ParseUint(strings.TrimPrefix(strings.ToUpper(queryText), "AS"), 10, 32)')]),
('ok','*',[(C,'\tvar verbose func(text string)\n\tif *verboseFlag {\n\t\tverbose = func(text string) {\n\t\t\tfmt.Fprintf(stderr, "# %s\\n", text)\n\t\t}\n\t} else {\n\t\tverbose = func(text string) {\n\t\t}\n\t}\n','\tverbose := func(text string) {\n\t\tif !*verboseFlag {\n\t\t\treturn\n\t\t}\n\t\tprintError(stderr, text)\n\t}\n')]),
('ok','*',[(C,'\ttlsConfig := &tls.Config{InsecureSkipVerify: *insecureFlag} //nolint:gosec // opt-in via --insecure flag\n','\ttlsConfig := &tls.Config{}\n\tif *insecureFlag {\n\t\ttlsConfig.InsecureSkipVerify = true\n\t}\n')]),
('ok','*',[(C,'\ttransport := &http.Transport{\n\t\tProxy:           http.ProxyFromEnvironment,\n\t\tTLSClientConfig: tlsConfig,\n\t}\n','\ttransport := newTransport(tlsConfig)\n'),(C,'','\nfunc newTransport(cfg *tls.Config) *http.Transport {\n\tt := &http.Transport{TLSClientConfig: cfg}\n\tt.Proxy = http.ProxyFromEnvironment\n\treturn t\n}\n')]),
('ok','*',[(C,'\tbs.HTTP = &http.Client{\n\t\tTransport: transport,\n\t}\n\thttpClient := &http.Client{\n\t\tTransport: transport,\n\t}\n','\thttpClient := &http.Client{Transport: transport}\n\tbs.HTTP = httpClient\n')]),
('ok','*',[(C,'\tif *clientCertFilename != "" || *clientKeyFilename != "" {\n\t\tswitch {\n\t\tcase *clientP12FilenameAndPassword != "":','\thasPair := !(*clientCertFilename == "" && *clientKeyFilename == "")\n\tif hasPair {\n\t\tswitch {\n\t\tcase len(*clientP12FilenameAndPassword) > 0:')]),
('ok','*',[(C,'p12FilenameAndPassword := strings.SplitAfterN(*clientP12FilenameAndPassword, ":", 2)\n\t\tp12FilenameAndPassword[0] = strings.TrimSuffix(p12FilenameAndPassword[0], ":")\n\n\t\t// Use a blank password if none was specified.\n\t\tif len(p12FilenameAndPassword) == 1 {\n\t\t\tp12FilenameAndPassword = append(p12FilenameAndPassword, "")\n\t\t}\n','name, password, _ := strings.Cut(*clientP12FilenameAndPassword, ":")\n\t\tp12FilenameAndPassword := []string{name, password}\n')]),
('ok','*',[(C,'\t\tif *cacheDirFlag != "default" {\n\t\t\tif !options.Sandbox {\n\t\t\t\tdc.Dir = *cacheDirFlag\n\t\t\t} else {\n\t\t\t\tverbose("rdap: Ignored --cache-dir option (sandbox mode enabled)")\n\t\t\t}\n\t\t}','\t\tswitch {\n\t\tcase *cacheDirFlag == "default":\n\t\tcase options.Sandbox:\n\t\t\tverbose("rdap: Ignored --cache-dir option (sandbox mode enabled)")\n\t\tdefault:\n\t\t\tdc.Dir = *cacheDirFlag\n\t\t}')]),
('ok','*',[('cmd/rdap/main.go','exitCode := rdap.RunCLI','code := rdap.RunCLI'),('cmd/rdap/main.go','os.Exit(exitCode)','os.Exit(int(code))')]),
('ok','*',[(C,'\tqueryText := ""\n\tif len(*queryArgs) > 0 {\n\t\tqueryText = (*queryArgs)[0]\n\t}\n','\tvar queryText string\n\tfor _, a := range *queryArgs {\n\t\tqueryText = a\n\t\tbreak\n\t}\n')]),
('ok','*',[(C,'func printError(stderr io.Writer, text string) {\n\tfmt.Fprintf(stderr, "# %s\\n", text)','func printError(stderr io.Writer, text string) {\n\t_, _ = io.WriteString(stderr, "# "+text+"\\n")')]),
('ok','*',[(C,'\tif err != nil {\n\t\tprintError(stderr, fmt.Sprintf("Error: %s", err))\n\t\treturn 1\n\t}\n','\tswitch {\n\tcase err != nil:\n\t\tprintError(stderr, "Error: "+err.Error())\n\t\treturn 1\n\t}\n')]),
]
