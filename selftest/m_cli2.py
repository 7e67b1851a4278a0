C='cli.go'
M=[
('bad','C32',[(C,'dc.Dir = *cacheDirFlag','dc.Dir = filepath.Join(dc.Dir, *cacheDirFlag)'),(C,'"os"\n','"os"\n\t"path/filepath"\n')]),
('bad','C32',[(C,'if *cacheDirFlag == "" {','if *cacheDirFlag == "none" {')]),
('bad','C32',[(C,'Default("3600").Uint32()','Default("86400").Uint32()')]),
('bad','C32',[(C,'time.Duration(*bootstrapTimeoutFlag) * time.Second','time.Duration(*bootstrapTimeoutFlag) * time.Minute')]),
('bad','C32',[(C,'if bootstrapTimeoutFlag != nil {','if bootstrapTimeoutFlag != nil && *cacheDirFlag != "" {')]),
('bad','C32',[(C,'if experiments["test_rdap_net"] && *bootstrapURLFlag == "default" {','if experiments["test_rdap_net"] {')]),
('bad','C32',[(C,'} else if err != nil {\n\t\t\tprintError(stderr, fmt.Sprintf("rdap: Error making cache dir %s", dc.Dir))\n\t\t\treturn 1\n\t\t}','} else if err != nil {\n\t\t\tprintError(stderr, fmt.Sprintf("rdap: Error making cache dir %s", dc.Dir))\n\t\t}')]),
('bad','C32',[(C,'\t\tbs.BaseURL = baseURL\n','\t\tif !options.Sandbox {\n\t\t\tbs.BaseURL = baseURL\n\t\t}\n')]),
('bad','C32',[(C,'\t\tif err != nil {\n\t\t\tprintError(stderr, fmt.Sprintf("Bootstrap URL error: %s", err))\n\t\t\treturn 1\n\t\t}\n\n\t\tbs.BaseURL = baseURL','\t\tif err == nil {\n\t\t\tbs.BaseURL = baseURL\n\t\t}')]),
('bad','C32',[(C,'\t\t\tprintError(stderr, fmt.Sprintf("Error: unknown experiment \'%s\'", e))\n\t\t\treturn 1\n','\t\t\tverbose(fmt.Sprintf("rdap: Ignored unknown experiment \'%s\'", e))\n')]),
('bad','C32',[(C,'\t\tbs.Cache = dc\n','\t\tif created {\n\t\t\tbs.Cache = dc\n\t\t} else {\n\t\t\tbs.Cache = cache.NewDiskCache()\n\t\t}\n')]),
('bad','C32',[(C,'\tclient := &Client{\n\t\tHTTP:      httpClient,\n\t\tBootstrap: bs,\n','\tclient := &Client{\n\t\tHTTP:      httpClient,\n\t\tBootstrap: &bootstrap.Client{HTTP: bs.HTTP, Cache: bs.Cache},\n')]),
('bad','C32',[(C,'\t\tbs.Cache.SetTimeout(time.Duration(*bootstrapTimeoutFlag) * time.Second)\n','\t\tif *bootstrapTimeoutFlag > 0 {\n\t\t\tbs.Cache.SetTimeout(time.Duration(*bootstrapTimeoutFlag) * time.Second)\n\t\t}\n')]),
('bad','C32',[(C,'experiments["test_rdap_net"] = true\n\t}','experiments["test_rdap_net"] = !options.Sandbox\n\t}'),(C,'if experiments["test_rdap_net"] && *boot','if (experiments["object_tag"] || experiments["test_rdap_net"]) && *boot')]),
('bad','C27',[(C,'strings.SplitAfterN(*clientP12FilenameAndPassword, ":", 2)','strings.SplitAfter(*clientP12FilenameAndPassword, ":")')]),
('bad','C27',[(C,'p12, p12FilenameAndPassword[1])','p12, strings.TrimSpace(p12FilenameAndPassword[1]))')]),
('bad','C27',[(C,'p12, p12FilenameAndPassword[1])','p12, strings.TrimSuffix(p12FilenameAndPassword[1], ":"))')]),
('bad','C27',[(C,'strings.SplitAfterN(*clientP12FilenameAndPassword, ":", 2)','strings.SplitAfterN(*clientP12FilenameAndPassword, ":", 3)')]),
('ok','*',[(C,'\t\tp12FilenameAndPassword := strings.SplitAfterN(*clientP12FilenameAndPassword, ":", 2)\n\t\tp12FilenameAndPassword[0] = strings.TrimSuffix(p12FilenameAndPassword[0], ":")\n','\t\tp12FilenameAndPassword := strings.SplitN(*clientP12FilenameAndPassword, ":", 2)\n')]),
('ok','*',[(C,'\t\tp12FilenameAndPassword := strings.SplitAfterN(*clientP12FilenameAndPassword, ":", 2)\n\t\tp12FilenameAndPassword[0] = strings.TrimSuffix(p12FilenameAndPassword[0], ":")\n','\t\topt := *clientP12FilenameAndPassword\n\t\tp12FilenameAndPassword := []string{opt}\n\t\tif i := strings.IndexByte(opt, \':\'); i >= 0 {\n\t\t\tp12FilenameAndPassword = []string{opt[:i], opt[i+1:]}\n\t\t}\n')]),
('ok','*',[(C,'\t// Use experimental bootstrap service URL?\n\tif experiments["test_rdap_net"] && *bootstrapURLFlag == "default" {\n\t\t*bootstrapURLFlag = experimentalBootstrapURL\n','\t// Use experimental bootstrap service URL?\n\tbsURL := *bootstrapURLFlag\n\tif bsURL == "default" && experiments["test_rdap_net"] {\n\t\tbsURL = experimentalBootstrapURL\n'),(C,'if *bootstrapURLFlag != "default" {\n\t\tbaseURL, err := url.Parse(*bootstrapURLFlag)','if bsURL != "default" {\n\t\tbaseURL, err := url.Parse(bsURL)')]),
('ok','*',[(C,'\tif bootstrapTimeoutFlag != nil {\n\t\tbs.Cache.SetTimeout(time.Duration(*bootstrapTimeoutFlag) * time.Second)\n','\tif ttl := time.Second * time.Duration(int64(*bootstrapTimeoutFlag)); true {\n\t\tbs.Cache.SetTimeout(ttl)\n')]),
('ok','*',[(C,'\tbs := &bootstrap.Client{}\n\n\t// Custom bootstrap cache type/directory?\n\tif *cacheDirFlag == "" {','\tbs := new(bootstrap.Client)\n\n\t// Custom bootstrap cache type/directory?\n\tif len(*cacheDirFlag) == 0 {'),(C,'created, err := dc.InitDir()\n\t\tif created {\n\t\t\tverbose(fmt.Sprintf("rdap: Cache dir %s mkdir\'ed", dc.Dir))\n\t\t} else if err != nil {\n','created, err := dc.InitDir()\n\t\tswitch {\n\t\tcase created:\n\t\t\tverbose(fmt.Sprintf("rdap: Cache dir %s mkdir\'ed", dc.Dir))\n\t\tcase err != nil:\n')]),
]
