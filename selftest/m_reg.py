A='bootstrap/asn_registry.go'
N='bootstrap/net_registry.go'
D='bootstrap/dns_registry.go'
S='bootstrap/service_provider_registry.go'
F='bootstrap/file.go'
AS='''	index := sort.Search(len(a.asns), func(i int) bool {
		return asn <= a.asns[i].MaxASN
	})

	var entry string
	var urls []*url.URL

	if index != len(a.asns) && (asn >= a.asns[index].MinASN && asn <= a.asns[index].MaxASN) {
		entry = a.asns[index].String()
		urls = a.asns[index].URLs
	}
'''
NL='''	var bestEntry string
	var bestURLs []*url.URL
	var bestMask int

	var mask int
	var nets []netEntry
	for mask, nets = range n.networks {
		if mask < bestMask || mask > lookupMask {
			continue
		}

		index := sort.Search(len(nets), func(i int) bool {
			net := nets[i].Net
			return net.Contains(lookupNet.IP) || bytes.Compare(net.IP, lookupNet.IP) >= 0
		})

		if index == len(nets) || !nets[index].Net.Contains(lookupNet.IP) {
			continue
		}

		bestEntry = nets[index].Net.String()
		bestMask = mask
		bestURLs = nets[index].URLs
	}
'''
DL='''	var urls []*url.URL
	for {
		var ok bool
		urls, ok = d.dns[fqdn]

		if ok {
			break
		} else if fqdn == "" {
			break
		}

		index := strings.IndexByte(fqdn, '.')
		if index == -1 {
			fqdn = ""
		} else {
			fqdn = fqdn[index+1:]
		}
	}
'''
M=[
# ASN bad
('bad','C08,C09',[(A,'asn >= a.asns[index].MinASN && asn <=','asn > a.asns[index].MinASN && asn <=')]),
('bad','C08',[(A,'(asn >= a.asns[index].MinASN && asn <= a.asns[index].MaxASN)','asn <= a.asns[index].MaxASN')]),
('bad','C09',[(A,'return asn <= a.asns[i].MaxASN','return asn < a.asns[i].MaxASN')]),
('bad','C09',[(A,'return asn <= a.asns[i].MaxASN','return asn <= a.asns[i].MinASN')]),
('bad','C09',[(A,'	sort.Sort(asnRangeSorter(a))\n','	_ = sort.Sort\n')]),
('bad','C09',[(A,'return a[i].MinASN < a[j].MinASN','return a[i].MinASN > a[j].MinASN')]),
('bad','C09',[(A,'''	if minASN > maxASN {
		minASN, maxASN = maxASN, minASN
	}
''','''	if minASN > maxASN {
		return 0, 0, errors.New("malformed ASN range")
	}
''')]),
('bad','C08',[(A,'''	if minASN > maxASN {
		minASN, maxASN = maxASN, minASN
	}
''','')]),
('bad','C08',[(A,'asn = strings.TrimPrefix(asn, "as")','asn = strings.TrimLeft(asn, "as")')]),
('bad','C08',[(A,'''	result, err := strconv.ParseUint(asn, 10, 32)''','''	result, err := strconv.ParseUint(asn, 10, 64)''')]),
('bad','C08',[(A,'''	result, err := strconv.ParseUint(asn, 10, 32)''','''	result, err := strconv.ParseUint(asn, 0, 32)''')]),
('bad','C08',[(A,'''	asn, err := parseASN(question.Query)
	if err != nil {
		return nil, err
	}''','''	asn, err := parseASN(question.Query)
	if err != nil && asn != 0 {
		return nil, err
	}''')]),
('bad','C09',[(A,'len(asns) != 1 && len(asns) != 2','len(asns) != 2')]),
('bad','C09',[(A,'		a = append(a, asnRange{MinASN: minASN, MaxASN: maxASN, URLs: registry.Entries[asn]})','		if len(registry.Entries[asn]) > 1 {\n			a = append(a, asnRange{MinASN: minASN, MaxASN: maxASN, URLs: registry.Entries[asn]})\n		}')]),
('bad','C08',[(A,'entry = a.asns[index].String()','entry = a.asns[0].String()')]),
('bad','C09',[(A,'index != len(a.asns) &&','index < len(a.asns)-1 &&')]),
('bad','C09',[(A,AS,'''	var entry string
	var urls []*url.URL
	for _, r := range a.asns {
		if asn > r.MinASN && asn <= r.MaxASN {
			entry = r.String()
			urls = r.URLs
			break
		}
	}
''')]),
# ASN ok
('ok','C08,C09',[(A,AS,'''	var entry string
	var urls []*url.URL
	for _, r := range a.asns {
		if asn >= r.MinASN && asn <= r.MaxASN {
			entry = r.String()
			urls = r.URLs
			break
		}
	}
''')]),
('ok','C08,C09',[(A,' && asn <= a.asns[index].MaxASN)',')')]),
('ok','C08,C09',[(A,'''	if index != len(a.asns) && (asn >= a.asns[index].MinASN && asn <= a.asns[index].MaxASN) {
		entry = a.asns[index].String()
		urls = a.asns[index].URLs
	}
''','''	if index < len(a.asns) {
		if r := a.asns[index]; r.contains(asn) {
			entry = r.String()
			urls = r.URLs
		}
	}
'''),(A,'','''
func (a asnRange) contains(asn uint32) bool {
	return asn >= a.MinASN && asn <= a.MaxASN
}
''')]),
('ok','C08,C09',[(A,AS,'''	index := sort.Search(len(a.asns), func(i int) bool {
		return asn < a.asns[i].MinASN
	}) - 1

	var entry string
	var urls []*url.URL

	if index >= 0 && asn <= a.asns[index].MaxASN {
		entry = a.asns[index].String()
		urls = a.asns[index].URLs
	}
''')]),
('ok','C08,C09',[(A,'	sort.Sort(asnRangeSorter(a))','	sort.Slice(a, func(i, j int) bool { return a[i].MinASN < a[j].MinASN })')]),
('ok','C08,C09',[(A,'	sort.Sort(asnRangeSorter(a))','	sort.Slice(a, func(i, j int) bool { return a[i].MaxASN < a[j].MaxASN })')]),
('ok','C08,C09',[(A,'	sort.Sort(asnRangeSorter(a))','	slices.SortFunc(a, func(x, y asnRange) int { return cmp.Compare(x.MinASN, y.MinASN) })\n	_ = sort.Sort'),(A,'	"errors"','	"cmp"\n	"errors"')]),
('ok','C08,C09',[(A,'''	asns := strings.Split(asnRange, "-")

	if len(asns) != 1 && len(asns) != 2 {
		return 0, 0, errors.New("malformed ASN range")
	}

	minASN, err = strconv.ParseUint(asns[0], 10, 32)
	if err != nil {
		return 0, 0, err
	}

	maxASN = minASN

	if len(asns) == 2 {
		maxASN, err = strconv.ParseUint(asns[1], 10, 32)
		if err != nil {
			return 0, 0, err
		}
	}
''','''	first, last, ranged := strings.Cut(asnRange, "-")
	if strings.Contains(last, "-") {
		return 0, 0, errors.New("malformed ASN range")
	}

	minASN, err = strconv.ParseUint(first, 10, 32)
	if err != nil {
		return 0, 0, err
	}

	maxASN = minASN

	if ranged {
		maxASN, err = strconv.ParseUint(last, 10, 32)
		if err != nil {
			return 0, 0, err
		}
	}
''')]),
('ok','C08,C09',[(A,'''	asn = strings.ToLower(asn)
	asn = strings.TrimPrefix(asn, "as")
''','''	asn = strings.TrimPrefix(strings.ToUpper(asn), "AS")
''')]),
('ok','C08,C09',[(A,'''	asn = strings.ToLower(asn)
	asn = strings.TrimPrefix(asn, "as")
''','''	if len(asn) >= 2 && strings.EqualFold(asn[:2], "as") {
		asn = asn[2:]
	}
''')]),
('ok','C08,C09',[(A,'''	if minASN > maxASN {
		minASN, maxASN = maxASN, minASN
	}

	return uint32(minASN), uint32(maxASN), nil''','''	return uint32(min(minASN, maxASN)), uint32(max(minASN, maxASN)), nil''')]),
('ok','C08,C09',[(A,'''		minASN, maxASN, err := parseASNRange(asn)
		if err != nil {
			continue
		}

		a = append(a, asnRange{MinASN: minASN, MaxASN: maxASN, URLs: registry.Entries[asn]})
''','''		if minASN, maxASN, err := parseASNRange(asn); err == nil {
			a = append(a, asnRange{minASN, maxASN, registry.Entries[asn]})
		}
''')]),
('ok','C08,C09',[(A,'asns []asnRange','ranges []asnRange'),(A,'asns: a,','ranges: a,'),(A,AS,AS.replace('a.asns','a.ranges'))]),
# Net bad
('bad','C08',[(N,' || mask > lookupMask','|| lookupMask < 0')]),
('bad','C09',[(N,'mask > lookupMask','mask >= lookupMask')]),
('bad','C09',[(N,'mask < bestMask ||','mask <= bestMask ||')]),
('bad','C09',[(N,'mask < bestMask || mask','bestMask < 0 || mask')]),
('bad','C09',[(N,'		bestMask = mask\n','')]),
('bad','C08',[(N,' || !nets[index].Net.Contains(lookupNet.IP)','')]),
('bad','C09',[(N,'return net.Contains(lookupNet.IP) || bytes.Compare(net.IP, lookupNet.IP) >= 0','return bytes.Compare(net.IP, lookupNet.IP) >= 0')]),
('bad','C09',[(N,'bytes.Compare(net.IP, lookupNet.IP) >= 0','bytes.Compare(net.IP, lookupNet.IP) <= 0')]),
('bad','C09',[(N,'''	for _, nets := range n.networks {
		sort.Sort(netEntrySorter(nets))
	}
''','')]),
('bad','C09',[(N,'''		sort.Sort(netEntrySorter(nets))
''','''		if len(nets) > 8 {
			sort.Sort(netEntrySorter(nets))
		}
''')]),
('bad','C09',[(N,'return bytes.Compare(a[i].Net.IP, a[j].Net.IP) <= 0','return bytes.Compare(a[i].Net.IP, a[j].Net.IP) >= 0')]),
('bad','C08',[(N,'input = fmt.Sprintf("%s/%d", input, n.numIPBytes*8)','input = fmt.Sprintf("%s/%d", input, 32)')]),
('bad','C08',[(N,'''	if len(lookupNet.IP) != n.numIPBytes {
		return nil, errors.New("Lookup address has wrong IP protocol")
	}
''','''	if len(lookupNet.IP) > n.numIPBytes {
		return nil, errors.New("Lookup address has wrong IP protocol")
	}
''')]),
('bad','C08',[(N,'''		} else if len(ipNet.IP) != n.numIPBytes {
			continue
''','')]),
('bad','C08',[(N,'size, _ := ipNet.Mask.Size()','_, size := ipNet.Mask.Size()')]),
('bad','C09',[(N,'		size, _ := ipNet.Mask.Size()\n','		size, _ := ipNet.Mask.Size()\n		if size == 0 {\n			continue\n		}\n')]),
('bad','C09',[(N,'		bestURLs = nets[index].URLs\n','		bestURLs = nets[index].URLs\n		if mask >= 8 {\n			break\n		}\n')]),
('bad','C08',[(N,'		bestEntry = nets[index].Net.String()','		bestEntry = nets[0].Net.String()')]),
('bad','C08',[(N,'		bestEntry = nets[index].Net.String()','		bestEntry = lookupNet.String()')]),
('bad','C09',[(N,NL,'''	var bestEntry string
	var bestURLs []*url.URL
	for mask := lookupMask; mask > 0; mask-- {
		nets := n.networks[mask]
		index := sort.Search(len(nets), func(i int) bool {
			net := nets[i].Net
			return net.Contains(lookupNet.IP) || bytes.Compare(net.IP, lookupNet.IP) >= 0
		})
		if index < len(nets) && nets[index].Net.Contains(lookupNet.IP) {
			bestEntry = nets[index].Net.String()
			bestURLs = nets[index].URLs
			break
		}
	}
''')]),
('bad','C09',[(N,NL,'''	var bestEntry string
	var bestURLs []*url.URL
	for mask := 0; mask <= lookupMask; mask++ {
		nets := n.networks[mask]
		index := sort.Search(len(nets), func(i int) bool {
			net := nets[i].Net
			return net.Contains(lookupNet.IP) || bytes.Compare(net.IP, lookupNet.IP) >= 0
		})
		if index < len(nets) && nets[index].Net.Contains(lookupNet.IP) {
			bestEntry = nets[index].Net.String()
			bestURLs = nets[index].URLs
			break
		}
	}
''')]),
# Net ok
('ok','C08,C09',[(N,NL,'''	var bestEntry string
	var bestURLs []*url.URL
	for mask := lookupMask; mask >= 0; mask-- {
		nets := n.networks[mask]
		index := sort.Search(len(nets), func(i int) bool {
			net := nets[i].Net
			return net.Contains(lookupNet.IP) || bytes.Compare(net.IP, lookupNet.IP) >= 0
		})
		if index < len(nets) && nets[index].Net.Contains(lookupNet.IP) {
			bestEntry = nets[index].Net.String()
			bestURLs = nets[index].URLs
			break
		}
	}
''')]),
('ok','C08,C09',[(N,NL,'''	var best *netEntry
	bestMask := -1
	for mask, nets := range n.networks {
		if mask <= bestMask || mask > lookupMask {
			continue
		}
		if e := findNet(nets, lookupNet.IP); e != nil {
			best = e
			bestMask = mask
		}
	}
	var bestEntry string
	var bestURLs []*url.URL
	if best != nil {
		bestEntry = best.Net.String()
		bestURLs = best.URLs
	}
'''),(N,'','''
func findNet(nets []netEntry, ip net.IP) *netEntry {
	index := sort.Search(len(nets), func(i int) bool {
		net := nets[i].Net
		return net.Contains(ip) || bytes.Compare(net.IP, ip) >= 0
	})
	if index < len(nets) && nets[index].Net.Contains(ip) {
		return &nets[index]
	}
	return nil
}
''')]),
('ok','C08,C09',[(N,'''		if index == len(nets) || !nets[index].Net.Contains(lookupNet.IP) {
			continue
		}

		bestEntry = nets[index].Net.String()
		bestMask = mask
		bestURLs = nets[index].URLs
''','''		if index < len(nets) && nets[index].Net.Contains(lookupNet.IP) {
			match := nets[index]
			bestMask = mask
			bestURLs = match.URLs
			bestEntry = match.Net.String()
		}
''')]),
('ok','C08,C09',[(N,'''		index := sort.Search(len(nets), func(i int) bool {
			net := nets[i].Net
			return net.Contains(lookupNet.IP) || bytes.Compare(net.IP, lookupNet.IP) >= 0
		})

		if index == len(nets) || !nets[index].Net.Contains(lookupNet.IP) {
			continue
		}

		bestEntry = nets[index].Net.String()
		bestMask = mask
		bestURLs = nets[index].URLs
''','''		for _, e := range nets {
			if e.Net.Contains(lookupNet.IP) {
				bestEntry = e.Net.String()
				bestMask = mask
				bestURLs = e.URLs
				break
			}
		}
'''),(N,'	var mask int\n','	var mask int\n	_ = bytes.Compare\n')]),
('ok','C08,C09',[(N,'return bytes.Compare(a[i].Net.IP, a[j].Net.IP) <= 0','return bytes.Compare(a[i].Net.IP, a[j].Net.IP) < 0')]),
('ok','C08,C09',[(N,'		sort.Sort(netEntrySorter(nets))','		sort.Slice(nets, func(i, j int) bool { return bytes.Compare(nets[i].Net.IP, nets[j].Net.IP) < 0 })')]),
('ok','C08,C09',[(N,'''		if err != nil {
			continue
		} else if len(ipNet.IP) != n.numIPBytes {
			continue
		}
''','''		if err != nil || len(ipNet.IP) != n.numIPBytes {
			continue
		}
''')]),
('ok','C08,C09',[(N,'!strings.ContainsAny(input, "/")','strings.IndexByte(input, \'/\') == -1'),(N,'fmt.Sprintf("%s/%d", input, n.numIPBytes*8)','input + "/" + strconv.Itoa(n.numIPBytes*8)'),(N,'	"sort"','	"sort"\n	"strconv"')]),
('ok','C08,C09',[(N,'''		n.networks[size] = append(n.networks[size], netEntry{Net: ipNet, URLs: registry.Entries[cidr]})
''','''		n.add(size, netEntry{Net: ipNet, URLs: registry.Entries[cidr]})
'''),(N,'','''
func (n *NetRegistry) add(size int, e netEntry) {
	n.networks[size] = append(n.networks[size], e)
}
''')]),
('ok','C08,C09',[(N,'	networks map[int][]netEntry','	byMask map[int][]netEntry'),(N,'		networks:   map','		byMask:   map'),(N,'n.networks[size] = append(n.networks[size]','n.byMask[size] = append(n.byMask[size]'),(N,'for _, nets := range n.networks','for _, nets := range n.byMask'),(N,'for mask, nets = range n.networks','for mask, nets = range n.byMask')]),
# DNS bad
('bad','C08',[(D,'	input = strings.ToLower(input)\n','')]),
('bad','C08',[(D,'	input = strings.TrimSuffix(input, ".")\n','')]),
('bad','C08',[(D,'strings.TrimSuffix(input, ".")','strings.Trim(input, ".")')]),
('bad','C08,C09',[(D,'fqdn = fqdn[index+1:]','fqdn = fqdn[index:]')]),
('bad','C09',[(D,"strings.IndexByte(fqdn, '.')","strings.LastIndexByte(fqdn, '.')")]),
('bad','C09',[(D,'''		} else if fqdn == "" {
			break
		}

		index := strings.IndexByte(fqdn, '.')
		if index == -1 {
			fqdn = ""
		} else {''','''		}

		index := strings.IndexByte(fqdn, '.')
		if index == -1 {
			fqdn = ""
			break
		} else {''')]),
('bad','C09',[(D,'		if ok {','		if ok && len(urls) > 1 {')]),
('bad','C09',[(D,'		if index == -1 {','		if index <= 0 {')]),
('bad','C08',[(D,'		Entry: fqdn,','		Entry: input,')]),
# DNS ok
('ok','C08,C09',[(D,DL,'''	urls, ok := d.dns[fqdn]
	for !ok && fqdn != "" {
		_, fqdn, _ = strings.Cut(fqdn, ".")
		urls, ok = d.dns[fqdn]
	}
''')]),
('ok','C08,C09',[(D,'''		if ok {
			break
		} else if fqdn == "" {
			break
		}
''','''		if ok || fqdn == "" {
			break
		}
''')]),
('ok','C08,C09',[(D,'''		index := strings.IndexByte(fqdn, '.')
		if index == -1 {
			fqdn = ""
		} else {
			fqdn = fqdn[index+1:]
		}
''','''		fqdn = parent(fqdn)
'''),(D,'','''
func parent(fqdn string) string {
	if i := strings.Index(fqdn, "."); i >= 0 {
		return fqdn[i+1:]
	}
	return ""
}
''')]),
('ok','C08,C09',[(D,'''	input = strings.TrimSuffix(input, ".")
	input = strings.ToLower(input)
''','''	input = strings.TrimSuffix(strings.ToLower(input), ".")
''')]),
('ok','C08,C09',[(D,DL,'''	var urls []*url.URL
	for {
		if found, ok := d.dns[fqdn]; ok {
			urls = found
			break
		}
		if fqdn == "" {
			break
		}
		_, fqdn, _ = strings.Cut(fqdn, ".")
	}
''')]),
# tags
('bad','C08',[(S,"strings.LastIndexByte(input, '-')","strings.IndexByte(input, '-')")]),
('bad','C08',[(S,'service := input[offset+1:]','service := strings.ToUpper(input[offset+1:])')]),
('bad','C09',[(S,'offset == len(input)-1','offset >= len(input)-4')]),
('bad','C08',[(S,'''	if offset == -1 || offset == len(input)-1 {''','''	if offset == len(input)-1 {''')]),
('bad','C08',[(S,'		Entry: service,','		Entry: input,')]),
('ok','C08,C09',[(S,'strings.LastIndexByte(input, \'-\')','strings.LastIndex(input, "-")')]),
('ok','C08,C09',[(S,'''	urls, ok := s.services[service]

	if !ok {
		service = ""
	}

	return''','''	urls, ok := s.services[service]
	if !ok {
		return &Answer{Query: input}, nil
	}

	return''')]),
('ok','C08,C09',[(S,'''	offset := strings.LastIndexByte(input, '-')

	if offset == -1 || offset == len(input)-1 {
		return &Answer{
			Query: input,
		}, nil
	}

	service := input[offset+1:]
''','''	parts := strings.Split(input, "-")
	service := parts[len(parts)-1]
	if len(parts) == 1 || service == "" {
		return &Answer{
			Query: input,
		}, nil
	}
''')]),
# file
('bad','C08',[(F,'''			entries = s[1]
			rawURLs = s[2]''','''			entries = s[0]
			rawURLs = s[2]''')]),
('bad','C08',[(F,'''		default:
			return''','''		case 4:
			entries = s[1]
			rawURLs = s[2]
		default:
			return''')]),
('bad','C08',[(F,'''			if err != nil {
				continue
			}

			urls = append(urls, url)''','''			if err != nil {
				break
			}

			urls = append(urls, url)''')]),
('bad','C08',[(F,'''			for _, entry := range entries {
				f.Entries[entry] = urls
			}''','''			for _, entry := range entries {
				if _, ok := f.Entries[entry]; ok {
					break
				}
				f.Entries[entry] = urls
			}''')]),
('bad','C08',[(F,'''		var urls []*url.URL

		for _, rawURL''','''		for _, rawURL'''),(F,'''	for _, s := range doc.Services {
''','''	var urls []*url.URL
	for _, s := range doc.Services {
''')]),
('ok','C08,C09',[(F,'''		switch len(s) {
		case 2:
			// {asn,dns,ipv4,ipv6}.json
			entries = s[0]
			rawURLs = s[1]
		case 3:
			// object-tags.json
			entries = s[1]
			rawURLs = s[2]
		default:
			return nil, errors.New("malformed bootstrap (bad services array)")
		}
''','''		if len(s) == 3 {
			s = s[1:]
		}
		if len(s) != 2 {
			return nil, errors.New("malformed bootstrap (bad services array)")
		}
		entries, rawURLs = s[0], s[1]
''')]),
('ok','C08,C09',[(F,'''		var urls []*url.URL

		for _, rawURL := range rawURLs {
			url, err := url.Parse(rawURL)
			// Ignore unparsable URLs.
			if err != nil {
				continue
			}

			urls = append(urls, url)
		}

''','''		urls := parseURLs(rawURLs)

'''),(F,'','''
func parseURLs(rawURLs []string) []*url.URL {
	var urls []*url.URL
	for _, rawURL := range rawURLs {
		if u, err := url.Parse(rawURL); err == nil {
			urls = append(urls, u)
		}
	}
	return urls
}
''')]),
('ok','C08,C09',[(F,'''		if len(urls) > 0 {
			for _, entry := range entries {
				f.Entries[entry] = urls
			}
		}
''','''		if len(urls) == 0 {
			continue
		}
		for i := 0; i < len(entries); i++ {
			f.Entries[entries[i]] = urls
		}
''')]),
('ok','C08,C09',[(A,'	for _, asn := range slices.Sorted(maps.Keys(registry.Entries)) {','	var keys []string\n	for k := range registry.Entries {\n		keys = append(keys, k)\n	}\n	slices.Sort(keys)\n	_ = maps.Keys[map[string]int]\n	for _, asn := range keys {')]),
('ok','C08,C09',[(N,'	for _, cidr := range slices.Sorted(maps.Keys(registry.Entries)) {','	keys := make([]string, 0, len(registry.Entries))\n	for k := range registry.Entries {\n		keys = append(keys, k)\n	}\n	sort.Strings(keys)\n	_ = maps.Keys[map[string]int]\n	_ = slices.Sort[[]int]\n	for i := range keys {\n		cidr := keys[i]\n')]),
('ok','C08,C09',[(A,'	for _, asn := range slices.Sorted(maps.Keys(registry.Entries)) {','	_ = maps.Keys[map[string]int]\n	_ = slices.Sort[[]int]\n	for asn := range registry.Entries {')]),
('bad','C09',[(A,'	for _, asn := range slices.Sorted(maps.Keys(registry.Entries)) {','	for _, asn := range slices.Sorted(maps.Keys(registry.Entries))[1:] {')]),
('bad','C09',[(N,'	for _, cidr := range slices.Sorted(maps.Keys(registry.Entries)) {','	for i, cidr := range slices.Sorted(maps.Keys(registry.Entries)) {\n		if i > 5000 {\n			break\n		}\n')]),
('bad','C08',[(A,'	for _, asn := range slices.Sorted(maps.Keys(registry.Entries)) {','	ks := slices.Sorted(maps.Keys(registry.Entries))\n	for i, asn := range ks {'),(A,'URLs: registry.Entries[asn]}','URLs: registry.Entries[ks[max(0, i-1)]]}')]),
]
