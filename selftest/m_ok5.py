# edits that keep the behaviour, fifth set
C='client.go'; R='request.go'; B='bootstrap/client.go'; V='vcard.go'; P='print.go'; D='decoder.go'; L='cli.go'; W='response.go'; DD='decode_data.go'
DC='bootstrap/cache/disk_cache.go'; MC='bootstrap/cache/memory_cache.go'; N='bootstrap/net_registry.go'; A='bootstrap/asn_registry.go'; DN='bootstrap/dns_registry.go'; SP='bootstrap/service_provider_registry.go'; F='bootstrap/file.go'
M=[]
def ok(*e): M.append(('ok','*',list(e)))
# dns: loop as recursion free for with condition
ok((DN,'''	var urls []*url.URL
	for {
		var ok bool
		urls, ok = d.dns[fqdn]

		if ok {
			break
		} else if fqdn == "" {
			break
		}

		index := strings.IndexByte(fqdn, '.')
		if index == -1 {
			fqdn = ""
		} else {
			fqdn = fqdn[index+1:]
		}
	}
''','''	urls, ok := d.dns[fqdn]
	for !ok && fqdn != "" {
		fqdn = parentName(fqdn)
		urls, ok = d.dns[fqdn]
	}
	var _ []*url.URL = urls
'''),(DN,'// File returns','func parentName(name string) string {\n\t_, parent, _ := strings.Cut(name, ".")\n\treturn parent\n}\n\n// File returns'))
ok((DN,'''		index := strings.IndexByte(fqdn, '.')
		if index == -1 {
			fqdn = ""
		} else {
			fqdn = fqdn[index+1:]
		}
''','''		if index := strings.Index(fqdn, "."); index >= 0 {
			fqdn = fqdn[index+1:]
		} else {
			fqdn = ""
		}
'''))
ok((DN,'''	input := question.Query
	input = strings.TrimSuffix(input, ".")
	input = strings.ToLower(input)
''','''	input := strings.ToLower(strings.TrimSuffix(question.Query, "."))
'''))
# service provider
ok((SP,'''	urls, ok := s.services[service]

	if !ok {
		service = ""
	}

	return &Answer{
		URLs:  urls,
		Query: input,
		Entry: service,
	}, nil''','''	answer := &Answer{Query: input}
	if urls, ok := s.services[service]; ok {
		answer.URLs, answer.Entry = urls, service
	}

	return answer, nil'''))
ok((SP,'''	if offset == -1 || offset == len(input)-1 {
		return &Answer{
			Query: input,
		}, nil
	}

	service := input[offset+1:]
''','''	if offset < 0 {
		return &Answer{Query: input}, nil
	}

	service := input[offset+1:]
	if service == "" {
		return &Answer{Query: input}, nil
	}
'''))
# file
ok((F,'''		var urls []*url.URL

		for _, rawURL := range rawURLs {
			url, err := url.Parse(rawURL)
			// Ignore unparsable URLs.
			if err != nil {
				continue
			}

			urls = append(urls, url)
		}

		if len(urls) > 0 {
			for _, entry := range entries {
				f.Entries[entry] = urls
			}
		}
''','''		urls := parseURLs(rawURLs)
		if len(urls) == 0 {
			continue
		}

		for i := range entries {
			f.Entries[entries[i]] = urls
		}
'''),(F,'// NewFile constructs','func parseURLs(raw []string) []*url.URL {\n\tvar urls []*url.URL\n\tfor _, r := range raw {\n\t\tif u, err := url.Parse(r); err == nil {\n\t\t\turls = append(urls, u)\n\t\t}\n\t}\n\treturn urls\n}\n\n// NewFile constructs'))
ok((F,'''		switch len(s) {
		case 2:
			// {asn,dns,ipv4,ipv6}.json
			entries = s[0]
			rawURLs = s[1]
		case 3:
			// object-tags.json
			entries = s[1]
			rawURLs = s[2]
		default:
			return nil, errors.New("malformed bootstrap (bad services array)")
		}
''','''		if len(s) != 2 && len(s) != 3 {
			return nil, errors.New("malformed bootstrap (bad services array)")
		}

		entries, rawURLs = s[len(s)-2], s[len(s)-1]
'''))
ok((F,'''	f := &File{}
	f.Description = doc.Description
	f.Publication = doc.Publication
	f.Version = doc.Version
	f.JSON = jsonDocument

	f.Entries = make(map[string][]*url.URL)
''','''	f := &File{
		Description: doc.Description,
		Publication: doc.Publication,
		Version:     doc.Version,
		JSON:        jsonDocument,
		Entries:     map[string][]*url.URL{},
	}
'''))
# net
ok((N,'''	var mask int
	var nets []netEntry
	for mask, nets = range n.networks {
		if mask < bestMask || mask > lookupMask {
			continue
		}
''','''	for mask, nets := range n.networks {
		if bestMask > mask || lookupMask < mask {
			continue
		}
'''))
ok((N,'''		index := sort.Search(len(nets), func(i int) bool {
			net := nets[i].Net
			return net.Contains(lookupNet.IP) || bytes.Compare(net.IP, lookupNet.IP) >= 0
		})

		if index == len(nets) || !nets[index].Net.Contains(lookupNet.IP) {
			continue
		}

		bestEntry = nets[index].Net.String()
		bestMask = mask
		bestURLs = nets[index].URLs
''','''		if match := findNet(nets, lookupNet.IP); match != nil {
			bestEntry = match.Net.String()
			bestMask = mask
			bestURLs = match.URLs
		}
'''),(N,'// Lookup returns','func findNet(nets []netEntry, ip net.IP) *netEntry {\n\ti := sort.Search(len(nets), func(i int) bool {\n\t\treturn nets[i].Net.Contains(ip) || bytes.Compare(nets[i].Net.IP, ip) >= 0\n\t})\n\tif i < len(nets) && nets[i].Net.Contains(ip) {\n\t\treturn &nets[i]\n\t}\n\treturn nil\n}\n\n// Lookup returns'))
ok((N,'''		if err != nil {
			continue
		} else if len(ipNet.IP) != n.numIPBytes {
			continue
		}
''','''		if err != nil || len(ipNet.IP) != n.numIPBytes {
			continue
		}
'''))
ok((N,'''	if !strings.ContainsAny(input, "/") {
		// Convert IP address to CIDR format, with a /32 or /128 mask.
		input = fmt.Sprintf("%s/%d", input, n.numIPBytes*8)
	}
''','''	if strings.IndexByte(input, '/') < 0 {
		input += fmt.Sprintf("/%d", 8*n.numIPBytes)
	}
'''))
# memory cache
ok((MC,'''	result := make([]byte, len(data))
	copy(result, data)

	return result, nil''','''	return append([]byte{}, data...), nil'''))
ok((MC,'''	m.cache[filename] = make([]byte, len(data))
	copy(m.cache[filename], data)
''','''	stored := make([]byte, len(data))
	copy(stored, data)
	m.cache[filename] = stored
'''))
ok((MC,'''	expiry := mtime.Add(m.Timeout)

	if expiry.Before(time.Now()) {
		return Expired
	}

	return Good''','''	if time.Since(mtime) <= m.Timeout {
		return Good
	}

	return Expired'''))
# whois
ok((W,'''	for _, e := range d.Events {
		switch e.Action {
		case "last changed":
			w.add("Updated Date", e.Date)
		case "registration":
			w.add("Creation Date", e.Date)
		case "expiration":
			w.add("Expiration Date", e.Date)
		}
	}
''','''	labels := map[string]string{
		"last changed": "Updated Date",
		"registration": "Creation Date",
		"expiration":   "Expiration Date",
	}
	for _, e := range d.Events {
		if label, ok := labels[e.Action]; ok {
			w.add(label, e.Date)
		}
	}
'''))
ok((W,'''	if _, exists := w.Data[key]; !exists {
		w.KeyDisplayOrder = append(w.KeyDisplayOrder, key)
		w.Data[key] = []string{value}
	} else {
		w.Data[key] = append(w.Data[key], value)
	}
''','''	if len(w.Data[key]) == 0 {
		w.KeyDisplayOrder = append(w.KeyDisplayOrder, key)
	}
	w.Data[key] = append(w.Data[key], value)
'''))
ok((W,'''	addEntityFields(w, "Registrant", findFirstEntity("registrant", d.Entities))
	addEntityFields(w, "Admin", findFirstEntity("administrative", d.Entities))
	addEntityFields(w, "Tech", findFirstEntity("technical", d.Entities))
	addEntityFields(w, "Abuse", findFirstEntity("abuse", d.Entities))
''','''	contacts := []struct{ label, role string }{
		{"Registrant", "registrant"},
		{"Admin", "administrative"},
		{"Tech", "technical"},
		{"Abuse", "abuse"},
	}
	for _, c := range contacts {
		addEntityFields(w, c.label, findFirstEntity(c.role, d.Entities))
	}
'''))
ok((W,'''	for _, e := range entities {
		if slices.Contains(e.Roles, role) {
			return &e
		}
	}
''','''	for i := range entities {
		for _, r := range entities[i].Roles {
			if r == role {
				return &entities[i]
			}
		}
	}
	_ = slices.Contains[[]string]
'''))
ok((W,'''		for _, id := range registrar.PublicIDs {
			if id.Type == "IANA Registrar ID" {
				w.add("Registrar IANA ID", id.Identifier)
			}
		}
''','''		for _, id := range registrar.PublicIDs {
			if id.Type != "IANA Registrar ID" {
				continue
			}
			w.add("Registrar IANA ID", id.Identifier)
		}
'''))
# print
ok((P,'''	keys := make([]string, 0, len(d.values))
	for k := range d.values {
		keys = append(keys, k)
	}
	slices.Sort(keys)

	for _, k := range keys {
		isKnown := d.isKnown[k]
		isOverridden := d.overrideKnownValue[k]

		if !isKnown || isOverridden {
			p.printUnknown(k, d.values[k], indentLevel)
		}
	}
''','''	var keys []string
	for k := range d.values {
		if !d.isKnown[k] || d.overrideKnownValue[k] {
			keys = append(keys, k)
		}
	}
	slices.Sort(keys)

	for _, k := range keys {
		p.printUnknown(k, d.values[k], indentLevel)
	}
'''))
ok((P,'''	p.printValue("Title", r.Title, indentLevel)
	p.printValue("Type", r.Type, indentLevel)
	for _, d := range r.Description {
		p.printValue("Description", d, indentLevel)
	}

	for _, l := range r.Links {
		p.printLink(l, indentLevel)
	}

	p.printUnknowns(r.DecodeData, indentLevel)
''','''	p.printText(r.Title, r.Type, r.Description, r.Links, r.DecodeData, indentLevel)
'''),(P,'''	p.printValue("Title", n.Title, indentLevel)
	p.printValue("Type", n.Type, indentLevel)
	for _, d := range n.Description {
		p.printValue("Description", d, indentLevel)
	}

	for _, l := range n.Links {
		p.printLink(l, indentLevel)
	}

	p.printUnknowns(n.DecodeData, indentLevel)
''','''	p.printText(n.Title, n.Type, n.Description, n.Links, n.DecodeData, indentLevel)
'''),(P,'// printLink formats','''func (p *Printer) printText(title, kind string, description []string, links []Link, data *DecodeData, indentLevel uint) {
	p.printValue("Title", title, indentLevel)
	p.printValue("Type", kind, indentLevel)
	for _, d := range description {
		p.printValue("Description", d, indentLevel)
	}
	for _, l := range links {
		p.printLink(l, indentLevel)
	}
	p.printUnknowns(data, indentLevel)
}

// printLink formats'''))
ok((P,'''	if !strings.ContainsAny(str, "\\n\\r\\x00") {
		return str
	}

	return strings.Map(removeBadRunes, str)
''','''	if strings.IndexFunc(str, func(r rune) bool { return removeBadRunes(r) < 0 }) == -1 {
		return str
	}

	return strings.Map(removeBadRunes, str)
'''))
ok((P,'''	fmt.Fprintf(p.Writer, "%s%s: %s\\n",
		p.indent(indentLevel),
		p.cleanString(name),
		p.cleanString(value))
''','''	line := p.indent(indentLevel) + p.cleanString(name) + ": " + p.cleanString(value)
	fmt.Fprintln(p.Writer, line)
'''))
ok((P,'''	if s.ZoneSigned != nil {
		p.printValue("Zone Signed",
			strconv.FormatBool(*s.ZoneSigned),
			indentLevel)
	}

	if s.DelegationSigned != nil {
		p.printValue("Delegation Signed",
			strconv.FormatBool(*s.DelegationSigned),
			indentLevel)
	}
''','''	p.printFlag("Zone Signed", s.ZoneSigned, indentLevel)
	p.printFlag("Delegation Signed", s.DelegationSigned, indentLevel)
'''),(P,'// printKeyData prints','''func (p *Printer) printFlag(name string, b *bool, indentLevel uint) {
	if b == nil {
		return
	}
	text := "false"
	if *b {
		text = "true"
	}
	p.printValue(name, text, indentLevel)
}

// printKeyData prints'''))
# vcard
ok((V,'''		isVoice := false

		if types, ok := p.Parameters["type"]; ok {
			if slices.Contains(types, "voice") {
				isVoice = true
			}
		} else {
			isVoice = true
		}

		if isVoice {
			if values := p.Values(); len(values) > 0 {
				return values[0]
			}
		}
''','''		types, typed := p.Parameters["type"]
		if typed && !slices.Contains(types, "voice") {
			continue
		}

		if values := p.Values(); len(values) > 0 {
			return values[0]
		}
'''))
ok((V,'''	properties := v.Get(name)

	if len(properties) == 0 {
		return nil
	}

	return properties[0]
''','''	for _, p := range v.Properties {
		if p.Name == name {
			return p
		}
	}

	return nil
'''))
ok((V,'''	var value any
	if len(a) == 4 {
		value, err = readValue(a[3], 0)
	} else {
		value, err = readValue(a[3:], 0)
	}

	if err != nil {
		return nil, err
	}
''','''	var raw any = a[3:]
	if len(a) == 4 {
		raw = a[3]
	}

	value, err := readValue(raw, 0)
	if err != nil {
		return nil, err
	}
'''))
# decoder
ok((D,'''		var maxVal uint64

		// Check the result number is within range of the target type.
		switch dst.Kind() {
		case reflect.Uint8:
			maxVal = math.MaxUint8
		case reflect.Uint16:
			maxVal = math.MaxUint16
		case reflect.Uint32:
			maxVal = math.MaxUint32
		case reflect.Uint64:
			maxVal = math.MaxUint64
		default:
			panic("Unexpected int type")
		}

		if result > maxVal {
''','''		if dst.OverflowUint(result) {
'''))
ok((D,'''	case bool:
		if src {
			result = 1.0
		}

		d.addDecodeNote(decodeData, keyName, "bool to float64 conversion")
	case float64:
		result = src
''','''	case float64:
		result = src
	case bool:
		d.addDecodeNote(decodeData, keyName, "bool to float64 conversion")
		if src {
			result = 1
		}
'''))
ok((DD,'''	if v, ok := r.values[name]; ok {
		return v
	}

	return nil
''','''	return r.values[name]
'''))
ok((D,'''	for name, value := range srcMap {
		if index, ok := plan.fieldIndex[name]; ok {
			if _, err := d.decode(name, value, dst.FieldByIndex(index), myDecodeData); err != nil {
				return false, err
			}
		}
	}
''','''	for name, index := range plan.fieldIndex {
		value, present := srcMap[name]
		if !present {
			continue
		}

		if _, err := d.decode(name, value, dst.FieldByIndex(index), myDecodeData); err != nil {
			return false, err
		}
	}
'''))
ok((D,'''	} else if _, exists := src["domainSearchResults"]; exists {
		d.target = &DomainSearchResults{}
	} else if _, exists := src["entitySearchResults"]; exists {
		d.target = &EntitySearchResults{}
	} else if _, exists := src["nameserverSearchResults"]; exists {
		d.target = &NameserverSearchResults{}
	}

	// Default to returning a Help{}.
	//
	// All remaining JSON documents are assumed to be Help responses. There's no
	// way of distinguishing a Help response and a valid non-RDAP response.
	if d.target == nil {
		d.target = &Help{}
	}
''','''	} else {
		d.target = searchTarget(src)
	}
'''),(D,'// decode decodes the JSON structure','''func searchTarget(src map[string]any) any {
	has := func(name string) bool {
		_, exists := src[name]
		return exists
	}
	switch {
	case has("domainSearchResults"):
		return &DomainSearchResults{}
	case has("entitySearchResults"):
		return &EntitySearchResults{}
	case has("nameserverSearchResults"):
		return &NameserverSearchResults{}
	}
	return &Help{}
}

// decode decodes the JSON structure'''))
# bootstrap client
ok((B,'''	forceDownload := state == cache.Absent || state == cache.Expired
	if state == cache.ShouldReload {
		if err := c.reloadFromCache(registry); err != nil {
			forceDownload = true

			c.Verbose(fmt.Sprintf("  bootstrap: Cache load error (%s), downloading...", err))
		}
	}

	if c.registries[registry] == nil || forceDownload {''','''	forceDownload := false
	switch state {
	case cache.Absent, cache.Expired:
		forceDownload = true
	case cache.ShouldReload:
		err := c.reloadFromCache(registry)
		forceDownload = err != nil
		if err != nil {
			c.Verbose(fmt.Sprintf("  bootstrap: Cache load error (%s), downloading...", err))
		}
	}

	if forceDownload || c.registries[registry] == nil {'''))
ok((B,'''	answer, err := c.registries[registry].Lookup(question)

	if answer != nil {
		c.Verbose(fmt.Sprintf("  bootstrap: Looked up '%s'", answer.Query))
		if answer.Entry != "" {
			c.Verbose(fmt.Sprintf("  bootstrap: Matching entry '%s'", answer.Entry))
		} else {
			c.Verbose("  bootstrap: No match")
		}

		for i, url := range answer.URLs {
			c.Verbose(fmt.Sprintf("  bootstrap: Service URL #%d: '%s'", i+1, url))
		}
	}

	return answer, err''','''	answer, err := c.registries[registry].Lookup(question)
	if answer != nil {
		c.logAnswer(answer)
	}

	return answer, err'''),(B,'// ASN returns the current','''func (c *Client) logAnswer(answer *Answer) {
	c.Verbose(fmt.Sprintf("  bootstrap: Looked up '%s'", answer.Query))
	if answer.Entry == "" {
		c.Verbose("  bootstrap: No match")
	} else {
		c.Verbose(fmt.Sprintf("  bootstrap: Matching entry '%s'", answer.Entry))
	}
	for i, u := range answer.URLs {
		c.Verbose(fmt.Sprintf("  bootstrap: Service URL #%d: '%s'", i+1, u))
	}
}

// ASN returns the current'''))
# request
ok((R,'''	var resultURL *url.URL

	if r.Type == RawRequest {
		resultURL = new(url.URL)
		*resultURL = *r.Server
	} else {
		tempURL''','''	if r.Type == RawRequest {
		raw := *r.Server
		return &raw
	}

	var resultURL *url.URL
	{
		tempURL'''))
ok((R,'''	if ('A' <= b && b <= 'Z') || ('a' <= b && b <= 'z') || ('0' <= b && b <= '9') {
		return false
	}

	switch b {
	case '-', '_', '.', '~', '$', '&', '+', ':', '=', '@':
		return false
	}

	return true''','''	switch {
	case 'A' <= b && b <= 'Z', 'a' <= b && b <= 'z', '0' <= b && b <= '9':
		return false
	}

	return strings.IndexByte("-_.~$&+:=@", b) < 0'''))
ok((R,'''		if len(tempURLString) == 0 || tempURLString[len(tempURLString)-1] != '/' {
			tempURLString += "/"
		}

		tempURLString += path
''','''		tempURLString = strings.TrimSuffix(tempURLString, "/") + "/" + path
'''))
