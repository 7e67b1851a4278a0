V='vcard.go'; P='print.go'; R='response.go'; D='decoder.go'; Q='request.go'
A='bootstrap/asn_registry.go'; N='bootstrap/net_registry.go'; S='bootstrap/service_provider_registry.go'; F='bootstrap/file.go'; DN='bootstrap/dns_registry.go'
M=[
('bad','C14',[(V,'if !ok || len(top) != 2 {','if !ok || len(top) == 0 {')]),
('bad','C14',[(V,'len(a) < 4 {','len(a) < 2 {')]),
('bad','C14',[(V,'	properties, ok = top[1].([]any)\n	if !ok {','	properties, ok = top[1].([]any)\n	if !ok && top[1] != nil {')]),
('bad','C14',[(V,'	if _, ok := p.(map[string]any); !ok {\n		return','	if _, ok := p.(map[string]any); !ok && p != nil {\n		return')]),
('bad','C14',[(V,'	name, ok := a[0].(string)\n	if !ok {\n		return nil, vCardError("jCard property name invalid")\n	}','	name := a[0].(string)')]),
('bad','C14',[(V,'	if index >= len(components) {','	if index > len(components) {')]),
('bad','C14',[(V,'	if len(properties) == 0 {\n		return nil\n	}\n\n	return properties[0]','	if properties == nil && len(v.Properties) == 0 {\n		return nil\n	}\n\n	return properties[0]')]),
('bad','C14',[(V,'return strings.Join(property.Values(), " ")','return property.Values()[0]')]),
('bad','C14',[(P,'	if e.VCard != nil {\n		for','	{\n		for')]),
('bad','C14',[(P,'	if d.Network != nil {','	if d.Network != nil || len(d.Entities) > 3 {')]),
('bad','C14',[(P,'	if a.EndAutnum != nil {','	if a.StartAutnum != nil {')]),
('bad','C14',[(P,'	if d == nil {\n		return\n	}\n','')]),
('bad','C14',[(P,'		p.printValue(key, "[unprintable value]", indentLevel)','		panic("unprintable value")')]),
('bad','C14',[(R,'		vcard := registrar.VCard\n		if vcard != nil {','		vcard := registrar.VCard\n		{')]),
('bad','C14',[(R,'	registrar := findFirstEntity("registrar", d.Entities)\n	if registrar != nil {','	registrar := findFirstEntity("registrar", d.Entities)\n	if len(d.Entities) > 0 {')]),
('bad','C14',[(R,'	v := e.VCard\n	if v == nil {\n		return\n	}\n','	v := e.VCard\n')]),
('bad','C14',[(R,'	d, ok := r.Object.(*Domain)\n	if !ok {\n		return w\n	}\n','	d := r.Object.(*Domain)\n')]),
('bad','C14',[(A,'	if len(asns) != 1 && len(asns) != 2 {','	if len(asns) > 3 {'),(A,'	if len(asns) == 2 {\n		maxASN, err = strconv.ParseUint(asns[1]','	if len(asns) >= 2 {\n		maxASN, err = strconv.ParseUint(asns[2]')]),
('bad','C14',[(A,'	if index != len(a.asns) && (asn','	if (asn')]),
('bad','C14',[(N,'if index == len(nets) || !nets','if !nets')]),
('bad','C14',[(N,'		if err != nil {\n			continue\n		} else if len(ipNet.IP)','		if err != nil && len(cidr) == 0 {\n			continue\n		} else if len(ipNet.IP)')]),
('bad','C14',[(S,'	if offset == -1 || offset == len(input)-1 {','	if input[len(input)-1] == \'-\' {')]),
('bad','C14',[(S,'input[offset+1:]','input[offset+1:][:4]')]),
('bad','C14',[(F,'		switch len(s) {\n		case 2:','		switch {\n		case len(s) != 3:'),(F,'case 3:','case len(s) == 3:')]),
('bad','C14',[(DN,'	input = strings.TrimSuffix(input, ".")\n','	if input[len(input)-1] == \'.\' {\n		input = input[:len(input)-1]\n	}\n')]),
('bad','C14',[(D,'	srcSlice, ok := src.([]any)\n	if !ok {\n		d.addDecodeNote(decodeData, keyName, "invalid JSON type, expecting array")\n		return false, nil\n	}\n','	srcSlice := src.([]any)\n')]),
('bad','C14',[(D,'		if objectClassName, ok := o.(string); ok {','		if objectClassName := o.(string); objectClassName != "" {')]),
('bad','C14',[(D,'		if src < 0 || src >= 1<<64 {\n			success = false','		if src < 0 || src >= 1<<64 {\n			panic("number out of range")\n			success = false')]),
('bad','C14',[(D,'	case nil:\n		result = ""\n','	case nil:\n		panic("null")\n		result = ""\n')]),
('bad','C14',[(V,'	default:\n		return nil, vCardError("Unknown JSON datatype in jCard value")','	default:\n		return value, nil')]),
('bad','C14',[(V,'		if len(strs) > 0 {\n','		{\n') ] if False else [(V,'	adr := v.GetFirst("adr")\n	if adr == nil {\n		return ""\n	}\n','	adr := v.GetFirst("adr")\n')]),
# refactorings
('ok','C14',[(V,'	if !ok || len(top) != 2 {\n','	const jCardLen = 2\n	if n := len(top); !ok || n != jCardLen {\n')]),
('ok','C14',[(V,'	} else if len(a) < 4 {\n','	}\n	if n := len(a); n <= 3 {\n')]),
('ok','C14',[(V,'	if len(a) == 4 {\n		value, err = readValue(a[3], 0)\n	} else {\n		value, err = readValue(a[3:], 0)\n	}','	if rest := a[3:]; len(rest) == 1 {\n		value, err = readValue(rest[0], 0)\n	} else {\n		value, err = readValue(rest, 0)\n	}')]),
('ok','C14',[(P,'	if e.VCard != nil {\n		for _, property := range e.VCard.Properties {','	if vc := e.VCard; vc != nil {\n		for i := 0; i < len(vc.Properties); i++ {\n			property := vc.Properties[i]')]),
('ok','C14',[(P,'	if a.StartAutnum != nil {','	if start := a.StartAutnum; start != nil {')]),
('ok','C14',[(A,'	asns := strings.Split(asnRange, "-")\n\n	if len(asns) != 1 && len(asns) != 2 {\n		return 0, 0, errors.New("malformed ASN range")\n	}\n','	asns := strings.Split(asnRange, "-")\n\n	switch len(asns) {\n	case 1, 2:\n	default:\n		return 0, 0, errors.New("malformed ASN range")\n	}\n')]),
('ok','C14',[(A,'	asns := strings.Split(asnRange, "-")\n\n	if len(asns) != 1 && len(asns) != 2 {\n','	asns := strings.SplitN(asnRange, "-", 3)\n\n	if len(asns) > 2 {\n')]),
('ok','C14',[(N,'		if index == len(nets) || !nets[index].Net.Contains(lookupNet.IP) {\n			continue\n		}\n','		if index >= len(nets) {\n			continue\n		}\n		if best := nets[index].Net; !best.Contains(lookupNet.IP) {\n			continue\n		}\n')]),
('ok','C14',[(S,'	offset := strings.LastIndexByte(input, \'-\')\n\n	if offset == -1 || offset == len(input)-1 {','	offset := strings.LastIndex(input, "-")\n\n	if offset < 0 || offset+1 >= len(input) {')]),
('ok','C14',[(S,'	offset := strings.LastIndexByte(input, \'-\')\n\n	if offset == -1 || offset == len(input)-1 {','	if input == "" {\n		return &Answer{Query: input}, nil\n	}\n	offset := strings.LastIndexByte(input, \'-\')\n\n	if offset == -1 || input[len(input)-1] == \'-\' {')]),
('ok','C14',[(F,'		switch len(s) {\n		case 2:\n			// {asn,dns,ipv4,ipv6}.json\n			entries = s[0]\n			rawURLs = s[1]\n		case 3:\n			// object-tags.json\n			entries = s[1]\n			rawURLs = s[2]\n		default:\n			return nil, errors.New("malformed bootstrap (bad services array)")\n		}','		n := len(s)\n		if n < 2 || n > 3 {\n			return nil, errors.New("malformed bootstrap (bad services array)")\n		}\n		entries = s[n-2]\n		rawURLs = s[n-1]')]),
('ok','C14',[(DN,'	input = strings.TrimSuffix(input, ".")\n','	if n := len(input); n > 0 && input[n-1] == \'.\' {\n		input = input[:n-1]\n	}\n')]),
('ok','C14',[(DN,'		index := strings.IndexByte(fqdn, \'.\')\n		if index == -1 {\n			fqdn = ""\n		} else {\n			fqdn = fqdn[index+1:]\n		}','		_, fqdn, _ = strings.Cut(fqdn, ".")')]),
('ok','C14',[(DN,'		index := strings.IndexByte(fqdn, \'.\')\n		if index == -1 {\n			fqdn = ""\n		} else {\n			fqdn = fqdn[index+1:]\n		}','		i := 0\n		for i < len(fqdn) && fqdn[i] != \'.\' {\n			i++\n		}\n		if i == len(fqdn) {\n			fqdn = ""\n		} else {\n			fqdn = fqdn[i+1:]\n		}')]),
('ok','C14',[(R,'	d, ok := r.Object.(*Domain)\n	if !ok {\n		return w\n	}\n','	var d *Domain\n	switch o := r.Object.(type) {\n	case *Domain:\n		d = o\n	default:\n		return w\n	}\n')]),
('ok','C14',[(R,'	v := e.VCard\n	if v == nil {\n		return\n	}\n','	if e.VCard == nil {\n		return\n	}\n	v := e.VCard\n')]),
('ok','C14',[(R,'	for _, e := range entities {\n		if slices.Contains(e.Roles, role) {\n			return &e\n		}\n	}\n\n	return nil','	i := slices.IndexFunc(entities, func(e Entity) bool { return slices.Contains(e.Roles, role) })\n	if i < 0 {\n		return nil\n	}\n\n	return &entities[i]')]),
('ok','C14',[(D,'	srcSlice, ok := src.([]any)\n	if !ok {','	srcSlice, isList := src.([]any)\n	if !isList {')]),
('ok','C14',[(P,'	if d == nil {\n		return\n	}\n\n	// Iterate in sorted key order so output is deterministic.\n	keys := make([]string, 0, len(d.values))\n	for k := range d.values {\n		keys = append(keys, k)\n	}\n	slices.Sort(keys)\n','	if d == nil {\n		return\n	}\n\n	keys := make([]string, len(d.values))\n	i := 0\n	for k := range d.values {\n		keys[i] = k\n		i++\n	}\n	slices.Sort(keys)\n')]),
]
