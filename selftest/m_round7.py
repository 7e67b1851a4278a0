# breaking edits written from the property texts, seventh round
C='client.go'; R='request.go'; B='bootstrap/client.go'; V='vcard.go'; P='print.go'; D='decoder.go'; L='cli.go'; W='response.go'; DD='decode_data.go'; S='sandbox/file.go'
MC='bootstrap/cache/memory_cache.go'
M=[
# whois view
('bad','C30',[(W,'\tfor _, n := range d.Nameservers {\n\t\tw.add("Name Server", n.LDHName)','\tfor i, n := range d.Nameservers {\n\t\tif i == 13 {\n\t\t\tbreak\n\t\t}\n\t\tw.add("Name Server", n.LDHName)')]),
('bad','C30',[(W,'\tfor _, e := range entities {\n\t\tif slices.Contains(e.Roles, role) {\n\t\t\treturn &e\n\t\t}\n\t}\n\n\treturn nil','\tvar found *Entity\n\tfor _, e := range entities {\n\t\tif slices.Contains(e.Roles, role) {\n\t\t\tfound = &e\n\t\t}\n\t}\n\n\treturn found')]),
('bad','C30',[(W,'\tv := e.VCard\n\tif v == nil {\n\t\treturn\n\t}\n','\tv := e.VCard\n\tif v == nil || v.Name() == "" {\n\t\treturn\n\t}\n')]),
('bad','C30',[(W,'\tif value == "" {\n\t\treturn\n\t}\n','\tif value == "" || len(value) > 255 {\n\t\treturn\n\t}\n')]),
('bad','C30',[(W,'\t\tw.Data[key] = []string{value}\n\t} else {\n\t\tw.Data[key] = append(w.Data[key], value)','\t\tw.Data[key] = []string{value}\n\t} else {\n\t\tw.Data[key] = append([]string{value}, w.Data[key]...)')]),
('bad','C30',[(W,'\tregistrar := findFirstEntity("registrar", d.Entities)\n\tif registrar != nil {','\tregistrar := findFirstEntity("registrar", d.Entities)\n\tif registrar == nil {\n\t\tregistrar = findFirstEntity("sponsor", d.Entities)\n\t}\n\tif registrar != nil {')]),
('bad','C30',[(W,'\td, ok := r.Object.(*Domain)\n\tif !ok {\n\t\treturn w\n\t}','\td, ok := r.Object.(*Domain)\n\tif !ok || d.ObjectClassName != "domain" {\n\t\treturn w\n\t}')]),
('bad','C30',[(W,'\tw.add("Domain Name", d.LDHName)','\tname := d.LDHName\n\tif d.UnicodeName != "" {\n\t\tname = d.UnicodeName\n\t}\n\tw.add("Domain Name", name)')]),
('bad','C30',[(W,'\taddEntityFields(w, "Tech", findFirstEntity("technical", d.Entities))','\tif admin := findFirstEntity("administrative", d.Entities); admin == nil || !slices.Contains(admin.Roles, "technical") {\n\t\taddEntityFields(w, "Tech", findFirstEntity("technical", d.Entities))\n\t}')]),
# vcard
('bad','C20',[(V,'\t\t\tif slices.Contains(types, "voice") {','\t\t\tif slices.Contains(types, "voice") || !slices.Contains(types, "fax") {')]),
('bad','C20',[(V,'\t\tif isVoice {\n\t\t\tif values := p.Values(); len(values) > 0 {\n\t\t\t\treturn values[0]\n\t\t\t}\n\t\t}','\t\tif isVoice {\n\t\t\tif values := p.Values(); len(values) > 0 {\n\t\t\t\treturn values[0]\n\t\t\t}\n\t\t\treturn ""\n\t\t}')]),
('bad','C20',[(V,"strconv.FormatFloat(v, 'f', -1, 64)","strconv.FormatFloat(v, 'f', -1, 32)")]),
('bad','C20',[(V,'\t\tfor _, v2 := range v {\n\t\t\tp.appendValueStrings(v2, strings)\n\t\t}','\t\tfor _, v2 := range v {\n\t\t\tif v2 == nil {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tp.appendValueStrings(v2, strings)\n\t\t}')]),
('bad','C20',[(V,'\tif index >= len(components) {\n\t\treturn ""\n\t}','\tif len(components) < 7 || index >= len(components) {\n\t\treturn ""\n\t}')]),
('bad','C20',[(V,'\t\t\t\tif s, ok := value.(string); ok {\n\t\t\t\t\tparams[k] = append(params[k], s)\n\t\t\t\t}','\t\t\t\tif s, ok := value.(string); ok && len(params[k]) < 8 {\n\t\t\t\t\tparams[k] = append(params[k], s)\n\t\t\t\t}')]),
('bad','C20',[(V,'\t\tif p.Name == name {\n\t\t\tproperties = append(properties, p)','\t\tif p.Name == name && p.Value != nil {\n\t\t\tproperties = append(properties, p)')]),
('bad','C20',[(V,'\t\tvalue, err = readValue(a[3:], 0)','\t\tvalue, err = readValue(a[3:len(a)-1], 0)')]),
('bad','C20',[(V,'\t\t\tif options.IgnoreInvalidProperties {\n\t\t\t\tcontinue','\t\t\tif options.IgnoreInvalidProperties {\n\t\t\t\tbreak')]),
# decode data accessors
('bad','C18',[(DD,'\t\tif _, isKnown := r.isKnown[f]; !isKnown {','\t\tif _, isKnown := r.isKnown[f]; !isKnown && r.values[f] != nil {')]),
('bad','C18',[(DD,'\tif v, ok := r.values[name]; ok {\n\t\treturn v\n\t}\n\n\treturn nil','\tif v, ok := r.values[name]; ok && !r.isKnown[name] {\n\t\treturn v\n\t}\n\n\treturn nil')]),
('bad','C18',[(DD,'\tfor f := range r.values {\n\t\tfields = append(fields, f)','\tfor f := range r.isKnown {\n\t\tfields = append(fields, f)')]),
('bad','C18',[(DD,'\tif notes, ok := r.notes[name]; ok {\n\t\treturn notes\n\t}','\tif notes, ok := r.notes[name]; ok {\n\t\treturn notes[:1]\n\t}')]),
# sandbox
('bad','C26',[(S,'\tcase "DigiCert_RDAP_Pilot_Client_Certificate.p12",','\tcase "../LICENSE", "DigiCert_RDAP_Pilot_Client_Certificate.p12",')]),
('bad','C26',[(S,'\tif !IsFileInSandbox(filename) {','\tif !IsFileInSandbox(path.Base(filename)) {')]),
# memory cache
('bad','C12',[(MC,'\tm.mtime[filename] = time.Now()\n','\tif _, ok := m.mtime[filename]; !ok {\n\t\tm.mtime[filename] = time.Now()\n\t}\n')]),
('bad','C12',[(MC,'\tm.cache[filename] = make([]byte, len(data))\n\tcopy(m.cache[filename], data)','\tif len(m.cache[filename]) < len(data) {\n\t\tm.cache[filename] = make([]byte, len(data))\n\t}\n\tcopy(m.cache[filename], data)')]),
('bad','C12',[(MC,'\texpiry := mtime.Add(m.Timeout)','\texpiry := mtime.Truncate(24 * time.Hour).Add(m.Timeout)')]),
('bad','C12',[(MC,'\texpiry := mtime.Add(m.Timeout)','\tif m.Timeout == 0 {\n\t\treturn Good\n\t}\n\texpiry := mtime.Add(m.Timeout)')]),
# printer
('bad','C21',[(P,'\tfor _, r := range v.Relation {\n\t\tp.printValue("Relation", r, indentLevel)\n\t}','\tif len(v.Relation) > 0 {\n\t\tp.printValue("Relation", v.Relation[0], indentLevel)\n\t}')]),
('bad','C21',[(P,'\t\tp.printValue(key, strconv.FormatFloat(value, \'f\', -1, 64), indentLevel)','\t\tp.printValue(key, strconv.FormatFloat(value, \'f\', 2, 64), indentLevel)')]),
('bad','C21',[(P,'\t\tp.printValue(key, strconv.FormatFloat(value, \'f\', -1, 64), indentLevel)','\t\tp.printValue(key, strconv.FormatInt(int64(value), 10), indentLevel)')]),
('bad','C21',[(P,'\t\tfor _, key2 := range keys {\n\t\t\tp.printUnknown(key2, value[key2], indentLevel)','\t\tfor _, key2 := range keys {\n\t\t\tp.printUnknown(key, value[key2], indentLevel)')]),
('bad','C21',[(P,'\tif k.Protocol != nil {\n','\tif k.Protocol != nil && *k.Protocol != 3 {\n')]),
('bad','C21',[(P,'strconv.FormatUint(*d.KeyTag, 10)','strconv.FormatUint(uint64(uint16(*d.KeyTag)), 10)')]),
('bad','C22',[(P,'\tif !strings.ContainsAny(str, "\\n\\r\\x00") {','\tif !strings.ContainsAny(str, "\\n\\x00") {')]),
('bad','C22',[(P,'\t\tp.cleanString(heading))','\t\theading)')]),
('bad','C24',[(P,'\tif p.BriefLinks {\n\t\tp.printValue("Link", l.Href, indent)','\tif p.BriefLinks || p.BriefOutput {\n\t\tp.printValue("Link", l.Href, indent)')]),
('bad','C24',[(P,'\tif p.BriefLinks {\n\t\tp.printValue("Link", l.Href, indent)','\tif p.BriefLinks {\n\t\tp.printValue("Link", l.Value, indent)')]),
('bad','C24',[(P,'\tif d == nil {\n\t\treturn\n\t}\n\n\t// Iterate','\tif d == nil || p.OmitNotices && p.OmitRemarks {\n\t\treturn\n\t}\n\n\t// Iterate')]),
('bad','C23',[(P,'\t\tkeys := make([]string, 0, len(value))\n\t\tfor k := range value {\n\t\t\tkeys = append(keys, k)\n\t\t}\n\t\tslices.Sort(keys)','\t\tkeys := make([]string, 0, len(value))\n\t\tfor k := range value {\n\t\t\tkeys = append(keys, k)\n\t\t}\n\t\tslices.SortFunc(keys, func(a, b string) int { return len(a) - len(b) })')]),
('bad','C21',[(P,'int(indentLevel*p.IndentSize)','int(min(indentLevel, 3)*p.IndentSize)')]),
]
