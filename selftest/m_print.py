P='print.go'; R='response.go'
ALLP='C02,C14,C18,C21,C22,C23,C24'
M=[
# C21
('bad','C21',[(P,'	for _, s := range d.Status {\n		p.printValue("Status", s, indentLevel)\n	}','	if len(d.Status) > 0 {\n		p.printValue("Status", d.Status[0], indentLevel)\n	}')]),
('bad','C21',[(P,'	for _, ip := range s.V4 {','	for _, ip := range s.V6 {\n		_ = ip\n		break\n	}\n	for _, ip := range s.V4[:min(len(s.V4), 8)] {')]),
('bad','C21',[(P,'		for _, asn := range e.Autnums {','		for _, asn := range e.Autnums[1:] {')]),
('bad','C21',[(P,'	p.printValue("Domain Name (Unicode)", vn.UnicodeName, indentLevel)\n','	if vn.LDHName == "" {\n		p.printValue("Domain Name (Unicode)", vn.UnicodeName, indentLevel)\n	}\n')]),
('bad','C21',[(P,'	p.printValue("Domain Name (Unicode)", d.UnicodeName, indentLevel)\n','	if d.UnicodeName != d.LDHName {\n		p.printValue("Domain Name (Unicode)", d.UnicodeName, indentLevel)\n	}\n')]),
('bad','C21',[(P,'	p.printValue("End Address", n.EndAddress, indentLevel)','	p.printValue("End Address", n.StartAddress, indentLevel)')]),
('bad','C21',[(P,'	p.printValue("Start Address", n.StartAddress, indentLevel)\n	p.printValue("End Address", n.EndAddress, indentLevel)','	p.printValue("End Address", n.StartAddress, indentLevel)\n	p.printValue("Start Address", n.EndAddress, indentLevel)')]),
('bad','C21',[(P,'			strconv.FormatUint(uint64(*a.EndAutnum), 10),','			strconv.FormatUint(uint64(uint16(*a.EndAutnum)), 10),')]),
('bad','C21',[(P,'	if a.EndAutnum != nil {','	if a.EndAutnum != nil && *a.EndAutnum != 0 {')]),
('bad','C21',[(P,'			strconv.FormatUint(*s.MaxSigLife, 10),','			strconv.FormatUint(*s.MaxSigLife, 16),')]),
('bad','C21',[(P,'	for _, key := range s.Keys {\n		p.printKeyData(key, indentLevel)\n	}','	if len(s.DS) == 0 {\n		for _, key := range s.Keys {\n			p.printKeyData(key, indentLevel)\n		}\n	}')]),
('bad','C21',[(P,'	for _, ds := range s.DS {\n		p.printDSData(ds, indentLevel)\n	}','	for i := len(s.DS) - 1; i >= 0; i-- {\n		p.printDSData(s.DS[i], indentLevel)\n	}')]),
('bad','C21',[(P,'	for _, l := range e.Links {\n		p.printLink(l, indentLevel)\n	}\n\n	p.printUnknowns(e.DecodeData','	for _, l := range e.Links {\n		p.printLink(l, indentLevel-1)\n	}\n\n	p.printUnknowns(e.DecodeData')]),
('bad','C21',[(P,'		for _, e := range e.Entities {\n			p.printEntity(&e, indentLevel)\n		}\n	}','		if indentLevel < 4 {\n			for _, e := range e.Entities {\n				p.printEntity(&e, indentLevel)\n			}\n		}\n	}')]),
('bad','C21',[(P,'	for _, r := range e.Roles {\n		p.printValue("Role", r, indentLevel)\n	}','	p.printValue("Role", strings.Join(e.Roles, ", "), indentLevel)')]),
('bad','C21',[(P,'			for _, str := range property.Values() {\n				p.printValue("vCard "+property.Name, str, indentLevel)\n			}','			if vs := property.Values(); len(vs) > 0 {\n				p.printValue("vCard "+property.Name, vs[0], indentLevel)\n			}')]),
('bad','C21',[(P,'			p.printEvent(e, indentLevel, true)','			p.printEvent(e, indentLevel, false)')]),
('bad','C21',[(P,'	case *NameserverSearchResults:\n		p.printNameserverSearchResults(v, indentLevel)\n','')]),
('bad','C21',[(P,'	p.printValue("Type", r.Type, indentLevel)\n	for','	if r.Title != "" {\n		p.printValue("Type", r.Type, indentLevel)\n	}\n	for')]),
('bad','C21',[(P,'	p.printValue("Digest", d.Digest, indentLevel)','	p.printValue("Digest", strings.ToLower(d.Digest), indentLevel)')]),
('bad','C21',[(P,'	return strings.Repeat(string(p.IndentChar), int(indentLevel*p.IndentSize))','	return strings.Repeat(string(p.IndentChar), int(min(indentLevel, 3)*p.IndentSize))')]),
('bad','C21',[(P,'	if d.Network != nil {','	if d.Network != nil && len(d.Nameservers) == 0 {')]),
('bad','C21',[(P,'	p.printValue("ParentHandle", n.ParentHandle, indentLevel)\n','	if n.ParentHandle != n.Handle {\n		p.printValue("ParentHandle", n.ParentHandle, indentLevel)\n	}\n')]),
('bad','C21',[(P,'		p.cleanString(value))','		p.cleanString(strings.TrimSpace(value)))')]),
# C22
('bad','C22',[(P,'		p.cleanString(name),\n		p.cleanString(value))','		name,\n		p.cleanString(value))')]),
('bad','C22',[(P,'		p.cleanString(heading))','		heading)')]),
('bad','C22',[(P,'		p.printValue("Link", l.Href, indent)\n','		fmt.Fprintf(p.Writer, "%sLink: %s\\n", p.indent(indent), l.Href)\n')]),
('bad','C22',[(P,"""	case '\\n', '\\r', '\\000':""","""	case '\\n', '\\r':""")]),
('bad','C22',[(P,'''"\\n\\r\\x00") {''','''"\\n\\x00") {''')]),
('bad','C22',[(P,'	return strings.Map(removeBadRunes, str)','	return strings.TrimFunc(str, func(r rune) bool { return removeBadRunes(r) < 0 })')]),
('bad','C22',[(P,'	return strings.Map(removeBadRunes, str)','	str = strings.Replace(str, "\\n", "", 1)\n	return strings.ReplaceAll(strings.ReplaceAll(str, "\\r", ""), "\\x00", "")')]),
('bad','C22',[(P,'	return strings.Map(removeBadRunes, str)','	return strings.NewReplacer("\\r\\n", "", "\\n", "", "\\x00", "").Replace(str)')]),
('bad','C22',[(P,'''	if !strings.ContainsAny(str, "\\n\\r\\x00") {''','''	if !strings.ContainsAny(str, "\\n\\r\\x00") || strings.HasPrefix(str, "http") {''')]),
('bad','C22',[(P,'	case string:\n		p.printValue(key, value, indentLevel)\n	case []any','	case string:\n		fmt.Fprintln(p.Writer, p.indent(indentLevel)+p.cleanString(key)+": "+value)\n	case []any')]),
('ok','C22,C21,C23,C24,C18,C02',[(P,'	return strings.Map(removeBadRunes, str)','	return strings.NewReplacer("\\n", "", "\\r", "", "\\x00", "").Replace(str)'),(P,'func removeBadRunes','var _ = removeBadRunes\n\nfunc removeBadRunes')]),
('ok','C22,C21,C23,C24,C18,C02',[(P,'	return strings.Map(removeBadRunes, str)','	str = strings.ReplaceAll(str, "\\n", "")\n	return strings.ReplaceAll(strings.ReplaceAll(str, "\\r", ""), "\\x00", "")'),(P,'func removeBadRunes','var _ = removeBadRunes\n\nfunc removeBadRunes')]),
('ok','C22,C21,C23,C24,C18,C02',[(P,'''	if !strings.ContainsAny(str, "\\n\\r\\x00") {
		return str
	}

''','')]),
('ok','C22,C21,C23,C24,C18,C02',[(P,'	return strings.Map(removeBadRunes, str)','	var b strings.Builder\n	for _, r := range str {\n		if removeBadRunes(r) >= 0 {\n			b.WriteRune(r)\n		}\n	}\n	return b.String()')]),
('ok','C22,C21,C23,C24,C18,C02',[(P,'	return strings.Map(removeBadRunes, str)','	return strings.Join(strings.FieldsFunc(str, func(r rune) bool { return removeBadRunes(r) < 0 }), "")')]),
('ok','C22,C21,C23,C24,C18,C02',[(P,'	return strings.Map(removeBadRunes, str)','	return strings.Map(func(r rune) rune {\n		if strings.ContainsRune("\\n\\r\\x00", r) {\n			return -1\n		}\n		return r\n	}, str)'),(P,'func removeBadRunes','var _ = removeBadRunes\n\nfunc removeBadRunes')]),
('ok','C22,C21,C23,C24,C18,C02',[(P,"""	switch r {
	case '\\n', '\\r', '\\000':
		return -1
	default:
		return r
	}""","""	if r == '\\n' || r == '\\r' || r == 0 {
		return -1
	}
	return r""")]),
('ok','C22,C21,C23,C24,C18,C02',[(P,"""	if !strings.ContainsAny(str, "\\n\\r\\x00") {""","""	if strings.IndexFunc(str, isBadRune) < 0 {"""),(P,'func removeBadRunes',"func isBadRune(r rune) bool {\n	return r == '\\n' || r == '\\r' || r == '\\000'\n}\n\nfunc removeBadRunes")]),
('ok','C22,C21,C23,C24,C18,C02',[(P,'	fmt.Fprintf(p.Writer, "%s%s: %s\\n",\n		p.indent(indentLevel),\n		p.cleanString(name),\n		p.cleanString(value))','	p.writeLine(p.cleanString(name)+": "+p.cleanString(value), indentLevel)'),(P,'	fmt.Fprintf(p.Writer, "%s%s:\\n",\n		p.indent(indentLevel),\n		p.cleanString(heading))','	p.writeLine(p.cleanString(heading)+":", indentLevel)'),(P,'// printHeading formats','func (p *Printer) writeLine(s string, indentLevel uint) {\n	var b strings.Builder\n	b.WriteString(p.indent(indentLevel))\n	b.WriteString(s)\n	b.WriteByte(\'\\n\')\n	io.WriteString(p.Writer, b.String())\n}\n\nvar _ = fmt.Sprint\n\n// printHeading formats')]),
('ok','C22,C21,C23,C24,C18,C02',[(P,'	fmt.Fprintf(p.Writer, "%s%s: %s\\n",\n		p.indent(indentLevel),\n		p.cleanString(name),\n		p.cleanString(value))','	line := fmt.Sprintf("%s%s: %s", p.indent(indentLevel), p.cleanString(name), p.cleanString(value))\n	fmt.Fprintln(p.Writer, line)')]),
# common helpers
('ok',ALLP,[(P,'	for _, s := range d.Status {\n		p.printValue("Status", s, indentLevel)\n	}','	p.printValues("Status", d.Status, indentLevel)'),(P,'	for _, s := range a.Status {\n		p.printValue("Status", s, indentLevel)\n	}','	p.printValues("Status", a.Status, indentLevel)'),(P,'// printEvent processes','func (p *Printer) printValues(name string, values []string, indentLevel uint) {\n	for i := 0; i < len(values); i++ {\n		p.printValue(name, values[i], indentLevel)\n	}\n}\n\n// printEvent processes')]),
('ok',ALLP,[(P,'	if !p.BriefOutput && !p.OmitNotices {\n		for _, n := range d.Notices {\n			p.printNotice(n, indentLevel)\n		}\n	}\n\n	if !p.BriefOutput && !p.OmitRemarks {\n		for _, r := range d.Remarks {\n			p.printRemark(r, indentLevel)\n		}\n	}\n\n	for _, l := range d.Links {','	p.printNoticesAndRemarks(d.Notices, d.Remarks, indentLevel)\n\n	for _, l := range d.Links {'),(P,'// printEvent processes','func (p *Printer) printNoticesAndRemarks(notices []Notice, remarks []Remark, indentLevel uint) {\n	if p.BriefOutput {\n		return\n	}\n	if !p.OmitNotices {\n		for _, n := range notices {\n			p.printNotice(n, indentLevel)\n		}\n	}\n	if p.OmitRemarks {\n		return\n	}\n	for i := range remarks {\n		p.printRemark(remarks[i], indentLevel)\n	}\n}\n\n// printEvent processes')]),
('ok',ALLP,[(P,'	if a.StartAutnum != nil {\n		p.printValue("StartAutnum",\n			strconv.FormatUint(uint64(*a.StartAutnum), 10),\n			indentLevel)\n	}','	printUint(p, "StartAutnum", a.StartAutnum, indentLevel)'),(P,'	if k.Flags != nil {\n		p.printValue("Flags",\n			strconv.FormatUint(uint64(*k.Flags), 10),\n			indentLevel)\n	}','	printUint(p, "Flags", k.Flags, indentLevel)'),(P,'// printEvent processes','func printUint[T uint8 | uint16 | uint32 | uint64](p *Printer, name string, v *T, indentLevel uint) {\n	if v == nil {\n		return\n	}\n	p.printValue(name, strconv.FormatUint(uint64(*v), 10), indentLevel)\n}\n\n// printEvent processes')]),
('ok',ALLP,[(P,'strconv.FormatUint(uint64(*a.EndAutnum), 10)','fmt.Sprintf("%d", *a.EndAutnum)'),(P,'strconv.FormatBool(*s.ZoneSigned)','fmt.Sprint(*s.ZoneSigned)')]),
('ok',ALLP,[(P,'	for _, ds := range s.DS {\n		p.printDSData(ds, indentLevel)\n	}','	printEach(s.DS, indentLevel, p.printDSData)'),(P,'	for _, key := range s.Keys {\n		p.printKeyData(key, indentLevel)\n	}','	printEach(s.Keys, indentLevel, p.printKeyData)'),(P,'// printEvent processes','func printEach[T any](l []T, indentLevel uint, f func(T, uint)) {\n	for _, x := range l {\n		f(x, indentLevel)\n	}\n}\n\n// printEvent processes')]),
('ok',ALLP,[(P,'	// Iterate in sorted key order so output is deterministic.\n	keys := make([]string, 0, len(d.values))\n	for k := range d.values {\n		keys = append(keys, k)\n	}\n	slices.Sort(keys)\n\n	for _, k := range keys {','	for _, k := range slices.Sorted(maps.Keys(d.values)) {'),(P,'	"io"\n','	"io"\n	"maps"\n')]),
('ok',ALLP,[(P,'	// Iterate in sorted key order so output is deterministic.\n	keys := make([]string, 0, len(d.values))\n	for k := range d.values {\n		keys = append(keys, k)\n	}\n	slices.Sort(keys)\n\n','	keys := sortedKeys(d.values)\n\n'),(P,'		// Iterate in sorted key order so output is deterministic.\n		keys := make([]string, 0, len(value))\n		for k := range value {\n			keys = append(keys, k)\n		}\n		slices.Sort(keys)\n\n','		keys := sortedKeys(value)\n\n'),(P,'// printEvent processes','func sortedKeys(m map[string]any) []string {\n	var keys []string\n	for k := range m {\n		keys = append(keys, k)\n	}\n	slices.SortFunc(keys, strings.Compare)\n	return keys\n}\n\n// printEvent processes')]),
('ok',ALLP,[(P,'	// Iterate in sorted key order so output is deterministic.\n	keys := make([]string, 0, len(d.values))\n	for k := range d.values {\n		keys = append(keys, k)\n	}\n	slices.Sort(keys)\n\n	for _, k := range keys {\n		isKnown := d.isKnown[k]\n		isOverridden := d.overrideKnownValue[k]\n\n		if !isKnown || isOverridden {\n			p.printUnknown(k, d.values[k], indentLevel)\n		}\n	}','	var keys []string\n	for k := range d.values {\n		if d.isKnown[k] && !d.overrideKnownValue[k] {\n			continue\n		}\n		keys = append(keys, k)\n	}\n	sort.Strings(keys)\n\n	for _, k := range keys {\n		p.printUnknown(k, d.values[k], indentLevel)\n	}'),(P,'	"slices"\n','	"slices"\n	"sort"\n')]),
('ok',ALLP,[(P,'	p.printHeading("Public ID", indentLevel)\n\n	indentLevel++\n\n	p.printValue("Type", pid.Type, indentLevel)\n	p.printValue("Identifier", pid.Identifier, indentLevel)\n','	p.printHeading("Public ID", indentLevel)\n\n	for _, f := range []struct{ name, value string }{\n		{"Type", pid.Type},\n		{"Identifier", pid.Identifier},\n	} {\n		p.printValue(f.name, f.value, indentLevel+1)\n	}\n\n	indentLevel++\n')]),
('ok',ALLP,[(P,'	for _, e := range d.Entities {\n		p.printEntity(&e, indentLevel)\n	}','	for i := range d.Entities {\n		p.printEntity(&d.Entities[i], indentLevel)\n	}')]),
('ok',ALLP,[(P,'	if asEventActor {\n		p.printHeading("AsEventActor", indentLevel)\n	} else {\n		p.printHeading("Event", indentLevel)\n	}','	heading := "Event"\n	if asEventActor {\n		heading = "AsEventActor"\n	}\n	p.printHeading(heading, indentLevel)')]),
('ok',ALLP,[(P,'	p.printValue("Handle", n.Handle, indentLevel)\n	p.printValue("Start Address"','	if n.Handle != "" {\n		p.printValue("Handle", n.Handle, indentLevel)\n	}\n	p.printValue("Start Address"')]),
('ok',ALLP,[(P,'	if p.Writer == nil {\n		p.Writer = os.Stdout\n	}\n\n	if p.IndentSize == 0 {\n		p.IndentSize = 2\n	}\n','	p.setDefaults()\n'),(P,'''	if p.IndentChar == '\\000' {
		p.IndentChar = ' '
	}
''',''),(P,'// printObject dispatches','''func (p *Printer) setDefaults() {
	if p.IndentChar == 0 {
		p.IndentChar = ' '
	}
	if p.IndentSize == 0 {
		p.IndentSize = 2
	}
	if p.Writer == nil {
		p.Writer = os.Stdout
	}
}

// printObject dispatches''')]),
('ok',ALLP,[(P,'	return strings.Repeat(string(p.IndentChar), int(indentLevel*p.IndentSize))','	var b strings.Builder\n	for i := uint(0); i < indentLevel*p.IndentSize; i++ {\n		b.WriteRune(p.IndentChar)\n	}\n	return b.String()')]),
('ok',ALLP,[(P,'	return strings.Repeat(string(p.IndentChar), int(indentLevel*p.IndentSize))','	one := strings.Repeat(string(p.IndentChar), int(p.IndentSize))\n	return strings.Repeat(one, int(indentLevel))')]),
# C23
('bad','C23',[(P,'		slices.Sort(keys)\n\n		for _, key2','		for _, key2')]),
('bad','C23',[(P,'	slices.Sort(keys)\n\n	for _, k','	slices.SortFunc(keys, func(a, b string) int { return len(a) - len(b) })\n\n	for _, k')]),
('bad','C23',[(P,'	slices.Sort(keys)\n\n	for _, k','	if len(keys) > 5 {\n		slices.Sort(keys)\n	}\n\n	for _, k'),(P,'	p.printUnknowns(pid','	p.printUnknowns(pid')]),
('bad','C23',[(P,'	p.printObject(obj, 0)','	p.printObject(obj, 0)\n	p.IndentSize *= 2')]),
('bad','C23',[(P,'func (p *Printer) printHeading(heading string, indentLevel uint) {\n','var headings = map[string]bool{}\n\nfunc (p *Printer) printHeading(heading string, indentLevel uint) {\n	if heading == "Notice" && headings[heading] {\n		return\n	}\n	headings[heading] = true\n')]),
('bad','C23',[(P,'	p.printValue("Date", e.Date, indentLevel)\n','	if t, err := time.Parse(time.RFC3339, e.Date); err == nil && t.Before(time.Now()) {\n		p.printValue("Date", e.Date, indentLevel)\n	} else {\n		p.printValue("Date", e.Date, indentLevel)\n	}\n'),(P,'	"strings"\n','	"strings"\n	"time"\n')]),
# C18
('bad','C18',[(P,'		if !isKnown || isOverridden {','		if !isKnown {\n			p.printUnknown(k, d.values[k], indentLevel)\n		} else if len(keys) > 3 || isOverridden {')]),
('bad','C18',[(P,'	p.printUnknowns(v.DecodeData, indentLevel)\n','')]),
('bad','C18',[(P,'	p.printUnknowns(v.DecodeData, indentLevel)\n','	if p.BriefOutput {\n		p.printUnknowns(v.DecodeData, indentLevel)\n	}\n')]),
('bad','C18',[(P,"strconv.FormatFloat(value, 'f', -1, 64)","strconv.FormatInt(int64(value), 10)")]),
('bad','C18',[(P,"strconv.FormatFloat(value, 'f', -1, 64)","strconv.FormatFloat(value, 'f', 2, 64)")]),
('bad','C18',[(P,'		for _, value2 := range value {\n			p.printUnknown(key, value2, indentLevel)\n		}','		if len(value) > 0 {\n			p.printUnknown(key, value[0], indentLevel)\n		}')]),
('bad','C18',[(P,'			p.printUnknown(key2, value[key2], indentLevel)','			p.printUnknown(key, value[key2], indentLevel)')]),
('bad','C18',[(P,'	slices.Sort(keys)\n\n	for _, k','	slices.Sort(keys)\n	slices.Reverse(keys)\n\n	for _, k')]),
('bad','C18',[(P,'	case bool:\n		p.printValue(key, strconv.FormatBool(value), indentLevel)','	case bool:\n		if value {\n			p.printValue(key, "true", indentLevel)\n		}')]),
('ok',ALLP,[(P,'	case bool:\n		p.printValue(key, strconv.FormatBool(value), indentLevel)','	case bool:\n		if value {\n			p.printValue(key, "true", indentLevel)\n		} else {\n			p.printValue(key, "false", indentLevel)\n		}')]),
# C24
('bad','C24',[(P,'	if !p.BriefOutput && !p.OmitRemarks {\n		for _, r := range n.Remarks {','	if !p.BriefOutput && !p.OmitNotices {\n		for _, r := range n.Remarks {')]),
('bad','C24',[(P,'	if !p.BriefOutput && !p.OmitNotices {\n		for _, n := range h.Notices {','	if !p.BriefOutput {\n		for _, n := range h.Notices {')]),
('bad','C24',[(P,'	if !p.BriefOutput && !p.OmitNotices {\n		for _, no := range n.Notices {','	if !p.OmitNotices {\n		for _, no := range n.Notices {')]),
('bad','C24',[(P,'	if !p.BriefOutput {\n		p.printValue("Port43", n.Port43, indentLevel)\n	}\n\n	if !p.BriefOutput {\n		for _, c','	p.printValue("Port43", n.Port43, indentLevel)\n\n	if !p.BriefOutput {\n		for _, c')]),
('bad','C24',[(P,'	if p.BriefLinks {\n		p.printValue("Link", l.Href, indent)\n		return\n	}','	if p.BriefLinks {\n		p.printValue("Link", l.Value, indent)\n		return\n	}')]),
('bad','C24',[(P,'	if p.BriefLinks {','	if p.BriefLinks && indent == 1 {')]),
('bad','C24',[(P,'	if p.BriefLinks {','	if p.BriefLinks || p.BriefOutput {')]),
('bad','C24',[(P,'	for _, pid := range e.PublicIDs {\n		p.printPublicID(pid, indentLevel)\n	}','	if !p.BriefOutput {\n		for _, pid := range e.PublicIDs {\n			p.printPublicID(pid, indentLevel)\n		}\n	}')]),
('bad','C24',[(P,'	if p.BriefOutput {\n		return\n	}\n\n	if asEventActor {','	if asEventActor {'),(P,'	if !p.BriefOutput {\n		for _, e := range k.Events {\n			p.printEvent(e, indentLevel, false)\n		}\n	}','	for _, e := range k.Events {\n		p.printEvent(e, indentLevel, false)\n	}'),(P,'			p.printVariant(v, indentLevel)\n		}\n\n		if d.SecureDNS != nil {\n			p.printSecureDNS(d.SecureDNS, indentLevel)\n		}\n	}','			p.printVariant(v, indentLevel)\n		}\n	}\n	if d.SecureDNS != nil {\n		p.printSecureDNS(d.SecureDNS, indentLevel)\n	}')]),
('ok',ALLP,[(P,'	if !p.BriefOutput {\n		for _, e := range k.Events {\n			p.printEvent(e, indentLevel, false)\n		}\n	}','	for _, e := range k.Events {\n		p.printEvent(e, indentLevel, false)\n	}')]),
# C30
('bad','C30',[(R,'		case "last changed":\n			w.add("Updated Date", e.Date)','		case "last changed", "last update of RDAP database":\n			w.add("Updated Date", e.Date)')]),
('bad','C30',[(R,'			w.add("Expiration Date", e.Date)','			w.add("Expiration Date", e.Actor)')]),
('bad','C30',[(R,'findFirstEntity("technical", d.Entities)','findFirstEntity("administrative", d.Entities)')]),
('bad','C30',[(R,'	w.add(t+" Post Code", v.PostalCode())','	w.add(t+" Post Code", v.Region())')]),
('bad','C30',[(R,'			if id.Type == "IANA Registrar ID" {','			if id.Type != "" {')]),
('bad','C30',[(R,'		if slices.Contains(e.Roles, role) {','		if len(e.Roles) > 0 && slices.Index(e.Roles, role) == 0 {')]),
('bad','C30',[(R,'	if value == "" {\n		return\n	}\n\n	if _','	if _')]),
('bad','C30',[(R,'	for _, n := range d.Nameservers {\n		w.add("Name Server", n.LDHName)','	for _, n := range d.Nameservers {\n		w.add("Name Server", n.UnicodeName)')]),
('bad','C30',[(R,'		w.Data[key] = append(w.Data[key], value)','		w.Data[key] = append([]string{value}, w.Data[key]...)')]),
('bad','C30',[(R,'	if _, exists := w.Data[key]; !exists {','	if _, exists := w.Data[key]; exists && w.Data[key][0] == value {\n		return\n	} else if !exists {')]),
('bad','C30',[(R,'		if slices.Contains(e.Roles, role) {\n			return &e\n		}\n	}\n\n	return nil','		if slices.Contains(e.Roles, role) {\n			found = &e\n		}\n	}\n\n	return found'),(R,'func findFirstEntity(role string, entities []Entity) *Entity {','func findFirstEntity(role string, entities []Entity) *Entity {\n	var found *Entity')]),
('bad','C30',[(R,'	w.add("WHOIS Server", d.Port43)\n','	if len(d.Events) > 0 {\n		w.add("WHOIS Server", d.Port43)\n	}\n')]),
('bad','C30',[(R,'	addEntityFields(w, "Abuse"','	addEntityFields(w, "Tech"')]),
('ok','C30,C23,C02',[(R,'	for _, e := range entities {\n		if slices.Contains(e.Roles, role) {\n			return &e\n		}\n	}','	for i := range entities {\n		for _, r := range entities[i].Roles {\n			if r == role {\n				return &entities[i]\n			}\n		}\n	}'),(R,'	"slices"\n','')]),
('ok','C30,C23,C02',[(R,'	if _, exists := w.Data[key]; !exists {\n		w.KeyDisplayOrder = append(w.KeyDisplayOrder, key)\n		w.Data[key] = []string{value}\n	} else {\n		w.Data[key] = append(w.Data[key], value)\n	}','	if len(w.Data[key]) == 0 {\n		w.KeyDisplayOrder = append(w.KeyDisplayOrder, key)\n	}\n	w.Data[key] = append(w.Data[key], value)')]),
('ok','C30,C23,C02',[(R,'		switch e.Action {\n		case "last changed":\n			w.add("Updated Date", e.Date)\n		case "registration":\n			w.add("Creation Date", e.Date)\n		case "expiration":\n			w.add("Expiration Date", e.Date)\n		}','		if label, ok := eventLabels[e.Action]; ok {\n			w.add(label, e.Date)\n		}'),(R,'func addEntityFields','var eventLabels = map[string]string{\n	"last changed": "Updated Date",\n	"registration": "Creation Date",\n	"expiration":   "Expiration Date",\n}\n\nfunc addEntityFields')]),
('ok','C30,C23,C02',[(R,'	addEntityFields(w, "Registrant", findFirstEntity("registrant", d.Entities))\n	addEntityFields(w, "Admin", findFirstEntity("administrative", d.Entities))\n	addEntityFields(w, "Tech", findFirstEntity("technical", d.Entities))\n	addEntityFields(w, "Abuse", findFirstEntity("abuse", d.Entities))','	for _, c := range []struct{ label, role string }{\n		{"Registrant", "registrant"},\n		{"Admin", "administrative"},\n		{"Tech", "technical"},\n		{"Abuse", "abuse"},\n	} {\n		addEntityFields(w, c.label, findFirstEntity(c.role, d.Entities))\n	}')]),
('ok','C30,C23,C02',[(R,'	registrar := findFirstEntity("registrar", d.Entities)\n	if registrar != nil {\n		vcard := registrar.VCard\n		if vcard != nil {\n			// "Registrar"\n			w.add("Registrar", vcard.Name())\n		}\n','	if registrar := findFirstEntity("registrar", d.Entities); registrar != nil {\n		w.addRegistrar(registrar)\n'),(R,'func addEntityFields','func (w *WhoisStyleResponse) addRegistrar(e *Entity) {\n	if e.VCard == nil {\n		return\n	}\n	w.add("Registrar", e.VCard.Name())\n}\n\nfunc addEntityFields')]),
]
