V='vcard.go'
def adr(a,b): return [(V,a,b)]
M=[
('bad','C20',[(V,'if !ok || len(top) != 2 {','if !ok || len(top) < 2 {')]),
('bad','C20',[(V,'!ok || s != "vcard" {','!ok || !strings.EqualFold(s, "vcard") {')]),
('bad','C20',[(V,'!ok || s != "vcard" {','ok && s != "vcard" {')]),
('bad','C20',[(V,'	properties, ok = top[1].([]any)\n	if !ok {','	properties, ok = top[1].([]any)\n	if !ok && top[1] != nil {'),(V,'range top[1].([]any)','range properties')]),
('bad','C20',[(V,'				continue\n			} else {','				break\n			} else {')]),
('bad','C20',[(V,'			if options.IgnoreInvalidProperties {\n				continue\n			} else {\n				return nil, err\n			}','			if options.IgnoreInvalidProperties || property == nil {\n				continue\n			} else {\n				return nil, err\n			}')]),
('bad','C20',[(V,'len(a) < 4 {','len(a) < 3 {'),(V,'	if len(a) == 4 {','	if len(a) == 3 {\n		value = nil\n	} else if len(a) == 4 {')]),
('bad','C20',[(V,'	propertyType, ok := a[2].(string)\n	if !ok {','	propertyType, ok := a[2].(string)\n	if !ok && a[2] != nil {')]),
('bad','C20',[(V,'		value, err = readValue(a[3:], 0)','		value, err = readValue(a[3], 0)')]),
('bad','C20',[(V,'	default:\n		return nil, vCardError("Unknown JSON datatype in jCard value")','	default:\n		return "", nil')]),
('bad','C20',[(V,'			v3, err := readValue(v2, depth+1)\n			if err != nil {\n				return nil, err\n			}\n','			v3, err := readValue(v2, depth+1)\n			if err != nil {\n				continue\n			}\n')]),
('bad','C20',[(V,"strconv.FormatFloat(v, 'f', -1, 64)","strconv.FormatFloat(v, 'g', -1, 64)")]),
('bad','C20',[(V,"strconv.FormatFloat(v, 'f', -1, 64)","strconv.FormatFloat(v, 'f', 0, 64)")]),
('bad','C20',[(V,"strconv.FormatFloat(v, 'f', -1, 64)","strconv.Itoa(int(v))")]),
('bad','C20',[(V,"strconv.FormatFloat(v, 'f', -1, 64)","strconv.FormatFloat(v, 'f', -1, 32)")]),
('bad','C20',[(V,'	case nil:\n		*strings = append(*strings, "")\n','	case nil:\n')]),
('bad','C20',[(V,'			if slices.Contains(types, "voice") {\n				isVoice = true\n			}\n		} else {\n			isVoice = true\n		}','			if slices.Contains(types, "voice") {\n				isVoice = true\n			}\n		}')]),
('bad','C20',[(V,'slices.Contains(types, "voice")','!slices.Contains(types, "voice")')]),
('bad','C20',[(V,'slices.Contains(types, "fax")','types[0] == "fax"')]),
('bad','C20',[(V,'slices.Contains(types, "fax")','len(types) > 0 && types[len(types)-1] == "fax"')]),
('bad','C20',[(V,'return v.getFirstAddressField(4)','return v.getFirstAddressField(5)')]),
('bad','C20',[(V,'return v.getFirstPropertySingleString("email")','return v.getFirstPropertySingleString("mail")')]),
('bad','C20',[(V,'	return properties[0]\n','	return properties[len(properties)-1]\n')]),
('bad','C20',[(V,'	components, ok := adr.Value.([]any)\n	if !ok {\n		components = []any{adr.Value}\n	}\n\n	if index >= len(components) {\n		return ""\n	}\n\n	values := make([]string, 0, 1)\n	adr.appendValueStrings(components[index], &values)\n\n	return strings.Join(values, " ")','	values := adr.Values()\n\n	if index >= len(values) {\n		return ""\n	}\n\n	return values[index]')]),
('bad','C20',[(V,'	if index >= len(components) {','	if index > len(components) {')]),
('bad','C20',[(V,'			params[k] = append(params[k], s)\n		} else if','			params[k] = strings.Split(s, ",")\n		} else if')]),
('bad','C20',[(V,'				if s, ok := value.(string); ok {\n					params[k] = append(params[k], s)','				if s, ok := value.(string); ok {\n					params[k] = []string{s}')]),
('bad','C20',[(V,'		v.Properties = append(v.Properties, property)\n','		v.Properties = append(v.Properties, property)\n		if len(v.Properties) == 100 {\n			break\n		}\n')]),
('bad','C20',[(V,'return strings.Join(property.Values(), " ")','return property.Values()[0]')]),
('bad','C20',[(V,'return strings.Join(property.Values(), " ")','return strings.TrimSpace(strings.Join(property.Values(), " "))')]),
('bad','C20',[(V,'		for _, v2 := range v {\n			p.append','		for _, v2 := range v[:min(len(v), 7)] {\n			p.append')]),
('bad','C20',[(V,'		if p.Name == name {','		if strings.HasPrefix(p.Name, name) {')]),
# refactorings
('ok','C20,C02',[(V,'	properties := v.Get(name)\n\n	if len(properties) == 0 {\n		return nil\n	}\n\n	return properties[0]\n','	for _, p := range v.Properties {\n		if p.Name == name {\n			return p\n		}\n	}\n\n	return nil\n')]),
('ok','C20,C02',[(V,'	properties := v.Get(name)\n\n	if len(properties) == 0 {\n		return nil\n	}\n\n	return properties[0]\n','	for i := 0; i < len(v.Properties); i++ {\n		if v.Properties[i].Name == name {\n			return v.Properties[i]\n		}\n	}\n\n	return nil\n')]),
('ok','C20,C02',[(V,'	if !ok || len(top) != 2 {\n		return nil, vCardError("structure is not a jCard (expected len=2 top level array)")\n	} else if s, ok := top[0].(string); !ok || s != "vcard" {\n		return nil, vCardError("structure is not a jCard (missing \'vcard\')")\n	}','	if !ok {\n		return nil, vCardError("structure is not a jCard")\n	}\n	if len(top) != 2 {\n		return nil, vCardError("structure is not a jCard (expected len=2 top level array)")\n	}\n	if top[0] != "vcard" {\n		return nil, vCardError("structure is not a jCard (missing \'vcard\')")\n	}')]),
('ok','C20,C02',[(V,'		isVoice := false\n\n		if types, ok := p.Parameters["type"]; ok {\n			if slices.Contains(types, "voice") {\n				isVoice = true\n			}\n		} else {\n			isVoice = true\n		}\n\n		if isVoice {','		types, typed := p.Parameters["type"]\n		if !typed || slices.Contains(types, "voice") {')]),
('ok','C20,C02',[(V,'	var top []any\n	err := json','	var top any\n	err := json')]),
('ok','C20,C02',[(V,'	strs := make([]string, 0, 1)\n\n	p.appendValueStrings(p.Value, &strs)\n\n	return strs','	return flatten(nil, p.Value)'),(V,'	adr.appendValueStrings(components[index], &values)\n','	values = flatten(values, components[index])\n'),(V,'''func (p *VCardProperty) appendValueStrings(v any, strings *[]string) {
	switch v := v.(type) {
	case nil:
		*strings = append(*strings, "")
	case bool:
		*strings = append(*strings, strconv.FormatBool(v))
	case float64:
		*strings = append(*strings, strconv.FormatFloat(v, 'f', -1, 64))
	case string:
		*strings = append(*strings, v)
	case []any:
		for _, v2 := range v {
			p.appendValueStrings(v2, strings)
		}
	default:
		panic("Unknown type")
	}
}''','''func flatten(out []string, v any) []string {
	switch v := v.(type) {
	case nil:
		return append(out, "")
	case bool:
		if v {
			return append(out, "true")
		}
		return append(out, "false")
	case float64:
		return append(out, strconv.FormatFloat(v, 'f', -1, 64))
	case string:
		return append(out, v)
	case []any:
		for i := range v {
			out = flatten(out, v[i])
		}
		return out
	default:
		panic("Unknown type")
	}
}''')]),
('ok','C20,C02',[(V,'	properties := v.Get("tel")\n\n	for _, p := range properties {\n		if types, ok := p.Parameters["type"]; ok {\n			if slices.Contains(types, "fax") {\n				if values := p.Values(); len(values) > 0 {\n					return values[0]\n				}\n			}\n		}\n	}\n\n	return ""','	for _, p := range v.Get("tel") {\n		if !hasType(p, "fax") {\n			continue\n		}\n		if values := p.Values(); len(values) > 0 {\n			return values[0]\n		}\n	}\n\n	return ""'),(V,'','\nfunc hasType(p *VCardProperty, t string) bool {\n	for _, x := range p.Parameters["type"] {\n		if x == t {\n			return true\n		}\n	}\n\n	return false\n}\n')]),
('ok','C20,C02',[(V,'		property, err := decodeVCardProperty(p)\n		if err != nil {\n			if options.IgnoreInvalidProperties {\n				continue\n			} else {\n				return nil, err\n			}\n		}\n\n		v.Properties = append(v.Properties, property)\n','		property, err := decodeVCardProperty(p)\n		switch {\n		case err == nil:\n			v.Properties = append(v.Properties, property)\n		case !options.IgnoreInvalidProperties:\n			return nil, err\n		}\n')]),
('ok','C20,C02',[(V,'	if _, ok := p.(map[string]any); !ok {\n		return nil, vCardError("jCard parameters invalid")\n	}\n\n	for k, v := range p.(map[string]any) {\n		if s, ok := v.(string); ok {\n			params[k] = append(params[k], s)\n		} else if arr, ok := v.([]any); ok {\n			for _, value := range arr {','	m, ok := p.(map[string]any)\n	if !ok {\n		return nil, vCardError("jCard parameters invalid")\n	}\n\n	for k, v := range m {\n		switch arr := v.(type) {\n		case string:\n			params[k] = []string{arr}\n		case []any:\n			for _, value := range arr {')]),
('ok','C20,C02',[(V,'		result := make([]any, 0, len(val))\n\n		for _, v2 := range val {\n			v3, err := readValue(v2, depth+1)\n			if err != nil {\n				return nil, err\n			}\n\n			result = append(result, v3)\n		}','		result := make([]any, len(val))\n\n		for i, v2 := range val {\n			v3, err := readValue(v2, depth+1)\n			if err != nil {\n				return nil, err\n			}\n\n			result[i] = v3\n		}')]),
]
