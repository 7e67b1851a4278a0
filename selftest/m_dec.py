D='decoder.go'
DD='decode_data.go'
M=[
# --- C15
('bad','C15',[(D,'	} else if _, exists := src["errorCode"]; exists {\n		d.target = &Error{}\n	} else if o, exists := src["objectClassName"]; exists {','	} else if o, exists := src["objectClassName"]; exists {'),(D,'	} else if _, exists := src["domainSearchResults"]; exists {','	} else if _, exists := src["errorCode"]; exists {\n		d.target = &Error{}\n	} else if _, exists := src["domainSearchResults"]; exists {')]),
('bad','C15',[(D,'_, exists := src["errorCode"]; exists','e, exists := src["errorCode"]; exists && e != nil')]),
('bad','C15',[(D,'			case "ip network":','			case "ipnetwork":')]),
('bad','C15',[(D,'			default:\n				return nil, DecoderError{text: "objectClassName is not recognised"}\n','')]),
('bad','C15',[(D,'			case "autnum":\n				d.target = &Autnum{}','			case "autnum":\n				d.target = &Entity{}')]),
('bad','C15',[(D,'			case "autnum":','			case "autnum", "Autnum":')]),
('bad','C15',[(D,'		} else {\n			return nil, DecoderError{text: "objectClassName is not a string"}\n		}','		}')]),
('bad','C15',[(D,'d.target = &EntitySearchResults{}','d.target = &NameserverSearchResults{}')]),
('bad','C15',[(D,'src["entitySearchResults"]; exists','src["entities"]; exists')]),
('bad','C15',[(D,'d.target = &Help{}','d.target = &Error{}')]),
('bad','C15',[(D,'	err = json.Unmarshal(d.data, &s)\n','	err = json.NewDecoder(bytes.NewReader(d.data)).Decode(&s)\n'),(D,'import (\n','import (\n	"bytes"\n')]),
('bad','C15',[(D,'	if err != nil {\n		return nil, err\n	}\n\n	// Decode the RDAP','	if err != nil && s == nil {\n		return nil, err\n	}\n\n	// Decode the RDAP')]),
('bad','C15',[(D,'		if objectClassName, ok := o.(string); ok {','		if objectClassName, ok := o.(string); ok {\n			objectClassName = strings.ToLower(objectClassName)')]),
('ok','C15,C16,C17,C18',[(D,'''			switch objectClassName {
			case "autnum":
				d.target = &Autnum{}
			case "domain":
				d.target = &Domain{}
			case "entity":
				d.target = &Entity{}
			case "ip network":
				d.target = &IPNetwork{}
			case "nameserver":
				d.target = &Nameserver{}
			default:
				return nil, DecoderError{text: "objectClassName is not recognised"}
			}
''','''			target, ok := newObject(objectClassName)
			if !ok {
				return nil, DecoderError{text: "objectClassName is not recognised"}
			}
			d.target = target
'''),(D,'','''
func newObject(name string) (any, bool) {
	switch name {
	case "autnum":
		return &Autnum{}, true
	case "domain":
		return &Domain{}, true
	case "entity":
		return &Entity{}, true
	case "ip network":
		return &IPNetwork{}, true
	case "nameserver":
		return &Nameserver{}, true
	}
	return nil, false
}
''')]),
('ok','C15,C16,C17,C18',[(D,'''			switch objectClassName {
			case "autnum":
				d.target = &Autnum{}
			case "domain":
				d.target = &Domain{}
			case "entity":
				d.target = &Entity{}
			case "ip network":
				d.target = &IPNetwork{}
			case "nameserver":
				d.target = &Nameserver{}
			default:
				return nil, DecoderError{text: "objectClassName is not recognised"}
			}
''','''			mk, ok := objectTypes[objectClassName]
			if !ok {
				return nil, DecoderError{text: "objectClassName is not recognised"}
			}
			d.target = mk()
'''),(D,'','''
var objectTypes = map[string]func() any{
	"autnum":     func() any { return &Autnum{} },
	"domain":     func() any { return &Domain{} },
	"entity":     func() any { return &Entity{} },
	"ip network": func() any { return &IPNetwork{} },
	"nameserver": func() any { return &Nameserver{} },
}
''')]),
('ok','C15,C16,C17,C18',[(D,'''	} else if _, exists := src["domainSearchResults"]; exists {
		d.target = &DomainSearchResults{}
	} else if _, exists := src["entitySearchResults"]; exists {
		d.target = &EntitySearchResults{}
	} else if _, exists := src["nameserverSearchResults"]; exists {
		d.target = &NameserverSearchResults{}
	}
''','''	} else {
		switch {
		case has(src, "domainSearchResults"):
			d.target = &DomainSearchResults{}
		case has(src, "entitySearchResults"):
			d.target = &EntitySearchResults{}
		case has(src, "nameserverSearchResults"):
			d.target = &NameserverSearchResults{}
		default:
			d.target = &Help{}
		}
	}
'''),(D,'','\nfunc has(m map[string]any, k string) bool {\n	_, ok := m[k]\n	return ok\n}\n')]),
# --- C16
('bad','C16',[('domain.go','Events    []Event','Events    []Event `rdap:"event"`')]),
('bad','C16',[('secure_dns.go' if False else 'domain.go','`rdap:"dsData"`','`rdap:"dsdata"`')]),
('bad','C16',[(D,'			if structField.Anonymous {\n				walk(structField.Type, index)\n				continue\n			}\n\n			name','			if structField.Anonymous {\n				continue\n			}\n\n			name')]),
('bad','C16,C17',[(D,'case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:\n		success','case reflect.Uint8, reflect.Uint32, reflect.Uint64:\n		success')]),
('bad','C16',[(D,'index := append(append([]int{}, prefix...), i)','index := []int{i}')]),
('bad','C16',[(D,'strings.ToLower(sf.Name[0:1]) + sf.Name[1:]','strings.ToLower(sf.Name)')]),
('bad','C16',[(D,'sf.Tag.Get("rdap")\n\n	// Otherwise','sf.Tag.Get("json")\n\n	// Otherwise')]),
('bad','C16',[(D,'index, ok := plan.fieldIndex[name]; ok {','index, ok := plan.fieldIndex[strings.ToLower(name)]; ok {')]),
('bad','C16',[(D,'index, ok := plan.fieldIndex[name]; ok {','index, ok := plan.fieldIndex[name]; ok && value != nil {')]),
('bad','C16',[(D,'	for name, value := range srcMap {\n		if index, ok','	for name, value := range srcMap {\n		if len(name) > 20 {\n			break\n		}\n		if index, ok')]),
('bad','C16,C17',[(D,'				reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,\n				reflect.Float64','				reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,\n				reflect.Float32')] if False else [(D,'				reflect.Float64, reflect.Bool, reflect.Struct, reflect.Pointer,\n				reflect.String','				reflect.Float64, reflect.Bool, reflect.Struct,\n				reflect.String')]),
('ok','C15,C16,C17,C18',[(D,'''		for i := range t.NumField() {
			structField := t.Field(i)''','''		for i, n := 0, t.NumField(); i < n; i++ {
			structField := t.Field(i)''')]),
('ok','C15,C16,C17,C18',[(D,'''	var walk func(t reflect.Type, prefix []int)
	walk = func(t reflect.Type, prefix []int) {
''','''	plan.walk(t, nil)

	actual, _ := structPlanCache.LoadOrStore(t, plan)
	return actual.(*structPlan)
}

func (plan *structPlan) walk(t reflect.Type, prefix []int) {
'''),(D,'				walk(structField.Type, index)','				plan.walk(structField.Type, index)'),(D,'''		}
	}
	walk(t, nil)

	actual, _ := structPlanCache.LoadOrStore(t, plan)
	return actual.(*structPlan)
}
''','''		}
}
''')]),
('ok','C15,C16,C17,C18',[(D,'''	for name, value := range srcMap {
		if index, ok := plan.fieldIndex[name]; ok {
			if _, err := d.decode(name, value, dst.FieldByIndex(index), myDecodeData); err != nil {
				return false, err
			}
		}
	}
''','''	for name, index := range plan.fieldIndex {
		value, ok := srcMap[name]
		if !ok {
			continue
		}
		if _, err := d.decode(name, value, dst.FieldByIndex(index), myDecodeData); err != nil {
			return false, err
		}
	}
''')]),
# --- C17
('bad','C17',[(D,'if src < 0 || src >= 1<<64 {','if src < 0 || src > 1<<64 {')]),
('bad','C17',[(D,'if src < 0 || src >= 1<<64 {','if src >= 1<<64 {')]),
('bad','C17',[(D,'if src < -(1<<63) || src >= 1<<63 {','if src < -(1<<63) || src > math.MaxInt64 {')]),
('bad','C17',[(D,'			maxVal = math.MaxUint8\n','			maxVal = math.MaxUint16\n')]),
('bad','C17',[(D,'			maxVal = math.MaxUint16\n','			maxVal = math.MaxInt16\n')]),
('bad','C17',[(D,'		if result > maxVal {','		if result >= maxVal {')]),
('bad','C17',[(D,'result, convError = strconv.ParseUint(src, 10, 64)','result, convError = strconv.ParseUint(src, 0, 64)')]),
('bad','C17',[(D,'result, convError = strconv.ParseInt(src, 10, 64)','result, convError = strconv.ParseInt(src, 10, 32)')]),
('ok','C17',[(D,'			d.addDecodeNote(decodeData, keyName, "error: number too large")\n','')]),
('bad','C17',[(D,'			result = uint64(src)\n			d.addDecodeNote(decodeData, keyName, "float64 to uint conversion")','			result = uint64(src)')] if False else [(D,'		d.addDecodeNote(decodeData, keyName, "null to empty string conversion")\n','')]),
('bad','C17',[(D,'		d.addDecodeNote(decodeData, keyName, "invalid JSON type, expecting string")\n		success = false','		d.addDecodeNote(decodeData, keyName, "invalid JSON type, expecting string")')]),
('bad','C17',[(D,'		if success {\n			result = reflect.Append','		{\n			result = reflect.Append'),(D,'success, err := d.decode(keyName, v, reflect.Indirect(vdst), decodeData)','_, err := d.decode(keyName, v, reflect.Indirect(vdst), decodeData)')]),
('bad','C17',[(D,'	// Foreach value in the input slice...\n	for _, v := range srcSlice {\n		// Construct a result value for it.\n		vdst := reflect.New(dst.Type().Elem())\n','	vdst := reflect.New(dst.Type().Elem())\n	// Foreach value in the input slice...\n	for _, v := range srcSlice {\n')]),
('bad','C17',[(D,'		if success {\n			result = reflect.Append(result, reflect.Indirect(vdst))\n		}','		if !success {\n			break\n		}\n		result = reflect.Append(result, reflect.Indirect(vdst))')]),
('bad','C17',[(D,'if success && dst.IsNil() {','if dst.IsNil() {')]),
('bad','C17',[(D,'	if !ok {\n		d.addDecodeNote(decodeData, keyName, "invalid JSON type, expecting array")\n		return false, nil','	if !ok {\n		d.addDecodeNote(decodeData, keyName, "invalid JSON type, expecting array")\n		return false, DecoderError{text: "bad array"}')]),
('bad','C17',[(D,'			d.addDecodeNote(decodeData, keyName, vcardError.Error())','			err = vcardError')]),
('bad','C17',[(D,'		success, err = d.decode(keyName, src, reflect.Indirect(value), decodeData)','		success, err = d.decode(keyName, src, reflect.Indirect(value), nil)')]),
('bad','C17',[(D,'	decodeData.notes[key] = append(decodeData.notes[key], msg)','	if len(decodeData.notes) < 10 {\n		decodeData.notes[key] = append(decodeData.notes[key], msg)\n	}')]),
('bad','C17',[(D,'	decodeData.notes[key] = append(decodeData.notes[key], msg)','	decodeData.notes[msg] = append(decodeData.notes[msg], key)')]),
('bad','C17',[(D,"strconv.FormatFloat(src, 'f', -1, 64)","strconv.FormatFloat(src, 'f', -1, 32)")]),
('bad','C17',[(D,"strconv.FormatFloat(src, 'f', -1, 64)","strconv.FormatInt(int64(src), 10)")]),
('bad','C17',[(D,'		result = strconv.FormatBool(src)\n','		result = strconv.FormatBool(!src)\n')]),
('bad','C17',[(D,'		if success {\n			result.SetMapIndex(','		if err == nil {\n			result.SetMapIndex('),(D,'success, err := d.decode(keyName+":"+k','_, err := d.decode(keyName+":"+k')]),
('ok','C15,C16,C17,C18',[(D,'''		var maxVal uint64

		// Check the result number is within range of the target type.
		switch dst.Kind() {
		case reflect.Uint8:
			maxVal = math.MaxUint8
		case reflect.Uint16:
			maxVal = math.MaxUint16
		case reflect.Uint32:
			maxVal = math.MaxUint32
		case reflect.Uint64:
			maxVal = math.MaxUint64
		default:
			panic("Unexpected int type")
		}

		if result > maxVal {''','''		if dst.OverflowUint(result) {''')]),
('ok','C15,C16,C17,C18',[(D,'''		var maxVal uint64

		// Check the result number is within range of the target type.
		switch dst.Kind() {
		case reflect.Uint8:
			maxVal = math.MaxUint8
		case reflect.Uint16:
			maxVal = math.MaxUint16
		case reflect.Uint32:
			maxVal = math.MaxUint32
		case reflect.Uint64:
			maxVal = math.MaxUint64
		default:
			panic("Unexpected int type")
		}

		if result > maxVal {''','''		if result > maxUint(dst.Kind()) {'''),(D,'','''
func maxUint(k reflect.Kind) uint64 {
	switch k {
	case reflect.Uint8:
		return math.MaxUint8
	case reflect.Uint16:
		return math.MaxUint16
	case reflect.Uint32:
		return math.MaxUint32
	case reflect.Uint64:
		return math.MaxUint64
	}
	panic("Unexpected int type")
}
''')]),
('ok','C15,C16,C17,C18',[(D,'''	if decodeData.notes == nil {
		decodeData.notes = map[string][]string{}
	}

	decodeData.notes[key] = append(decodeData.notes[key], msg)
}''','''	decodeData.note(key, msg)
}

func (r *DecodeData) note(key, msg string) {
	if r.notes == nil {
		r.notes = make(map[string][]string)
	}
	old := r.notes[key]
	r.notes[key] = append(old, msg)
}''')]),
('ok','C15,C16,C17,C18',[(D,'''	for _, v := range srcSlice {
		// Construct a result value for it.
		vdst := reflect.New(dst.Type().Elem())

		// Decode into the result value.
		success, err := d.decode(keyName, v, reflect.Indirect(vdst), decodeData)
		if err != nil {
			return false, err
		}

		// Only if the decode was successful, append to result slice.
		if success {
			result = reflect.Append(result, reflect.Indirect(vdst))
		}
	}
''','''	for i := 0; i < len(srcSlice); i++ {
		elem := reflect.New(dst.Type().Elem()).Elem()

		success, err := d.decode(keyName, srcSlice[i], elem, decodeData)
		if err != nil {
			return false, err
		}

		if !success {
			continue
		}
		result = reflect.Append(result, elem)
	}
''')]),
('ok','C15,C16,C17,C18',[(D,'''	if dst.Type().Elem().Name() == "VCard" {
		vcard, vcardError := newVCardImpl(src, VCardOptions{})

		if vcardError == nil {
			dst.Set(reflect.ValueOf(vcard))
			success = true
		} else {
			d.addDecodeNote(decodeData, keyName, vcardError.Error())
		}
	} else {''','''	if dst.Type().Elem().Name() == "VCard" {
		success = d.decodeVCard(keyName, src, dst, decodeData)
	} else {'''),(D,'','''
func (d *Decoder) decodeVCard(keyName string, src any, dst reflect.Value, decodeData *DecodeData) bool {
	vcard, err := newVCardImpl(src, VCardOptions{})
	if err != nil {
		d.addDecodeNote(decodeData, keyName, err.Error())
		return false
	}
	dst.Set(reflect.ValueOf(vcard))
	return true
}
''')]),
('ok','C15,C16,C17,C18',[(D,'''	switch src := src.(type) {
	case bool:
		result = strconv.FormatBool(src)
		d.addDecodeNote(decodeData, keyName, "bool to string conversion")
	case float64:
		result = strconv.FormatFloat(src, 'f', -1, 64)
		d.addDecodeNote(decodeData, keyName, "float64 to string conversion")
	case string:
		result = src
''','''	if s, ok := src.(string); ok {
		dst.SetString(s)
		return true
	}

	switch src := src.(type) {
	case bool:
		result = strconv.FormatBool(src)
		d.addDecodeNote(decodeData, keyName, "bool to string conversion")
	case float64:
		result = strconv.FormatFloat(src, 'f', -1, 64)
		d.addDecodeNote(decodeData, keyName, "float64 to string conversion")
''')]),
# --- C18
('bad','C18',[(D,'			plan.knownFields[name] = true\n','			if !structField.Anonymous && len(prefix) == 0 {\n				plan.knownFields[name] = true\n			}\n')]),
('bad','C18',[(D,'			plan.knownFields[name] = true\n','			plan.knownFields[structField.Name] = true\n')]),
('bad','C18',[(D,'			values:  srcMap,\n','			values:  map[string]any{},\n')]),
('bad','C18',[(DD,'if _, isKnown := r.isKnown[f]; !isKnown {','if isKnown := r.isKnown[f]; !isKnown && len(f) > 0 {')]),
('bad','C18',[(DD,'if _, isKnown := r.isKnown[f]; !isKnown {','if _, isKnown := r.isKnown[f]; isKnown {')]),
('bad','C18',[(DD,'	for f := range r.values {\n		fields = append(fields, f)','	for f := range r.isKnown {\n		fields = append(fields, f)')]),
('bad','C18',[(DD,'	for f := range r.values {\n		if _','	for f, v := range r.values {\n		if v == nil {\n			continue\n		}\n		if _')]),
('bad','C18',[(DD,'	if v, ok := r.values[name]; ok {','	if v, ok := r.values[name]; ok && !r.isKnown[name] {')]),
('bad','C18',[(D,'			if _, err := d.decode(name, value, dst.FieldByIndex(index), myDecodeData); err != nil {\n				return false, err\n			}','			if _, err := d.decode(name, value, dst.FieldByIndex(index), myDecodeData); err != nil {\n				return false, err\n			}\n			delete(srcMap, name)')]),
('bad','C18',[(D,'		dst.FieldByIndex(plan.decodeDataIndex).Set(reflect.ValueOf(myDecodeData))\n','		if len(srcMap) > 0 {\n			dst.FieldByIndex(plan.decodeDataIndex).Set(reflect.ValueOf(myDecodeData))\n		}\n')]),
('bad','C18',[(D,'	srcSlice, ok := src.([]any)\n','	srcSlice, ok := src.([]any)\n	for i := range srcSlice {\n		if s, k := srcSlice[i].(string); k {\n			srcSlice[i] = strings.TrimSpace(s)\n		}\n	}\n')]),
('bad','C18',[(DD,'notes, ok := r.notes[name]; ok','notes, ok := r.notes[name]; ok && r.isKnown[name]')]),
('bad','C18',[(D,'	decodeData.notes[key] = append(decodeData.notes[key], msg)','	decodeData.notes[key] = append(decodeData.notes[key], msg)\n	delete(decodeData.values, key)')]),
('ok','C15,C16,C17,C18',[(DD,'''	for f := range r.values {
		if _, isKnown := r.isKnown[f]; !isKnown {
			fields = append(fields, f)
		}
	}
''','''	for f := range r.values {
		if r.isKnown[f] {
			continue
		}
		fields = append(fields, f)
	}
''')]),
('ok','C15,C16,C17,C18',[(DD,'''	if v, ok := r.values[name]; ok {
		return v
	}

	return nil
''','''	return r.values[name]
''')]),
('ok','C15,C16,C17,C18',[(D,'''		myDecodeData = &DecodeData{
			isKnown: plan.knownFields,
			values:  srcMap,
		}
		dst.FieldByIndex(plan.decodeDataIndex).Set(reflect.ValueOf(myDecodeData))
''','''		myDecodeData = newDecodeData(plan, srcMap)
		field := dst.FieldByIndex(plan.decodeDataIndex)
		field.Set(reflect.ValueOf(myDecodeData))
'''),(D,'','''
func newDecodeData(plan *structPlan, values map[string]any) *DecodeData {
	dd := new(DecodeData)
	dd.isKnown = plan.knownFields
	dd.values = values
	return dd
}
''')]),
('ok','C15,C16,C17,C18',[(DD,'''	var fields []string

	for f := range r.values {
		fields''','''	fields := make([]string, 0, len(r.values))

	for f := range r.values {
		fields'''),(DD,'''	fields = append(fields, f)
	}

	return fields
}

// Unk''','''	fields = append(fields, f)
	}
	sort.Strings(fields)

	return fields
}

// Unk'''),(DD,'import "strings"','import (\n	"sort"\n	"strings"\n)')]),
('ok','C15,C16,C17,C18',[(D,'			values:  srcMap,\n','			values:  values,\n'),(D,'	var myDecodeData *DecodeData\n','	values := make(map[string]any, len(srcMap))\n	for k, v := range srcMap {\n		values[k] = v\n	}\n	var myDecodeData *DecodeData\n')]),
('ok','C15,C16,C17,C18',[(D,'			values:  srcMap,\n','			values:  maps.Clone(srcMap),\n'),(D,'import (\n','import (\n	"maps"\n')]),
]
