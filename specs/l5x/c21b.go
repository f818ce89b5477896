package l5x

// C21: the comments of a program file are imported unchanged, under the location they are of.

// vcIsText: what this package tells apart from quotes around text
func vcIsText(s string) bool {
	n := len(s)
	if n == 0 {
		return false
	}
	return s[0] != '\'' && s[n-1] != '\''
}

func vcComment(operand, text string) *CommentWideType {
	return &CommentWideType{OperandAttr: operand, InnerValue: []byte("\n<![CDATA[" + text + "]]>\n")}
}

// the comments of rungs
//
//vc:verify l5x.LoadRungComments
func VC_C21_rungs(task, prog, routine, a, b, text, text2 string, other bool, parts int) {
	vcRequires(a != b)
	vcRequires(vcIsText(text))
	vcRequires(vcIsText(text2))
	vcRequires(parts >= 0)
	vcRequires(parts <= 4)
	f := RSLogix5000Content(&ProjectType{})
	if parts == 0 {
		c, err := LoadRungComments(f)
		vcEnsures("a file without a controller has no comments", err == nil && len(c) == 0)
		return
	}
	p := &AProgramType{NameAttr: prog}
	f.Controller = &ControllerType{Programs: &ProgramCollectionType{Program: []*AProgramType{p}}}
	if parts == 1 {
		c, err := LoadRungComments(f)
		vcEnsures("a program without routines has no comments", err == nil && len(c) == 0)
		return
	}
	ra := &RungType{NumberAttr: a, Comment: []*CommentWideType{vcComment("", text)}}
	rb := &RungType{NumberAttr: b, Comment: []*CommentWideType{vcComment("", text2)}}
	if parts == 2 {
		ra.Comment = nil
	}
	if parts == 3 {
		ra.Comment[0].InnerValue = []byte("<![CDATA[]]>")
	}
	p.Routines = &RoutineCollectionType{Routine: []*RoutineType{{NameAttr: routine, RLLContent: []*RungCollectionType{{Rung: []*RungType{ra, rb}}}}}}
	in := prog
	if other {
		in = prog + "2"
	}
	f.Controller.Tasks = &TaskCollectionType{Task: []*TaskType{{NameAttr: "none"}, {NameAttr: task, ScheduledPrograms: &ScheduledProgramCollectionType{ScheduledProgram: []*ScheduledProgramType{{NameAttr: in}}}}}}
	c, err := LoadRungComments(f)
	at := task + "/" + prog + "/" + routine
	if other {
		at = "/" + prog + "/" + routine
	}
	vb, ok := c[at+"["+b+"]"]
	vcEnsures("a comment is at its rung", err == nil && ok && vb == text2)
	va, ok := c[at+"["+a+"]"]
	if parts < 4 {
		vcEnsures("a rung without a comment has none", len(c) == 1 && !ok)
		return
	}
	vcEnsures("each comment is at its own", len(c) == 2 && ok && va == text)
}

// the comments of a module's points
//
//vc:verify l5x.LoadTagComments
func VC_C21_points(module, a, b, text, text2 string, parts int) {
	vcRequires(a != b)
	vcRequires(vcIsText(text))
	vcRequires(vcIsText(text2))
	vcRequires(parts >= 0)
	vcRequires(parts <= 5)
	f := RSLogix5000Content(&ProjectType{Controller: &ControllerType{}})
	m := &MapDeviceType{NameAttr: module}
	f.Controller.Modules = &MapDeviceCollectionType{Module: []*MapDeviceType{{NameAttr: "none"}, m}}
	con := &MapConnectionType{}
	if parts >= 1 {
		m.Communications = &CommunicationsType{}
	}
	if parts >= 2 {
		m.Communications.Connections = &MapConnectionCollectionType{}
	}
	if parts >= 3 {
		m.Communications.Connections.Connection = []*MapConnectionType{con}
	}
	if parts >= 4 {
		con.OutputTag = &OutputTagType{Comments: []*CommentCollectionType{{Comment: []*CommentWideType{vcComment(a, text), vcComment(b, text2)}}}}
	}
	if parts == 5 {
		con.InputTag = &InputTagType{Comments: []*CommentCollectionType{{Comment: []*CommentWideType{vcComment(a, text2)}}}}
	}
	c, err := LoadTagComments(f)
	if parts < 4 {
		vcEnsures("a module without comments has none", err == nil && len(c) == 0)
		return
	}
	vcEnsures("the comments of outputs", err == nil && c[module+":O"+a] == text && c[module+":O"+b] == text2)
	if parts < 5 {
		vcEnsures("nothing else", len(c) == 2)
		return
	}
	vcEnsures("the comments of inputs", len(c) == 3 && c[module+":I"+a] == text2)
}

func vcDescribed(text string) *DescriptionType {
	return &DescriptionType{InnerValue: []byte("<![CDATA[" + text + "]]>")}
}

// the descriptions of tags and of the members of their types
//
//vc:verify l5x.LoadTagComments
//vc:verify l5x.GetTypeComments
//vc:verify l5x.GetDataTypeMap
func VC_C21_descriptions(tag, typ, a, b, text, text2, text3 string, described, own bool) {
	vcRequires(a != b)
	vcRequires(a != typ)
	vcRequires(b != typ)
	vcRequires(typ != "DINT")
	vcRequires(vcIsText(text))
	vcRequires(vcIsText(text2))
	vcRequires(vcIsText(text3))
	ma := &DataTypeMemberType{NameAttr: a, DataTypeAttr: "DINT", Description: vcDescribed(text)}
	mb := &DataTypeMemberType{NameAttr: b, DataTypeAttr: "DINT"}
	dt := &DataTypeType{NameAttr: typ, Members: &TypeMemberCollectionType{Member: []*DataTypeMemberType{ma, mb}}}
	if described {
		dt.Description = vcDescribed(text2)
	}
	tg := &TagType{NameAttr: tag, DataTypeAttr: typ, Data: []*DataWideType{{}}}
	if own {
		tg.Description = []*DescriptionType{vcDescribed(text3)}
	}
	f := RSLogix5000Content(&ProjectType{Controller: &ControllerType{}})
	f.Controller.DataTypes = &DataTypeCollectionType{DataType: []*DataTypeType{dt}}
	f.Controller.Tags = &TagCollectionType{Tag: []*TagType{tg}}
	c, err := LoadTagComments(f)
	of, ofType := "", ""
	if own {
		of = text3 + " "
	}
	if described {
		ofType = text2 + " "
	}
	got, ok := c[tag]
	vcEnsures("a tag has its description", err == nil && ok == own && (!own || got == text3))
	got, ok = c[tag+"."+a]
	vcEnsures("a member has its own, after those of its type and tag", ok && got == of+ofType+text)
	got, ok = c[tag+"."+b]
	vcEnsures("or that of its type", ok == described && (!described || got == of+text2))
}
