GR = "; a declarative TLA+ grammar of YAML 1.2 (Yaml12) decides the same runs independently and is compared with the machine over all small texts"
TV = "TLA+ specification; TLC validates recorded runs of the real parser step by step"
NA = {}
FAM = "Every recorded event of every explored input must be the specification's next event; inputs: "
NOTE = {
 "C01": ["TLA+ pushdown monitor (EventGrammar) over recorded event streams, TLC", "All explored inputs; the monitor does not depend on which events are right."],
 "C02": ["TLA+ safety monitor over recorded runs of the parser (MonitorTrace) and of every other entry point (WaysTrace), TLC", "Panics, aborts, hangs, runaways and unsafe polling after an error on all explored inputs, nesting up to some thousand levels; unbounded nesting is a known finding."],
 "C03": [TV + " with locations", "All spans and error marks equal the specification's; a second monitor recomputes line and column from the text."],
 "C04": [TV + GR, FAM + "enumerated scalar texts in every context, sizes around internal limits, random members."],
 "C05": [TV + GR, FAM + "enumerated headers, contents, indentations and contexts."],
 "C06": [TV + GR, FAM + "enumerated and random block layouts."],
 "C07": [TV + GR, FAM + "enumerated and random flow texts."],
 "C08": [TV + GR, FAM + "anchor and alias placements, redefinitions, documents."],
 "C09": [TV + GR, FAM + "tag forms, %TAG declarations, documents, keep_tags on and off."],
 "C10": [TV + GR, FAM + "marker and directive sequences, several documents."],
 "C11": ["TLA+ core-schema specification (CoreSchema); TLC validates the trees the real loader builds", "Enumerated texts around every pattern of the core schema, plain, quoted, block and tagged; values compared digit by digit."],
 "C12": ["TLA+ loader specification (Loader over YamlParser); TLC validates the trees of the real loader", "Inputs: enumerated and random documents, keep_tags on and off; every public loading function must agree."],
 "C13": ["TLA+ specification of the parser and of the break equivalence (BreaksTrace); TLC validates runs over 19 input sources and 3 break styles", "Buffer lengths 2 to 1024, helper methods inherited or written anew; the same text with LF, CRLF and CR."],
 "C14": ["TLA+ state machine of the reading interface (ReaderApi); TLC validates recorded histories of calls", "All sequences of 4-5 calls on some thirty streams, random histories of up to 60 calls on all families; ParserIter for its first document."],
 "C15": [TV + GR, FAM + "single edits of well-formed texts and random texts; acceptance and rejection must both agree."],
 "C16": ["TLA+ specification of typed reading (Typed over YamlParser and CoreSchema); TLC validates recorded deserializations", "Enumerated texts and shapes of types, all integer bounds, random shapes with conforming and nearly conforming texts, 22 derived types."],
 "C17": ["TLA+ specification reads the text the real serializer wrote (WriteTrace over YamlParser and Typed), TLC", "Scalars only, as the serializer implements no more: all small strings and characters, integers at their bounds, random floats, formatter settings; the text must be one document reading as the value."],
 "C18": ["TLA+ model of node accessors (NodeModel); TLC validates recorded histories of reads and writes", "Every operation on every kind of node; random histories on loaded and on constructed trees, Yaml and SpannedYaml; the whole tree and the spans of all nodes are compared after every step."],
 "C20": ["TLA+ specification of how the outcomes and events of all entry points relate (WaysTrace); TLC validates the outcomes of 17 ways of reading each text", "All general families of texts; which events are right is decided by the other properties."],
 "C19": [TV + GR, FAM + "comments, blank lines and spacing inserted everywhere."],
}
