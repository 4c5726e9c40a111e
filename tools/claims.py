T = "property-based testing with rapid (shrinking) against a reference model; "
N = "Generated-input search: no counterexample among the cases counted in the evidence. "
CLAIMED = {
 "C01": (T + "structured message generator with parts as the oracle, and round trip through text", N + "The oracle is the model the message was generated from."),
 "C02": (T + "structured message generator with parts as the oracle", N + "The oracle is the model the text was generated from."),
 "C03": ("property-based fuzzing with rapid (shrinking): structured mutation of generated texts, and growth of repeated pieces", N + "The oracle is absence of panics, exactly one of result and error, and linear growth of memory and time."),
 "C04": (T + "metamorphic relation between spellings of a generated message", N + "The oracle is the model, and the other spelling."),
 "C05": (T + "structured generator of bodies and framings", N + "The oracle is the bytes the model frames."),
 "C06": (T + "fault injection into generated messages, with recording listeners", N + "The oracle is the list of damaged lines, and the model of the others."),
 "C07": (T + "every subset of the mandatory headers in generated messages", N + "The oracle is the set of headers the message was generated with."),
 "C08": (T + "stateful model of the header table", N + "The oracle is an ordered multimap model."),
 "C09": (T + "stateful model of the content", N + "The oracle is the content, type and length of the last operation."),
 "C10": (T + "generated requests and derived responses", N + "The oracle is the model the request was generated from."),
 "C11": (T + "generated requests and derived requests", N + "The oracle is the model the request was generated from."),
 "C12": (T + "clones changed through every setter found by reflection, and derived messages changed", N + "The oracle is the first encoding of the other side."),
 "C13": (T + "metamorphic relations between identifiers of generated messages", N + "The oracle is which parts of two messages were made equal or different."),
 "C14": (T + "structured header generator with parts as the oracle, and stateful setter histories", N + "The oracle is the generated parts of each header."),
 "C15": (T + "structured header generator with parts as the oracle, and stateful setter histories", N + "The oracle is the generated parts of each header."),
 "C16": (T + "structured header generator with parts as the oracle, and stateful setter histories", N + "The oracle is the generated parts of each header."),
 "C17": (T + "structured header generator with parts as the oracle, and stateful setter histories", N + "The oracle is the generated parts of each header."),
 "C18": (T + "structured header generator with parts as the oracle, and stateful setter histories", N + "The oracle is the generated parts of each header."),
 "C19": (T + "histories of setters with values inside and outside their range", N + "The oracle is the documented range of each setter and a model of the header's parts."),
 "C21": (T + "stateful model of a sequence", N + "The oracle is a slice of headers."),
 "C20": (T + "stateful model of an ordered case-insensitive map", N + "The oracle is a list-of-pairs model."),
 "C22": (T + "structured grammar generator with parts as the oracle", N + "The oracle is the generated parts of each URI."),
 "C23": (T + "stateful model of the setters", N + "The oracle is a model of the URI's parts."),
 "C24": (T + "structured grammar generator and stateful model", N + "The oracle is the generated parts of each URI."),
 "C25": (T + "structured grammar generator and stateful model", N + "The oracle is the generated display name and URI."),
 "C26": (T + "structured grammar generator and stateful model", N + "The oracle is an independent classification of host texts."),
 "C27": (T + "reference scanners over fuzzed buffers", N + "The oracle is an independent scanner of each character class."),
 "C28": (T + "table of the enumerations' codes, objects and texts", N + "The oracle is the table of defined states."),
 "C29": (T + "reference encoder", N + "The oracle is an independent encoder of RFC 3550 packets."),
 "C30": (T + "byte-level fuzzing against a reference validity predicate", N + "The oracle is an independent validity predicate over bytes."),
 "C31": (T + "reference encoder and mutated packets", N + "The oracle is an independent encoder and validity predicate."),
 "C32": (T + "exact integer arithmetic", N + "Times before 2036 (the first NTP era)."),
 "C33": (T + "stateful model of the collision list", N + "The oracle is a map model."),
 "C34": (T + "big-integer reference generator", N + "The oracle is the rand48 recurrence in arbitrary precision; data races are seen by the race detector."),
 "C35": (T.replace("against a reference model", "differentially between entry points") + "generated and mutated texts", N + "The oracle is agreement between the entry points."),
 "C36": (T + "stateful model of the start line", N + "The oracle is a model of the line's parts."),
 "C37": ("property-based testing with rapid (shrinking) of generated concurrent tasks under the race detector; differential against the same task alone", N + "Schedules are those the Go scheduler makes; the race detector also sees races that did no harm in them."),
 "C38": (T + "histories of log calls with a model of the files", N + "The oracle is the text each file must hold."),
 "C39": (T + "independent reference functions", N + "The oracle is encoding/hex and strings."),
}
NOT = {p["id"]: "its check is not built yet" for p in P if p["id"] not in CLAIMED}
