"""property -> (deciding technique, note) of the checks beside the coders'"""
OBJ = ("TLA+ specification of message objects (Objects.tla over Templates.tla); trace validation of recorded histories of "
       "mutations, copies, moves and comparisons with TLC")
OBJN = ("Every call on the real objects is one event and the whole visible state is compared after each; contents behind guard "
        "pages, an accounting allocator and AddressSanitizer observe memory. Exploration by seeded generation, bounded by what was "
        "generated (counts in the evidence); trusts TLC, the specification, the harness and the compiler.")
CLAIM = {p: (OBJ, OBJN) for p in "P12 P13 P15 P16 P21 P22".split()}
ARN = ("TLA+ specification of an arena (Arena.tla) and an exhaustively checked model of its chunk lists (ChunkArena.tla): trace "
       "validation of recorded call histories with TLC and replay of every behaviour of the model on the real arena")
ARNN = ("Block contents are written and compared byte by byte, addresses checked for overlap, alignment and containment, under "
        "AddressSanitizer; the model is exhaustive within its bounds (counts in the evidence), other histories are seeded.")
CLAIM["P14"] = (ARN, ARNN)
JSN = ("TLA+ specification of JSON texts and what they say about messages (JsonText.tla over Objects.tla); trace validation of recorded "
       "histories with TLC")
JSNN = ("The specification parses the text byte by byte itself; documents are seeded (right, odd and damaged ones), messages come from "
        "mutation histories; run under AddressSanitizer. Bounded by what was generated (counts in the evidence).")
CLAIM["P17"] = CLAIM["P18"] = CLAIM["P26"] = (JSN, JSNN)
TPL = ("TLA+ specification of template documents (Templates.tla): the descriptions read back from documents loaded by the real code are "
       "validated against it with TLC")
TPLN = ("Documents are seeded and use every element and attribute of the format, nested definitions, several documents in one registry, "
        "and one of the possible mistakes; every attribute of every instruction is compared, in both configurations of the parser. "
        "Bounded by what was generated (counts in the evidence).")
CLAIM["P19"] = (TPL, TPLN)
GEN = ("TLA+ specification of template documents and of what the accessors of generated types reach (Templates.tla, TraceTemplates.tla): "
       "descriptions and accessor walks recorded from generated, compiled and run code are validated against it with TLC")
GENN = ("Code is generated for seeded documents, one or two to a registry, compiled together with a program which calls every accessor "
        "of every field and element; a document the specification accepts has to generate and compile. Bounded by what was generated.")
CLAIM["P20"] = (GEN, GENN)
VIW = ("TLA+ specification of views over message objects (Views.tla over Objects.tla): which reference of each view field is the first "
       "present one, through groups, sequence elements and referenced templates; trace validation of recorded histories with TLC")
VIWN = ("Views are generated types whose references are seeded from the templates' own paths; after mutations a view is iterated over the "
        "real message and entries, their names, values and ids are compared. Bounded by what was generated (counts in the evidence).")
CLAIM["P25"] = (VIW, VIWN)
THR = ("TLA+ model of sessions in threads which share descriptions (Threads.tla: every interleaving leaves each session what it does "
       "alone), bound by trace validation: histories recorded in concurrent threads are validated one by one with TLC as if alone, "
       "and a step outside a session's own state is observed by ThreadSanitizer")
THRN = ("Six threads at a time with coders, messages, JSON conversion and loading over shared loaded or generated descriptions; the "
        "histories are seeded and the schedules are the operating system's, so interleavings are sampled, but the race detector judges "
        "the happens-before order and does not need a bad interleaving to happen.")
CLAIM["P27"] = (THR, THRN)
