SEQT = "exhaustive bounded enumeration of operation sequences on the implementation against a reference model"
CONCT = "stateless model checking of the implementation (preemption-bounded schedule enumeration with happens-before state caching)"
NA = {}
