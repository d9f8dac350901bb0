SPECIFICATION Spec
CONSTRAINT FeedBound
INVARIANTS Delivered Agreement SelfDelimiting Minimal LikeNew Prefix
CHECK_DEADLOCK FALSE
