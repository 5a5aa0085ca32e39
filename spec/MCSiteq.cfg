SPECIFICATION Spec
CONSTANTS MaxPosts = 2 Full = FALSE
INVARIANTS Known Partition TagPartition Index TagLists Feeds Distinct Inside Posts Builds
CHECK_DEADLOCK FALSE
