SPECIFICATION Spec
CONSTANTS MaxPosts = 3 Full = TRUE
INVARIANTS Known Partition TagPartition Index TagLists Feeds Distinct Inside Posts Builds
CHECK_DEADLOCK FALSE
