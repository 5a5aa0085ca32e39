SPECIFICATION Spec
CONSTANTS MaxLen = 3
 Refs = {"refs/heads/master", "refs/heads/main", "refs/heads/maine", "refs/heads/mas", "refs/heads/x/master", "refs/heads/master/x", "refs/tags/master", "refs/notes/main", "refs/heads/Main", "refs/heads/m", "refs/headsx/main", "refs/heads/topic"}
INVARIANTS One Order Others Master Main Show
CHECK_DEADLOCK FALSE
