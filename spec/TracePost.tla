----------------------------- MODULE TracePost -----------------------------
(* Runs of the hook post-receive, judged by Mirror.                         *)
EXTENDS Mirror, Json, IOUtils, TLCExt
Cases == ndJsonDeserialize(IOEnv.VP_CASES)
(* a case: pushurl, url; sections (none if the configuration cannot be read);
   repo: the directory; fails: git push fails, nogit: there is no git; calls:
   of git [cwd, argv]; rc; warned.
   real: a push through the real git: refs, of the repository, and mirrored,
   of each possible mirror [v: its name, refs] *)
Expected(c) == TLCEval(IF c.nogit THEN Mirror(Nowhere, Nowhere, c.sections) ELSE Mirror(c.pushurl, c.url, c.sections))
Pushes(c) == SelectSeq(c.calls, LAMBDA x : x.argv # <<>> /\ x.argv[1] = T("push"))
Agrees(c, e) ==
    /\ c.rc = 0
    /\ IF c.real THEN
            /\ c.fails => c.warned
            /\ \A i \in 1..Len(c.mirrored) :
                IF e.ok /\ (c.mirrored[i].v = e.v \/ (e.v = T("mirror") /\ c.mirrored[i].v = (IF c.pushurl.ok THEN c.pushurl.v ELSE c.url.v)))
                THEN c.mirrored[i].refs = c.refs ELSE c.mirrored[i].refs = <<>>
       ELSE
        /\ (~e.ok \/ c.fails \/ c.nogit) => c.warned
        /\ IF e.ok /\ ~c.nogit THEN
             /\ Len(Pushes(c)) = 1
             /\ Pushes(c)[1].argv = <<T("push"), T("--mirror"), e.v>> /\ Pushes(c)[1].cwd = c.repo
           ELSE Pushes(c) = <<>>
        (* nothing else but questions *)
        /\ \A i \in 1..Len(c.calls) : c.calls[i].argv # <<>> /\ c.calls[i].argv[1] \in {T("push"), T("config"), T("remote")}
VARIABLES lane, pos, bad
INSTANCE JudgeLoop
=============================================================================
